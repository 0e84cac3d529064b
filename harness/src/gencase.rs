//! Which case a property examines at which index.
use crate::prog::*;
use crate::seq::diverges;
use vrt::rng::{mix, Rng};

pub fn kinds(r: &mut Rng, node: &Node, nhot: usize) -> Vec<HotKind> {
  (0..nhot)
    .map(|h| {
      let mut uses = 0;
      let mut nested = false;
      node.visit(&mut |n| {
        if matches!(n, Node::Hot(x) if *x == h) {
          uses += 1;
        }
        if let Node::Op(Op::FlatMap(v) | Op::Resume(v), _) = n {
          for x in v {
            nested |= x.has(&|n| matches!(n, Node::Hot(x) if *x == h));
          }
        }
      });
      if uses <= 1 && !nested && r.chance(500) {
        HotKind::Subject
      } else {
        HotKind::Probe
      }
    })
    .collect()
}

pub struct Opts {
  pub depth: usize,
  pub combs: bool,
  pub recov: bool,
  pub errors: bool,
  pub ill: bool,
  pub endless: bool,
  pub nsubs: usize,
  pub unsub: bool,
  pub react: bool,
  pub flat: bool,
  pub hot: bool,
  pub max: usize,
  pub track: bool,
  pub share: bool,
  pub threads: bool,
  pub stamps: u8,
  pub big: u8,
}
impl Default for Opts {
  fn default() -> Self {
    Opts {
      depth: 4,
      combs: true,
      recov: true,
      errors: true,
      ill: false,
      endless: false,
      nsubs: 1,
      unsub: false,
      react: false,
      flat: false,
      hot: true,
      max: 4,
      track: false,
      share: false,
      threads: false,
      stamps: 0,
      big: 0,
    }
  }
}

pub fn random_case(
  r: &mut Rng,
  o: &Opts,
  root: Option<Comb>,
  top: &[Op],
) -> Case {
  let mut g = Gen::new(r);
  g.combs = o.combs;
  g.recov = o.recov;
  g.errors = o.errors;
  g.ill = o.ill;
  g.endless = o.endless;
  g.hot_ok = o.hot;
  g.share = o.share && o.nsubs == 1;
  g.threads = o.threads;
  g.stamps = o.stamps;
  g.big = o.big;
  let d = 1 + g.r.below(o.depth);
  let mut node = match root {
    Some(c) => {
      g.budget = 6;
      let mut n = g.comb_of(c, if d > 2 { 1 } else { 0 });
      if g.r.chance(250) {
        let op = g.simple_op();
        n = g.push(n, op);
      }
      n
    }
    None => g.node(d),
  };
  for t in top {
    node = g.push(node, t.clone());
  }
  if o.flat || (o.nsubs > 1) {
    node = flat_top(node);
  }
  if g.nhot > 0 && g.r.chance(60) {
    let h = g.r.below(g.nhot);
    let evs = rand_script(g.r, g.scale(3, 12, 3), o.errors, false);
    node = Node::Rsg(h, evs, Box::new(flat_top(node)));
  }
  let nhot = g.nhot;
  let mut cold = g.cold;
  if o.nsubs > 1 {
    for c in cold.iter_mut() {
      c.scripts.truncate(1);
    }
  }
  let hot = kinds(r, &node, nhot);
  let max = match o.big {
    0 => o.max,
    1 => o.max + 24 / nhot.max(1),
    _ => 300,
  };
  let mut steps = history(r, nhot, max, o.errors, o.ill);
  // ready_set_go acts as the producer of its source
  if let Node::Rsg(h, evs, _) = &node {
    if evs.iter().any(|e| !matches!(e, Ev::N(_))) && !o.ill {
      let h = *h;
      steps.retain(|s| !matches!(s, Step::Emit(x, _) if *x == h));
    }
  }
  if !o.ill {
    sanitize(&mut steps);
  }
  for k in 1..o.nsubs {
    let at = r.below(steps.len() + 1).max(1);
    steps.insert(at, Step::Subscribe(k));
  }
  let mut react = Vec::new();
  if o.unsub && r.chance(800) {
    let k = r.below(o.nsubs);
    let at = 1 + steps
      .iter()
      .position(|s| matches!(s, Step::Subscribe(x) if *x == k))
      .unwrap();
    let at = at + r.below(steps.len() + 1 - at);
    let st = if r.chance(150) { Step::Using(k) } else { Step::Unsub(k) };
    steps.insert(at, st);
    if r.chance(300) {
      let at2 = at + 1 + r.below(steps.len() - at);
      steps.insert(at2, Step::Unsub(k));
    }
  }
  if o.react {
    for _ in 0..1 + r.below(3) {
      let sub = r.below(o.nsubs);
      // 0: inside the terminal's callback
      let nth = if r.chance(250) { 0 } else { 1 + r.below(4) };
      let act = match r.below(10) {
        0..=3 => Step::Unsub(r.below(o.nsubs)),
        4..=7 if nhot > 0 => {
          let h = r.below(nhot);
          let e = match r.below(6) {
            0 => Ev::C,
            1 if o.errors => Ev::E(100),
            _ => Ev::N(small(r)),
          };
          Step::Emit(h, e)
        }
        _ => Step::Unsub(sub),
      };
      react.push(React { sub, nth, act });
    }
  }
  Case {
    react,
    nest: vec![],
    node,
    hot,
    cold,
    steps,
    well_formed: !o.ill,
    track: o.track,
  }
}

/// all item sequences over {0,1,2} up to length 4 with each kind of ending
fn script_no(mut i: u64, base: u64, maxlen: u32) -> Vec<Ev> {
  let term = i % 3;
  i /= 3;
  let mut len = 0;
  while len < maxlen && i >= base.pow(len) {
    i -= base.pow(len);
    len += 1;
  }
  let mut v = Vec::new();
  for _ in 0..len {
    v.push(Ev::N((i % base) as i64));
    i /= base;
  }
  match term {
    0 => v.push(Ev::C),
    1 => v.push(Ev::E(101)),
    _ => {}
  }
  v
}
fn script_count(base: u64, maxlen: u32) -> u64 {
  3 * (0..=maxlen).map(|l| base.pow(l)).sum::<u64>()
}

/// exhaustive small scope: every operator x every short script x hot/cold
pub fn enum_single(idx: u64) -> Option<Case> {
  let t = op_table();
  let sc = script_count(3, 4);
  let per = sc * 2;
  let oi = idx / per;
  if oi >= t.len() as u64 {
    return None;
  }
  let rest = idx % per;
  let script = script_no(rest / 2, 3, 4);
  Some(one_source(t[oi as usize].clone(), script, rest % 2 == 0))
}
pub fn enum_single_len() -> u64 {
  op_table().len() as u64 * script_count(3, 4) * 2
}
pub fn one_source(op: Op, script: Vec<Ev>, hot: bool) -> Case {
  if hot {
    let mut steps = vec![Step::Subscribe(0)];
    steps.extend(script.into_iter().map(|e| Step::Emit(0, e)));
    Case {
      react: vec![],
      nest: vec![],
      node: Node::Hot(0).op(op),
      hot: vec![HotKind::Probe],
      cold: vec![],
      steps,
      well_formed: true,
      track: false,
    }
  } else {
    Case {
      react: vec![],
      nest: vec![],
      node: Node::Cold(0).op(op),
      hot: vec![],
      cold: vec![ColdSpec { scripts: vec![script], polite: false }],
      steps: vec![Step::Subscribe(0)],
      well_formed: true,
      track: false,
    }
  }
}

/// every combining operator x two short scripts x interleavings
pub fn enum_pair_len() -> u64 {
  let s = script_count(2, 2);
  COMBS.len() as u64 * s * s * 8
}
pub fn enum_pair(idx: u64) -> Option<Case> {
  let s = script_count(2, 2);
  let ci = idx / (s * s * 8);
  if ci >= COMBS.len() as u64 {
    return None;
  }
  let rest = idx % (s * s * 8);
  let order = rest % 8;
  let a = script_no(rest / 8 % s, 2, 2);
  let b = script_no(rest / 8 / s, 2, 2);
  let mut steps = vec![Step::Subscribe(0)];
  // a deterministic selection of interleavings: bits then a random tail
  let mut r = Rng::new(mix(rest, 77));
  let (mut i, mut j, mut k) = (0, 0, 0);
  while i < a.len() || j < b.len() {
    let bit = if k < 3 { (order >> k) & 1 == 1 } else { r.chance(500) };
    k += 1;
    if i < a.len() && (bit || j >= b.len()) {
      steps.push(Step::Emit(0, a[i].clone()));
      i += 1;
    } else {
      steps.push(Step::Emit(1, b[j].clone()));
      j += 1;
    }
  }
  Some(Case {
    react: vec![],
    nest: vec![],
    node: Node::Comb(
      COMBS[ci as usize],
      vec![Node::Hot(0), Node::Hot(1)],
    ),
    hot: vec![HotKind::Probe, HotKind::Subject],
    cold: vec![],
    steps,
    well_formed: true,
    track: false,
  })
}

fn enders(r: &mut Rng) -> Vec<Op> {
  let f = r.below(8) as u8;
  match r.below(10) {
    0 => vec![Op::Take(1 + r.below(3))],
    1 => vec![Op::First],
    2 => vec![Op::ElementAt(1 + r.below(3))],
    3 => vec![Op::TakeWhile(f)],
    4 => vec![Op::Contains(small(r))],
    5 => vec![Op::All(f)],
    6 => vec![Op::Materialize, Op::Dematerialize],
    7 => vec![Op::Take(0)],
    8 => vec![Op::Take(2), Op::Tap(9)],
    _ => vec![],
  }
}

/// (case, number of subscribers) of a sequential property at an index
pub fn case_for(prop: &str, idx: u64, seed: u64) -> (Case, usize) {
  let mut h = mix(seed, idx);
  for b in prop.bytes() {
    h = mix(h, b as u64);
  }
  let r = &mut Rng::new(h);
  for _ in 0..50 {
    let (c, n) = draw(prop, idx, r);
    let fixed = idx < enum_size(prop);
    // what an action emits on subscription, the other subscribers see too
    let shared = prop == "C14" && has_rsg(&c.node);
    if fixed || (!shared && !reshared(&c.node) && !diverges(&c, n)) {
      return (c, n);
    }
  }
  (one_source(Op::Map(0), vec![Ev::N(1), Ev::C], true), 1)
}

fn draw(prop: &str, idx: u64, r: &mut Rng) -> (Case, usize) {
  let mut o = Opts::default();
  o.share = matches!(prop, "C01" | "C04" | "C05" | "C06" | "C07" | "C17")
    && r.chance(500);
  o.big = if r.chance(60) {
    1
  } else if prop == "C02" && r.chance(2) {
    2
  } else {
    0
  };
  // what time_interval gives is nobody's property: no judging by the model
  o.stamps = match prop {
    "C01" | "C05" | "C06" | "C07" | "C17" => 2,
    "C04" | "C14" => 1,
    _ => 0,
  };
  match prop {
    "C01" => {
      o.ill = true;
      o.unsub = r.chance(200);
      o.endless = r.chance(100);
      o.react = r.chance(250);
      let root = if r.chance(350) { Some(*r.pick(&COMBS)) } else { None };
      (random_case(r, &o, root, &[]), 1)
    }
    "C02re" | "C03re" => nested(prop, r),
    "C02" => {
      if let Some(c) = enum_single(idx) {
        return (c, 1);
      }
      o.combs = false;
      o.recov = false;
      o.depth = 5;
      o.max = 6;
      o.endless = r.chance(150);
      (random_case(r, &o, None, &[]), 1)
    }
    "C03" => {
      if let Some(c) = enum_pair(idx) {
        return (c, 1);
      }
      o.depth = 3;
      o.errors = r.chance(300);
      o.recov = false;
      o.endless = r.chance(100);
      let root = if r.chance(850) { Some(*r.pick(&COMBS)) } else { None };
      (random_case(r, &o, root, &[]), 1)
    }
    "C04" => {
      o.depth = 5;
      o.combs = r.chance(400);
      let mut top = Vec::new();
      if r.chance(500) {
        top.push(match r.below(4) {
          0 => Op::Retry(r.below(if o.big > 0 { 11 } else { 5 })),
          1 => Op::RetryWhen(r.below(4) as u8),
          2 => Op::Materialize,
          _ => Op::Retry(1 + r.below(3)),
        });
        if r.chance(300) {
          top.push(Op::Dematerialize);
        }
      }
      (random_case(r, &o, None, &top), 1)
    }
    "C05" => {
      o.unsub = true;
      o.flat = true;
      o.react = r.chance(250);
      o.max = 5;
      o.endless = r.chance(100);
      o.nsubs = 1 + r.below(2);
      let root = if r.chance(350) { Some(*r.pick(&COMBS)) } else { None };
      let n = o.nsubs;
      (random_case(r, &o, root, &[]), n)
    }
    "C06" => {
      o.unsub = r.chance(400);
      o.flat = true;
      o.max = 5;
      o.endless = r.chance(250);
      let top = enders(r);
      let root = if r.chance(450) { Some(*r.pick(&COMBS)) } else { None };
      (random_case(r, &o, root, &top), 1)
    }
    "C07" => {
      o.react = r.chance(800);
      o.unsub = r.chance(300);
      o.endless = r.chance(150);
      o.nsubs = 1 + r.below(2);
      let root = if r.chance(350) { Some(*r.pick(&COMBS)) } else { None };
      let n = o.nsubs;
      (random_case(r, &o, root, &[]), n)
    }
    "C14" => {
      o.nsubs = 2 + r.below(2);
      o.unsub = r.chance(200);
      o.hot = r.chance(500);
      let root = if r.chance(350) { Some(*r.pick(&COMBS)) } else { None };
      let n = o.nsubs;
      let nest = !o.hot && r.chance(600);
      let mut c = random_case(r, &o, root, &[]);
      if nest {
        // subscriber 1 arrives inside a callback of subscriber 0
        c.steps.retain(|s| !matches!(s, Step::Subscribe(1)));
        c.steps.retain(|s| !s.ends(1));
        c.react.push(React {
          sub: 0,
          nth: 1 + r.below(3),
          act: Step::Subscribe(1),
        });
      }
      (c, n)
    }
    "C17" => {
      o.track = true;
      o.flat = true;
      o.unsub = r.chance(600);
      o.endless = r.chance(100);
      o.nsubs = 1 + r.below(2);
      let n = o.nsubs;
      let root = if r.chance(350) { Some(*r.pick(&COMBS)) } else { None };
      let mut c = random_case(r, &o, root, &[]);
      for k in 0..n {
        c.steps.push(Step::Unsub(k));
      }
      (c, n)
    }
    _ => panic!("no generator for {}", prop),
  }
}

/// hands out its last item before it lets go of its source
pub fn ends_late(n: &Node) -> bool {
  n.has(&|n| {
    matches!(
      n,
      Node::Op(
        Op::Take(_) | Op::First | Op::ElementAt(_) | Op::Contains(_),
        _
      ) | Node::Comb(Comb::SequenceEqual, _)
    )
  })
}

/// hot sources whose steps are partly taken from inside the item callbacks:
/// what comes out must not depend on that
fn nested(prop: &str, r: &mut Rng) -> (Case, usize) {
  let comb = prop == "C03re";
  loop {
    let mut g = Gen::new(r);
    g.combs = false;
    g.recov = false;
    let mut node = if comb {
      let c = *g.r.pick(&COMBS);
      let two = matches!(
        c,
        Comb::TakeUntil | Comb::SkipUntil | Comb::Sample | Comb::SwitchOnNext
      );
      let k = if two { 2 } else { 1 + g.r.below(4) };
      let v = (0..k)
        .map(|_| {
          g.nhot += 1;
          let n = Node::Hot(g.nhot - 1);
          if g.r.chance(250) {
            // (nothing that emits at the end: the end would come in between)
            let f = g.r.below(8) as u8;
            let o = match g.r.below(7) {
              0 => Op::Map(f),
              1 => Op::Filter(f),
              2 => Op::Skip(1),
              3 => Op::SkipLast(1),
              4 => Op::Scan(f),
              5 => Op::SkipWhile(f),
              _ => Op::Distinct,
            };
            n.op(o)
          } else {
            n
          }
        })
        .collect();
      Node::Comb(c, v)
    } else {
      g.new_hot()
    };
    for _ in 0..g.r.below(4) + !comb as usize {
      let o = g.simple_op();
      node = g.push(node, o);
    }
    let node = flat_top(node);
    let nhot = g.nhot;
    let early = ends_late(&node);
    // a prefix is played while the source is not subscribed yet
    if node.has(&|n| matches!(n, Node::Op(Op::StartWith(_) | Op::StartEndless, _))) {
      continue;
    }
    let hot = kinds(r, &node, nhot);
    // an error raised while take is handing out its last item, or
    // sequence_equal its result: either
    let most = if r.chance(60) { 5 + 24 / nhot } else { 5 };
    let mut steps = history(r, nhot, most, !early, false);
    sanitize(&mut steps);
    let k = 1 + r.below(4);
    let nest = (0..k).map(|_| r.chance(700)).collect();
    let case = Case {
      react: vec![],
      nest,
      node,
      hot,
      cold: vec![],
      steps,
      well_formed: true,
      track: false,
    };
    return (case, 1);
  }
}

/// number of enumerated cases a property starts with
pub fn enum_size(prop: &str) -> u64 {
  match prop {
    "C02" => enum_single_len(),
    "C03" => enum_pair_len(),
    _ => 0,
  }
}

/// a shared source that is resubscribed: reconnection is not pinned down
pub fn reshared(n: &Node) -> bool {
  let (mut s, mut t) = (false, false);
  n.visit(&mut |x| {
    s |= matches!(x, Node::Op(Op::Share | Op::ShareReplay, _));
    t |= matches!(x, Node::Op(Op::Retry(_) | Op::RetryWhen(_), _));
  });
  s && t
}

fn has_rsg(n: &Node) -> bool {
  let mut found = false;
  n.visit(&mut |x| found |= matches!(x, Node::Rsg(..)));
  found
}
