//! Pipelines as data, their random generation, histories.
use crate::val::*;
use vrt::rng::Rng;

/// scripted source events; the `i64` of an error is its payload code
#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
  N(i64),
  E(i64),
  C,
}

#[derive(Clone, Debug)]
pub enum Op {
  Map(u8),
  Filter(u8),
  Take(usize),
  TakeLast(usize),
  TakeWhile(u8),
  Skip(usize),
  SkipLast(usize),
  SkipWhile(u8),
  First,
  Last,
  ElementAt(usize),
  Distinct,
  Scan(u8),
  Reduce(u8),
  Count,
  Sum,
  SumCount,
  Min,
  Max,
  All(u8),
  Contains(i64),
  DefaultIfEmpty(i64),
  IgnoreElements,
  StartWith(Vec<i64>),
  /// start_with an endless iterator
  StartEndless,
  Buffer(usize),
  /// window_with_count then flat_map(identity) when not last
  Window(usize),
  GroupBy(u8),
  Materialize,
  Dematerialize,
  Tap(usize),
  MapToAny,
  /// the stamp is dropped again
  Timestamp,
  /// the span is replaced by 9
  Spans,
  Retry(usize),
  RetryWhen(u8),
  Resume(Vec<Node>),
  FlatMap(Vec<Node>),
  /// flat_map over a stream of observables (after Window / GroupBy)
  Flatten,
  ObserveOnDefault,
  SubscribeOnDefault,
  /// identity for a single subscriber
  Share,
  ShareReplay,
  // the concurrent family only
  ObserveOnNew,
  SubscribeOnNew,
  Delay(u64),
  Debounce(u64),
  Timeout(u64),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Comb {
  Merge,
  Zip,
  Concat,
  Amb,
  CombineLatest,
  SequenceEqual,
  TakeUntil,
  SkipUntil,
  Sample,
  SwitchOnNext,
}
pub const COMBS: [Comb; 10] = [
  Comb::Merge,
  Comb::Zip,
  Comb::Concat,
  Comb::Amb,
  Comb::CombineLatest,
  Comb::SequenceEqual,
  Comb::TakeUntil,
  Comb::SkipUntil,
  Comb::Sample,
  Comb::SwitchOnNext,
];

#[derive(Clone, Debug)]
pub enum Node {
  /// hot source i, driven step by step by the history
  Hot(usize),
  /// cold source i: plays its script inside subscribe
  Cold(usize),
  Just(i64),
  FromIter(Vec<i64>),
  Range(i64, i64),
  Empty,
  Never,
  Error(i64),
  Start(i64),
  FromResult(Result<i64, i64>),
  Repeat(i64),
  /// from_iter of an endless iterator
  Endless,
  // the concurrent family only (milliseconds)
  Timer(u64),
  Interval(u64),
  Defer(Box<Node>),
  /// ready_set_go: running the action makes hot source i emit these
  Rsg(usize, Vec<Ev>, Box<Node>),
  Op(Op, Box<Node>),
  Comb(Comb, Vec<Node>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum HotKind {
  /// Observable::create keeping the observers it was handed
  Probe,
  /// the crate's Subject
  Subject,
  // the repeated family only
  Behavior,
  Replay,
  Async,
}

#[derive(Clone, Debug)]
pub struct ColdSpec {
  /// script of the k-th subscription (the last one repeats)
  pub scripts: Vec<Vec<Ev>>,
  /// polls is_subscribed between events like the crate's own producers
  pub polite: bool,
}

#[derive(Clone, Debug)]
pub enum Step {
  Subscribe(usize),
  Unsub(usize),
  /// puts the subscription into a Using guard and drops the guard
  Using(usize),
  Emit(usize, Ev),
}
impl Step {
  pub fn ends(&self, k: usize) -> bool {
    matches!(self, Step::Unsub(x) | Step::Using(x) if *x == k)
  }
}

/// done inside the callback that receives the nth event of subscriber `sub`
/// (0: its terminal)
#[derive(Clone, Debug)]
pub struct React {
  pub sub: usize,
  pub nth: usize,
  pub act: Step,
}
impl React {
  pub fn fits(&self, sub: usize, n: usize, terminal: bool) -> bool {
    self.sub == sub && (self.nth == n || self.nth == 0 && terminal)
  }
}

#[derive(Clone, Debug)]
pub struct Case {
  pub react: Vec<React>,
  /// which item callbacks (cyclically) make the sources take their next step
  /// before they return; empty: none
  pub nest: Vec<bool>,
  pub node: Node,
  pub hot: Vec<HotKind>,
  pub cold: Vec<ColdSpec>,
  pub steps: Vec<Step>,
  /// the sources obey the observer contract
  pub well_formed: bool,
  /// drop-token accounting
  pub track: bool,
}

impl Node {
  pub fn visit(&self, f: &mut dyn FnMut(&Node)) {
    f(self);
    match self {
      Node::Defer(n) | Node::Rsg(_, _, n) => n.visit(f),
      Node::Op(op, n) => {
        n.visit(f);
        match op {
          Op::Resume(v) | Op::FlatMap(v) => {
            v.iter().for_each(|x| x.visit(f))
          }
          _ => {}
        }
      }
      Node::Comb(_, v) => v.iter().for_each(|x| x.visit(f)),
      _ => {}
    }
  }
  pub fn has(&self, p: &dyn Fn(&Node) -> bool) -> bool {
    let mut r = false;
    self.visit(&mut |n| r |= p(n));
    r
  }
  pub fn has_comb(&self, c: Comb) -> bool {
    self.has(&|n| matches!(n, Node::Comb(x, _) if *x == c))
  }
  pub fn op(self, o: Op) -> Node {
    Node::Op(o, Box::new(self))
  }
  pub fn names(&self) -> Vec<String> {
    let mut v = Vec::new();
    self.visit(&mut |n| {
      v.push(match n {
        Node::Op(o, _) => {
          let s = format!("{:?}", o);
          s.split(|c: char| !c.is_alphanumeric())
            .next()
            .unwrap()
            .to_string()
        }
        Node::Comb(c, _) => format!("{:?}", c),
        o => {
          let s = format!("{:?}", o);
          s.split(|c: char| !c.is_alphanumeric())
            .next()
            .unwrap()
            .to_string()
        }
      })
    });
    v
  }
}

// ------------------------------------------------------------ generation

pub struct Gen<'a> {
  pub r: &'a mut Rng,
  pub nhot: usize,
  pub cold: Vec<ColdSpec>,
  pub hot_ok: bool,
  /// allow combining operators
  pub combs: bool,
  /// allow retry / resume
  pub recov: bool,
  pub taps: usize,
  pub errors: bool,
  pub ill: bool,
  pub endless: bool,
  pub share: bool,
  pub threads: bool,
  /// timestamp / time_interval
  pub stamps: u8,
  pub budget: i32,
  /// 1: longer inputs, larger parameters; 2: around 256
  pub big: u8,
}

pub fn small(r: &mut Rng) -> i64 {
  r.range(0, 3)
}

/// items of a long script have a wider range
fn item(r: &mut Rng, max: usize) -> i64 {
  if max > 9 && r.chance(500) {
    r.range(-9, 30)
  } else {
    small(r)
  }
}
pub fn rand_script(
  r: &mut Rng,
  max: usize,
  errors: bool,
  must_end: bool,
) -> Vec<Ev> {
  let n = if max >= 250 { 250 + r.below(max - 249) } else { r.below(max + 1) };
  let mut v: Vec<Ev> = (0..n).map(|_| Ev::N(item(r, max))).collect();
  match r.below(if must_end { 4 } else { 6 }) {
    0 if errors => v.push(Ev::E(100 + r.below(5) as i64)),
    0 | 1 | 2 | 3 => v.push(Ev::C),
    _ => {}
  }
  v
}
pub fn rand_ill(r: &mut Rng, max: usize) -> Vec<Ev> {
  let n = r.below(max + 1);
  (0..n)
    .map(|_| match r.below(6) {
      0 => Ev::E(100 + r.below(5) as i64),
      1 => Ev::C,
      _ => Ev::N(item(r, max)),
    })
    .collect()
}

impl<'a> Gen<'a> {
  pub fn new(r: &'a mut Rng) -> Gen<'a> {
    Gen {
      r,
      nhot: 0,
      cold: Vec::new(),
      hot_ok: true,
      combs: true,
      recov: true,
      taps: 0,
      errors: true,
      ill: false,
      endless: false,
      share: false,
      threads: false,
      stamps: 0,
      budget: 8,
      big: 0,
    }
  }
  pub fn scale(&self, a: usize, b: usize, c: usize) -> usize {
    [a, b, c][self.big as usize]
  }
  /// a parameter of an operator
  fn par(&mut self, small: usize) -> usize {
    match self.big {
      0 => self.r.below(small),
      1 => {
        let n = if self.r.chance(500) { small } else { 20 };
        self.r.below(n)
      }
      _ => {
        if self.r.chance(200) {
          self.r.below(small)
        } else if self.r.chance(500) {
          250 + self.r.below(50)
        } else {
          *self.r.pick(&[1, 2, 16, 31, 64, 127, 128, 255, 256, 257])
        }
      }
    }
  }
  pub fn new_cold(&mut self) -> Node {
    let k = 1 + self.r.below(self.scale(3, 5, 1));
    let scripts = (0..k)
      .map(|_| {
        if self.ill {
          rand_ill(self.r, self.scale(6, 16, 16))
        } else {
          rand_script(self.r, self.scale(4, 16, 300), self.errors, false)
        }
      })
      .collect();
    let polite = self.r.chance(600);
    self.cold.push(ColdSpec { scripts, polite });
    Node::Cold(self.cold.len() - 1)
  }
  pub fn new_hot(&mut self) -> Node {
    if self.nhot > 0 && self.r.chance(80) {
      return Node::Hot(self.r.below(self.nhot));
    }
    let most = self.scale(4, 7, 1);
    if self.nhot >= most {
      return Node::Hot(self.r.below(most));
    }
    self.nhot += 1;
    Node::Hot(self.nhot - 1)
  }
  pub fn leaf(&mut self) -> Node {
    let r = self.r.below(100);
    if self.hot_ok && r < 45 {
      return self.new_hot();
    }
    if r < 70 {
      return self.new_cold();
    }
    if self.endless && self.r.chance(80) {
      return if self.r.chance(500) {
        Node::Repeat(small(self.r))
      } else if self.r.chance(300) {
        Node::Op(Op::StartEndless, Box::new(Node::Empty))
      } else {
        Node::Endless
      };
    }
    if self.threads && self.r.chance(200) {
      let d = 1 + self.r.below(4) as u64;
      return if self.r.chance(600) {
        Node::Timer(d)
      } else {
        Node::Interval(d)
      };
    }
    match self.r.below(10) {
      0 => Node::Just(small(self.r)),
      1 | 2 => {
        let n = self.par(5);
        Node::FromIter((0..n).map(|_| small(self.r)).collect())
      }
      3 => Node::Range(small(self.r), self.par(5) as i64),
      4 => Node::Empty,
      5 => Node::Never,
      6 if self.errors => Node::Error(100 + self.r.below(5) as i64),
      7 => Node::Start(small(self.r)),
      8 => {
        if self.errors && self.r.chance(500) {
          Node::FromResult(Err(100 + self.r.below(5) as i64))
        } else {
          Node::FromResult(Ok(small(self.r)))
        }
      }
      9 => {
        let l = self.leaf();
        Node::Defer(Box::new(l))
      }
      _ => Node::Just(small(self.r)),
    }
  }
  pub fn simple_op(&mut self) -> Op {
    let far = if self.r.chance(12) {
      Some(*self.r.pick(&[
        usize::MAX,
        usize::MAX - 1,
        1 << 32,
        i64::MAX as usize,
        (1 << 31) + 1,
      ]))
    } else {
      None
    };
    let n = far.unwrap_or(self.par(5));
    let f = self.r.below(8) as u8;
    if self.share && self.r.chance(60) {
      return if self.r.chance(600) { Op::Share } else { Op::ShareReplay };
    }
    if self.stamps > 0 && self.r.chance(50) {
      return if self.stamps > 1 && self.r.chance(500) {
        Op::Spans
      } else {
        Op::Timestamp
      };
    }
    if self.threads && self.r.chance(250) {
      let d = 1 + self.r.below(4) as u64;
      return match self.r.below(8) {
        0..=2 => Op::ObserveOnNew,
        3 | 4 => Op::SubscribeOnNew,
        5 => Op::Delay(d),
        6 => Op::Debounce(d),
        _ => Op::Timeout(d),
      };
    }
    match self.r.below(33) {
      0 => Op::Map(f),
      1 => Op::Filter(f),
      2 | 3 => Op::Take(n),
      4 => Op::TakeLast(n),
      5 => Op::TakeWhile(f),
      6 => Op::Skip(n),
      7 => Op::SkipLast(n),
      8 => Op::SkipWhile(f),
      9 => Op::First,
      10 => Op::Last,
      11 => Op::ElementAt(far.unwrap_or(1 + self.par(4))),
      12 => Op::Distinct,
      13 => Op::Scan(f),
      14 => Op::Reduce(f),
      15 => Op::Count,
      16 => Op::Sum,
      17 => Op::SumCount,
      18 => Op::Min,
      19 => Op::Max,
      20 => Op::All(f),
      21 => Op::Contains(small(self.r)),
      22 => Op::DefaultIfEmpty(7),
      23 => Op::IgnoreElements,
      24 => {
        let k = self.par(3);
        Op::StartWith((0..k).map(|_| small(self.r)).collect())
      }
      25 => Op::Buffer(far.unwrap_or(1 + self.par(3))),
      26 => Op::Window(far.unwrap_or(1 + self.par(3))),
      27 => Op::GroupBy(f),
      28 => Op::Materialize,
      29 => Op::Dematerialize,
      30 => {
        self.taps += 1;
        Op::Tap(self.taps - 1)
      }
      31 => Op::MapToAny,
      _ => {
        if self.r.chance(500) {
          Op::ObserveOnDefault
        } else {
          Op::SubscribeOnDefault
        }
      }
    }
  }
  pub fn recov_op(&mut self) -> Op {
    match self.r.below(3) {
      0 => Op::Retry(1 + self.r.below(self.scale(4, 10, 10))),
      1 => Op::RetryWhen(self.r.below(4) as u8),
      _ => {
        let k = 1 + self.r.below(2);
        self.budget -= k as i32;
        Op::Resume((0..k).map(|_| self.inner()).collect())
      }
    }
  }
  fn inner(&mut self) -> Node {
    if self.budget > 0 && self.r.chance(250) {
      self.budget -= 1;
      let o = self.simple_op();
      flat_top(self.leaf().op(o))
    } else {
      self.leaf()
    }
  }
  pub fn comb(&mut self, depth: usize) -> Node {
    let c = *self.r.pick(&COMBS);
    self.comb_of(c, depth)
  }
  pub fn comb_of(&mut self, c: Comb, depth: usize) -> Node {
    let n = match c {
      Comb::TakeUntil
      | Comb::SkipUntil
      | Comb::Sample
      | Comb::SwitchOnNext => 2,
      _ if self.big == 1 => 1 + self.r.below(8),
      _ => 1 + self.r.below(4).max(self.r.below(3)),
    };
    self.budget -= n as i32;
    let v = (0..n)
      .map(|_| {
        if depth > 0 && self.r.chance(350) {
          flat_top(self.node(depth - 1))
        } else {
          self.leaf()
        }
      })
      .collect();
    Node::Comb(c, v)
  }
  pub fn node(&mut self, depth: usize) -> Node {
    let base = if self.combs && self.budget > 0 && self.r.chance(350) {
      self.comb(depth.saturating_sub(1))
    } else {
      self.leaf()
    };
    let k = self.r.below(depth + 1);
    let mut n = base;
    for _ in 0..k {
      let o = if self.recov && self.r.chance(150) {
        self.recov_op()
      } else if self.combs && self.budget > 0 && self.r.chance(120) {
        let k = 1 + self.r.below(3);
        self.budget -= k as i32;
        Op::FlatMap((0..k).map(|_| self.inner()).collect())
      } else {
        self.simple_op()
      };
      n = self.push(n, o);
    }
    n
  }
  /// adds an operator on top; streams of observables are flattened first
  pub fn push(&mut self, n: Node, o: Op) -> Node {
    flat_top(n).op(o)
  }
}

/// streams of observables are flattened
pub fn flat_top(n: Node) -> Node {
  if matches!(&n, Node::Op(Op::Window(_) | Op::GroupBy(_), _)) {
    n.op(Op::Flatten)
  } else {
    n
  }
}

/// A history: subscribe, then an interleaving of the hot sources' scripts.
pub fn history(
  r: &mut Rng,
  nhot: usize,
  max: usize,
  errors: bool,
  ill: bool,
) -> Vec<Step> {
  let mut scripts: Vec<Vec<Ev>> = (0..nhot)
    .map(|_| {
      if ill {
        rand_ill(r, max + 2)
      } else {
        rand_script(r, max, errors, false)
      }
    })
    .collect();
  let mut steps = vec![Step::Subscribe(0)];
  loop {
    let live: Vec<usize> =
      (0..nhot).filter(|i| !scripts[*i].is_empty()).collect();
    if live.is_empty() {
      break;
    }
    let i = *r.pick(&live);
    let e = scripts[i].remove(0);
    steps.push(Step::Emit(i, e));
  }
  steps
}

/// removes from a history what a well-formed hot source may not do
pub fn sanitize(steps: &mut Vec<Step>) {
  let mut done = [false; 16];
  steps.retain(|s| match s {
    Step::Emit(i, e) => {
      if done[*i] {
        return false;
      }
      if !matches!(e, Ev::N(_)) {
        done[*i] = true;
      }
      true
    }
    _ => true,
  });
}

pub fn te_of(e: &Ev) -> Te {
  match e {
    Ev::N(x) => Te::N(Tv::I(*x)),
    Ev::E(c) => Te::E(*c),
    Ev::C => Te::C,
  }
}

/// every single-source operator with small parameters
pub fn op_table() -> Vec<Op> {
  let mut v = Vec::new();
  for f in 0..4 {
    v.push(Op::Map(f));
    v.push(Op::Scan(f));
    v.push(Op::Reduce(f));
  }
  for p in 0..8 {
    v.push(Op::Filter(p));
    v.push(Op::TakeWhile(p));
    v.push(Op::SkipWhile(p));
    v.push(Op::All(p));
  }
  for n in 0..6 {
    v.push(Op::Take(n));
    v.push(Op::TakeLast(n));
    v.push(Op::Skip(n));
    v.push(Op::SkipLast(n));
  }
  for n in 1..6 {
    v.push(Op::ElementAt(n));
    v.push(Op::Buffer(n));
    v.push(Op::Window(n));
  }
  for n in 0..3 {
    v.push(Op::GroupBy(n));
    v.push(Op::Contains(n as i64));
    v.push(Op::StartWith((0..n as i64).collect()));
  }
  v.extend([
    Op::First,
    Op::Last,
    Op::Distinct,
    Op::Count,
    Op::Sum,
    Op::SumCount,
    Op::Min,
    Op::Max,
    Op::DefaultIfEmpty(7),
    Op::IgnoreElements,
    Op::Materialize,
    Op::Dematerialize,
    Op::Tap(0),
    Op::MapToAny,
    Op::ObserveOnDefault,
    Op::SubscribeOnDefault,
  ]);
  v
}
