//! The same pipeline subscribed to and ended over and over, on sources that
//! live on: nothing may pile up.
use crate::conc::*;
use crate::gencase::*;
use crate::prog::*;
use crate::real::*;
use crate::seq::{describe, diverges};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::Ordering::Relaxed;
use std::sync::{Arc, Mutex};
use vrt::rng::Rng;
use vrt::rt;

/// counts the live heap blocks of each OS thread (one case = one OS thread)
pub struct Counting;
thread_local! { static LIVE: Cell<i64> = const { Cell::new(0) }; }
fn count(d: i64) {
  let _ = LIVE.try_with(|c| c.set(c.get() + d));
}
unsafe impl GlobalAlloc for Counting {
  unsafe fn alloc(&self, l: Layout) -> *mut u8 {
    count(1);
    System.alloc(l)
  }
  unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
    count(1);
    System.alloc_zeroed(l)
  }
  unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
    System.realloc(p, l, n)
  }
  unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
    count(-1);
    System.dealloc(p, l)
  }
}
pub fn live_blocks() -> i64 {
  LIVE.with(|c| c.get())
}

const WARM: usize = 6;
const SPAN: usize = 12;

#[derive(Default)]
struct End {
  /// heap blocks after the warm-up, one span, another span
  blocks: [i64; 3],
  /// the same without a subscriber
  idle: i64,
  /// closure tokens: before, after each span
  toks: [i64; 3],
  /// the handles dropped as well
  last: i64,
  threads: Vec<(usize, String)>,
  counts: Vec<(usize, usize)>,
  cycles: usize,
  finished: bool,
}

fn gen(prop: &str, r: &mut Rng) -> (Case, bool, bool) {
  let mut o = Opts::default();
  o.max = 4;
  o.depth = 4;
  o.stamps = 2;
  o.share = r.chance(300);
  o.track = true;
  o.threads = prop == "C15";
  // (the model does not say whether what timers bring in ends it)
  o.endless = prop != "C15" && r.chance(150);
  loop {
    let root = if r.chance(400) { Some(*r.pick(&COMBS)) } else { None };
    let top = match r.below(8) {
      0 => vec![Op::Take(1 + r.below(2))],
      1 => vec![Op::First],
      2 => vec![Op::Share],
      _ => vec![],
    };
    let mut c = random_case(r, &o, root, &top);
    let swarm = c.node.has(&|n| matches!(n, Node::Interval(_)))
      && c.node.has(&|n| matches!(n, Node::Op(Op::FlatMap(_), _)));
    if c.hot.is_empty() && prop != "C15" {
      continue;
    }
    if swarm || reshared(&c.node) || diverges(&c, 1) {
      continue;
    }
    let endless = c.node.has(&|n| {
      matches!(
        n,
        Node::Repeat(_) | Node::Endless | Node::Op(Op::StartEndless, _)
      )
    });
    let open = c.node.has(&|n| matches!(n, Node::Rsg(..)));
    // what such a share keeps is not bounded by anything
    let keeps = c.node.has(&|n| matches!(n, Node::Op(Op::ShareReplay, _)));
    if open || (keeps && prop == "C06") {
      continue;
    }
    // (replaying into each other: too many items)
    let nested = c.node.has(&|n| matches!(
      n,
      Node::Op(
        Op::FlatMap(_) | Op::Retry(_) | Op::RetryWhen(_) | Op::Resume(_),
        _
      )
    ));
    for h in c.hot.iter_mut() {
      *h = match r.below(6) {
        0 | 1 if !endless => HotKind::Behavior,
        2 if !endless && !nested => HotKind::Replay,
        3 if !endless => HotKind::Async,
        _ => HotKind::Subject,
      };
    }
    // what is emitted into a source that has to stay alive
    let ends = r.chance(300);
    let kinds = c.hot.clone();
    c.steps.retain(|s| match s {
      Step::Emit(_, Ev::N(_)) => true,
      Step::Emit(h, _) => ends && kinds[*h] == HotKind::Subject,
      Step::Subscribe(_) => true,
      _ => false,
    });
    if diverges(&c, 1) {
      continue;
    }
    c.steps.retain(|s| matches!(s, Step::Emit(..)));
    // (what the second of two subscribers gets, the model does not say)
    return (c, r.chance(500), !endless && r.chance(250));
  }
}

pub fn scenario(prop: &str, r: &mut Rng) -> Scen {
  let (case, rebuild, pair) = gen(prop, r);
  let desc = format!(
    "{}subscribed to and ended {} times over{}{}",
    describe(&case),
    WARM + 2 * SPAN,
    if rebuild { ", built anew each time" } else { "" },
    if pair { ", two overlapping subscribers each time" } else { "" }
  );
  let kinds = case.node.names();
  let prop = prop.to_string();
  let mut sc = Scen::new(
    desc,
    vec![],
    Box::new(move |cfg| {
      let out = Arc::new(Mutex::new(End::default()));
      let (c2, p2) = (case.clone(), prop.clone());
      let (rep, out) =
        run(cfg, out, move |o| drive(&c2, &p2, rebuild, pair, o));
      let e = out.lock().unwrap();
      let verdict =
        if stuck(&rep).is_some() { None } else { judge(&prop, &e) };
      let sample = format!(
        "blocks {:?} tokens {:?} after {} cycles",
        e.blocks, e.toks, e.cycles
      );
      Exec { rep, verdict, events: e.cycles, sample }
    }),
  );
  sc.kinds = kinds;
  sc.kinds.push("cycles".into());
  sc.budget = Budget { bases: 1, sweep: 0, two: 0, random: 0, ..NORMAL };
  sc.max_steps = 4_000_000;
  sc
}

fn drive(
  case: &Case,
  prop: &str,
  rebuild: bool,
  pair: bool,
  out: Arc<Mutex<End>>) {
  let c = Ctx::full(case, None, true);
  let threads = prop == "C15";
  let mut pipe = None;
  let emit = |c: &C| {
    for s in &case.steps {
      if let Step::Emit(h, e) = s {
        c.emit_hot(*h, e);
        if threads {
          nap(2);
        }
      }
    }
  };
  let mut cycle = |c: &C| {
    for n in &c.cold_n {
      n.store(0, Relaxed);
    }
    c.pred_n.store(0, Relaxed);
    if rebuild || pipe.is_none() {
      pipe = None;
      pipe = Some(build(c, &case.node));
    }
    let s = subscribe(c, pipe.as_ref().unwrap(), vec![0]);
    emit(c);
    if pair {
      let t = subscribe(c, pipe.as_ref().unwrap(), vec![1]);
      s.unsubscribe();
      drop(s);
      emit(c);
      t.unsubscribe();
    } else {
      s.unsubscribe();
    }
    if rebuild {
      pipe = None;
    }
    if threads {
      settle(150);
    }
    out.lock().unwrap().cycles += 1;
  };
  let (warm, span) = if threads { (2, 3) } else { (WARM, SPAN) };
  for _ in 0..warm {
    cycle(&c);
  }
  for i in 0..3 {
    // whoever lets go of its dead lazily, does so now
    emit(&c);
    let toks = c.live.load(Relaxed);
    let mut o = out.lock().unwrap();
    o.blocks[i] = live_blocks();
    o.toks[i] = toks;
    drop(o);
    if i < 2 {
      for _ in 0..span {
        cycle(&c);
      }
    }
  }
  let b = live_blocks();
  for _ in 0..span {
    emit(&c);
  }
  emit(&c);
  let idle = live_blocks() - b;
  let alive = rt::others_alive();
  let counts = c
    .hot
    .iter()
    .enumerate()
    .filter_map(|(i, h)| match h {
      HotSrc::Subject(s) => {
        another_rxrust::__vrt::subject_count(s).map(|n| (i, n))
      }
      _ => None,
    })
    .filter(|x| x.1 > 0)
    .collect();
  drop(cycle);
  drop(pipe);
  let last = c.live.load(Relaxed);
  let mut o = out.lock().unwrap();
  o.last = last;
  o.idle = idle;
  o.threads = alive;
  o.counts = counts;
  o.finished = true;
}

fn judge(prop: &str, e: &End) -> Option<String> {
  if !e.finished {
    return None;
  }
  let [a, b, c] = e.blocks;
  let span = SPAN as i64;
  match prop {
    "C06" => {
      let grown = |d: i64| d - e.idle >= span;
      if grown(b - a) && grown(c - b) {
        return Some(format!(
          "{} subscriptions that all ended left {} heap blocks behind (the same emissions without a subscriber: {}); before those, {} left {}: the sources hold on to observers of the past",
          span, c - b, e.idle, span, b - a
        ));
      }
      e.counts.first().map(|(h, n)| {
        format!(
          "every subscription has ended, yet hot subject {} holds {} observers",
          h, n
        )
      })
    }
    "C15" => e.threads.first().map(|_| {
      format!(
        "{} subscriptions, one after the other, have ended and 150 ms passed, yet worker threads are alive: {:?}",
        e.cycles, e.threads
      )
    }),
    "C17" => {
      let [a, b, c] = e.toks;
      if b > a && c > b {
        Some(format!(
          "closures the library still owns: {} after the warm-up, {} after {} more ended subscriptions, {} after {} more",
          a, b, span, c, span
        ))
      } else if e.last != 0 {
        Some(format!(
          "{} user callbacks / closures still owned after every subscription ended and every handle but the sources' was dropped",
          e.last
        ))
      } else {
        None
      }
    }
    _ => None,
  }
}
