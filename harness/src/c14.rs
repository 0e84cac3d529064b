//! C14: subscriptions of one observable whose pipeline has threads and clocks
//! in it.  Oracle: what the only subscriber of a fresh pipeline saw, item by
//! item and at the same distance from its subscribe().
use crate::conc::*;
use crate::lab::*;
use crate::val::*;
use another_rxrust::prelude::*;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use vrt::rng::Rng;
use vrt::rt::{self, Cfg};

const HALF: u64 = 500_000;

#[derive(Clone, Debug)]
enum Src {
  Interval(u64, usize),
  Timer(u64),
  Cold(Play),
  Threaded(Play),
  List(usize),
  Range(usize),
  /// `defer` over a play on a thread
  Defer(Play),
  Never,
}
#[derive(Clone, Debug, PartialEq)]
enum Op {
  Map,
  Filter,
  Take(usize),
  Skip(usize),
  TakeLast(usize),
  SkipLast(usize),
  TakeWhile(usize),
  SkipWhile(usize),
  ElementAt(usize),
  First,
  Last,
  Scan,
  Reduce,
  Distinct,
  Buffer(usize),
  Window(usize),
  Group,
  Start,
  Default,
  Count,
  Sum,
  Min,
  Max,
  SumCount,
  Contains,
  Mat,
  Retry(usize),
  RetryWhen(usize),
  Resume(u64),
  ConcatTimer(u64),
  ConcatSelf,
  ZipList,
  Observe,
  ObserveHere,
  Subscribe,
  Delay(u64),
  Stamp,
  Any,
  // events at odd times: one of these at most
  Timeout(u64),
  Until(u64),
  SkipUntil(u64),
  Amb(u64),
  Comb(u64),
  Sample(u64),
  MergeTimer(u64),
  Switch(u64),
  Debounce(u64),
  // judged as a bag
  FlatTimer(u64),
  FlatList,
  MergeSelf,
}
impl Op {
  fn odd(&self) -> bool {
    use Op::*;
    matches!(
      self,
      Timeout(_) | Until(_) | SkipUntil(_) | Amb(_) | Comb(_) | Sample(_)
        | MergeTimer(_) | Switch(_) | Debounce(_) | FlatTimer(_)
    )
  }
  fn bag(&self) -> bool {
    matches!(self, Op::FlatTimer(_) | Op::MergeSelf)
  }
  fn name(&self) -> String {
    let s = format!("{:?}", self);
    s.split('(').next().unwrap().to_string()
  }
}

fn nt() -> impl Fn() -> schedulers::NewThreadScheduler<'static>
     + Send
     + Sync
     + Clone
     + 'static {
  schedulers::new_thread_scheduler()
}
fn after(d: u64) -> Ob<i64> {
  observables::timer(ms(d), nt()).map(|_| -3)
}

fn source(m: &M, pr: &Probe, s: &Src) -> Ob<i64> {
  match s {
    Src::Interval(d, n) => {
      observables::interval(ms(*d), nt()).map(|x| x as i64).take(*n)
    }
    Src::Timer(d) => after(*d),
    Src::Cold(p) => cold(m, pr, 0, p.clone()),
    Src::Threaded(p) => threaded(m, pr, 0, p.clone()),
    Src::List(n) => {
      observables::from_iter((0..*n as i64).collect::<Vec<_>>().into_iter())
    }
    Src::Range(n) => observables::range(3, *n as i64),
    Src::Defer(p) => {
      let (m, pr, p) = (m.clone(), pr.clone(), p.clone());
      observables::defer(move || threaded(&m, &pr, 0, p.clone()))
    }
    Src::Never => observables::never(),
  }
}
fn apply(o: Ob<i64>, op: &Op) -> Ob<i64> {
  match op {
    Op::Map => o.map(|x| x + 1),
    Op::Filter => o.filter(|x| x % 3 != 0),
    Op::Take(n) => o.take(*n),
    Op::Skip(n) => o.skip(*n),
    Op::TakeLast(n) => o.take_last(*n),
    Op::SkipLast(n) => o.skip_last(*n),
    Op::TakeWhile(n) => {
      let n = *n as i64;
      o.take_while(move |x| x % 1000 < n)
    }
    Op::SkipWhile(n) => {
      let n = *n as i64;
      o.skip_while(move |x| x % 1000 < n)
    }
    Op::ElementAt(n) => o.element_at(*n),
    Op::First => o.first(),
    Op::Last => o.last(),
    Op::Scan => o.scan(|(a, b)| a + 2 * b),
    Op::Reduce => o.reduce(|(a, b)| a + 2 * b),
    Op::Distinct => o.map(|x| x / 2).distinct_until_changed(),
    Op::Buffer(n) => {
      o.buffer_with_count(*n).map(|v| v.iter().fold(0, |a, x| a * 7 + x))
    }
    Op::Window(n) => o.window_with_count(*n).flat_map(|w| w.count().map(|n| n as i64)),
    Op::Group => o.group_by(|x| x % 2).flat_map(|g| g.scan(|(a, b)| a + b)),
    Op::Start => o.start_with(vec![-1, -2].into_iter()),
    Op::Default => o.default_if_empty(-9),
    Op::Count => o.count().map(|n| n as i64),
    Op::Sum => o.sum(),
    Op::Min => o.min(),
    Op::Max => o.max(),
    Op::SumCount => o.sum_and_count().map(|(a, n)| a * 100 + n as i64),
    Op::Contains => o.contains(3).map(|b| b as i64),
    Op::Mat => o.materialize().dematerialize(),
    Op::Retry(n) => o.retry(*n),
    Op::RetryWhen(n) => {
      // (the predicate is a user closure: stateless)
      let n = *n;
      o.retry_when(move |_| n == 0)
    }
    Op::Resume(d) => {
      let d = *d;
      o.on_error_resume_next(move |_| after(d))
    }
    Op::ConcatTimer(d) => o.concat(&[after(*d)]),
    Op::ConcatSelf => o.concat(&[o.clone()]),
    // (the list first: what it holds is there before the other emits)
    Op::ZipList => observables::from_iter(vec![10, 20, 30].into_iter())
      .zip(&[o])
      .map(|v| v[1] * 100 + v[0]),
    Op::Observe => o.observe_on(nt()),
    Op::ObserveHere => o.observe_on(schedulers::default_scheduler()),
    Op::Subscribe => o.subscribe_on(nt()),
    Op::Delay(d) => o.delay(ms(*d)),
    Op::Stamp => o.timestamp().map(|x| x.1),
    Op::Any => o.map_to_any().map(|x| *x.downcast_ref::<i64>().unwrap()),
    Op::Timeout(d) => o.timeout(ms(*d), nt()),
    Op::Until(d) => o.take_until(after(*d)),
    Op::SkipUntil(d) => o.skip_until(after(*d)),
    Op::Amb(d) => o.amb(&[after(*d)]),
    Op::Comb(d) => o.combine_latest(&[after(*d)], |v| v[0] + 10 * v[1]),
    Op::Sample(d) => o.sample(after(*d)),
    Op::MergeTimer(d) => o.merge(&[after(*d)]),
    Op::Switch(d) => o.switch_on_next(after(*d)),
    Op::Debounce(d) => o.debounce(ms(*d), nt()),
    Op::FlatTimer(d) => {
      let d = *d;
      o.flat_map(move |x| after(d).map(move |_| x))
    }
    Op::FlatList => {
      o.flat_map(|x| observables::from_iter(vec![x, x + 500].into_iter()))
    }
    Op::MergeSelf => o.merge(&[o.clone()]),
  }
}

fn even(r: &mut Rng) -> u64 {
  2 * (1 + r.below(4) as u64)
}
fn odd(r: &mut Rng) -> u64 {
  2 * r.below(8) as u64 + 1
}
fn any_op(r: &mut Rng, end: End) -> Op {
  let n = 1 + r.below(3);
  match r.below(54) {
    0 => Op::Map,
    1 => Op::Filter,
    2 | 3 => Op::Take(n),
    4 => Op::Skip(n),
    5 => Op::TakeLast(n),
    6 => Op::SkipLast(n),
    7 => Op::TakeWhile(n),
    8 => Op::SkipWhile(n),
    9 => Op::ElementAt(n),
    10 => Op::First,
    11 => Op::Last,
    12 => Op::Scan,
    13 => Op::Reduce,
    14 => Op::Distinct,
    15 => Op::Buffer(n),
    16 => Op::Window(n),
    17 => Op::Group,
    18 => Op::Start,
    19 => Op::Default,
    20 => Op::Count,
    21 => Op::Sum,
    22 => Op::Min,
    23 => Op::Max,
    24 => Op::SumCount,
    25 => Op::Contains,
    26 => Op::Mat,
    27 => Op::Retry(n),
    28 if end != End::E => Op::RetryWhen(0),
    28 => Op::RetryWhen(1),
    29 => Op::Resume(even(r)),
    30 => Op::ConcatTimer(even(r)),
    31 => Op::ConcatSelf,
    32 => Op::ZipList,
    33..=36 => Op::Observe,
    37 => Op::ObserveHere,
    38 | 39 => Op::Subscribe,
    40 => Op::Delay(even(r)),
    41 => Op::Stamp,
    42 => Op::Any,
    43 | 44 => Op::Timeout(odd(r)),
    45 => Op::Until(odd(r)),
    46 => Op::SkipUntil(odd(r)),
    47 => Op::Amb(odd(r)),
    48 => Op::Comb(odd(r)),
    49 => Op::Sample(odd(r)),
    50 => Op::MergeTimer(odd(r)),
    51 => Op::Switch(odd(r)),
    52 => Op::Debounce(1001),
    _ => Op::FlatList,
  }
}

#[derive(Clone, Debug)]
struct Join {
  /// ms after the start; or inside callback `nth` of the first subscriber
  at: u64,
  nth: usize,
  /// unsubscribed half a ms after this many ms
  stop: Option<u64>,
}

/// (distance from subscribe, event)
type Seen = Vec<(u64, Te)>;
struct Out {
  at: Vec<u64>,
  /// when unsubscribe was called
  cut: Vec<Option<u64>>,
}

fn pipe(m: &M, s: &Src, ops: &[Op], taps: &Arc<AtomicUsize>) -> Ob<i64> {
  let (t0, t1, t2) = (taps.clone(), taps.clone(), taps.clone());
  let mut o = source(m, &Probe::default(), s).tap(
    move |_| {
      t0.fetch_add(1, SeqCst);
    },
    move |_| {
      t1.fetch_add(1, SeqCst);
    },
    move || {
      t2.fetch_add(1, SeqCst);
    },
  );
  for p in ops {
    o = apply(o, p);
  }
  o
}

pub fn scenario(r: &mut Rng) -> Scen {
  let end = match r.below(5) {
    0 => End::E,
    1 => End::Open,
    _ => End::C,
  };
  let play = Play {
    items: (0..r.below(6))
      .map(|k| (if r.chance(500) { 0 } else { even(r) }, uid(0, k)))
      .collect(),
    end,
  };
  let s = match r.below(9) {
    0 | 1 => Src::Interval(even(r), 1 + r.below(5)),
    2 => Src::Timer(even(r)),
    3 => Src::Cold(play),
    4 | 5 => Src::Threaded(play),
    6 => Src::List(r.below(6)),
    7 => match r.below(6) {
      0 => Src::Never,
      _ => Src::Range(r.below(6)),
    },
    _ => Src::Defer(play),
  };
  let end = match &s {
    Src::Cold(_) | Src::Threaded(_) | Src::Defer(_) => end,
    Src::Never => End::Open,
    _ => End::C,
  };
  let mut ops: Vec<Op> = vec![];
  for _ in 0..1 + r.below(4) {
    let p = any_op(r, end);
    if p.odd() && ops.iter().any(|q| q.odd()) {
      continue;
    }
    ops.push(p);
  }
  if r.chance(120) {
    let p = if r.chance(500) { Op::FlatTimer(odd(r)) } else { Op::MergeSelf };
    let clash = ops.iter().any(|q| q.odd());
    let fails = end == End::E
      || ops.iter().any(|q| matches!(q, Op::Timeout(_)));
    if p.odd() && !clash || p == Op::MergeSelf && !clash && !fails {
      ops.push(p);
    }
  }
  if ops.iter().any(|p| matches!(p, Op::Timeout(_))) {
    ops.retain(|p| *p != Op::RetryWhen(0));
  }
  // how far a play on the subscribing thread gets before it notices that
  // nobody listens is a race
  let s = match s {
    Src::Cold(mut p)
      if cuts(&ops)
        && ops.iter().any(|p| matches!(p, Op::Observe | Op::Subscribe)) =>
    {
      p.items.iter_mut().for_each(|x| x.0 = 0);
      Src::Cold(p)
    }
    s => s,
  };
  let bag = ops.iter().any(|p| p.bag());
  let delays = ops.iter().any(|p| matches!(p, Op::Delay(_)));
  let spawned = matches!(
    s,
    Src::Interval(..) | Src::Timer(_) | Src::Threaded(_) | Src::Defer(_)
  );
  let n = 2 + r.below(3);
  let joins: Vec<Join> = (0..n)
    .map(|k| Join {
      at: match r.below(4) {
        0 | 1 => 0,
        2 => r.below(12) as u64,
        _ => 4000,
      },
      nth: if k > 0 && spawned && !delays && r.chance(250) {
        1 + r.below(3)
      } else {
        0
      },
      stop: if r.chance(250) { Some(r.below(20) as u64) } else { None },
    })
    .collect();
  let desc = format!("{:?} | {:?} | {:?}", s, ops, joins);
  let mut kinds: Vec<String> = ops.iter().map(|o| o.name()).collect();
  kinds.sort();
  kinds.dedup();
  let mut solo: Option<(Seen, usize)> = None;
  let mut sc = Scen::new(
    desc,
    vec![],
    Box::new(move |cfg| {
      if solo.is_none() {
        let (rep, m, out, taps) =
          exec(Cfg { max_steps: cfg.max_steps, patience: cfg.patience, ..Cfg::seq() }, &s, &ops, &[Join { at: 0, nth: 0, stop: None }]);
        if stuck(&rep).is_some() {
          return finish(rep, &m, || None);
        }
        solo = Some((seen(&m, &out, 0), taps));
      }
      let (want, ntaps) = solo.clone().unwrap();
      let (rep, m, out, taps) = exec(cfg, &s, &ops, &joins);
      finish(rep, &m, || {
        for k in 0..joins.len() {
          if out.at[k] == 0 {
            continue;
          }
          let mut w = want.clone();
          let mut g = seen(&m, &out, k);
          if let Some(c) = out.cut[k] {
            w.retain(|x| x.0 < c - out.at[k]);
          }
          if bag {
            let key = |v: &mut Seen| {
              v.sort_by_key(|(t, e)| {
                (*t, e.terminal(), match e { Te::N(t) => t.key(), _ => 0 })
              })
            };
            key(&mut w);
            key(&mut g);
          }
          if g != w {
            return Some(format!(
              "subscriber {} received [{}], the only subscriber of a fresh pipeline [{}] (times in ms from subscribe)",
              k, show(&g), show(&w)
            ));
          }
        }
        let all = joins.iter().enumerate().all(|(k, j)| j.stop.is_none() && out.at[k] > 0);
        if all && want.iter().any(|x| x.1.terminal()) && !cuts(&ops) && taps != ntaps * joins.len() {
          return Some(format!(
            "tap saw {} events for {} subscribers, {} for one",
            taps, joins.len(), ntaps
          ));
        }
        None
      })
    }),
  );
  sc.kinds = kinds;
  sc.patience = 10_000;
  sc.budget =
    Budget { bases: 1, sweep: 12, two: 6, random: 6, lazy: false, spurious: true };
  sc
}

/// operators that may end before their input does
fn cuts(ops: &[Op]) -> bool {
  ops.iter().any(|o| {
    use Op::*;
    matches!(
      o,
      Take(_) | TakeWhile(_) | ElementAt(_) | First | Contains | ZipList
        | Until(_) | Amb(_) | Timeout(_) | Switch(_) | Comb(_) | Retry(_)
        | MergeTimer(_) | MergeSelf
    )
  })
}

fn seen(m: &M, out: &Out, k: usize) -> Seen {
  m.of(k).iter().map(|c| (c.vt - out.at[k], c.te.clone())).collect()
}
fn show(v: &Seen) -> String {
  v.iter()
    .take(20)
    .map(|(t, e)| {
      let e = match e {
        Te::N(t) => format!("{}", t.key()),
        Te::E(c) => format!("error({})", c),
        Te::C => "complete".into(),
      };
      format!("{}@{}", e, *t as f64 / 1e6)
    })
    .collect::<Vec<_>>()
    .join(" ")
}

fn exec(
  cfg: Cfg,
  s: &Src,
  ops: &[Op],
  joins: &[Join],
) -> (rt::Report, M, Out, usize) {
  let m = Mon::new();
  let n = joins.len();
  let st = Arc::new(Mutex::new(Out { at: vec![0; n], cut: vec![None; n] }));
  let taps = Arc::new(AtomicUsize::new(0));
  let (s, ops, joins, m2, t2) =
    (s.clone(), ops.to_vec(), joins.to_vec(), m.clone(), taps.clone());
  let (rep, st) = run(cfg, st, move |st| {
    // (nobody subscribes at 0, the mark of those that never did)
    nap(1);
    let o = pipe(&m2, &s, &ops, &t2);
    let subs: Arc<Mutex<Vec<Option<Sub>>>> =
      Arc::new(Mutex::new(vec![None; joins.len()]));
    fn join(
      k: usize,
      o: &Ob<i64>,
      m: &M,
      st: &Arc<Mutex<Out>>,
      subs: &Arc<Mutex<Vec<Option<Sub>>>>,
      joins: &Arc<Vec<Join>>,
    ) {
      let at = rt::now();
      st.lock().unwrap().at[k] = at;
      let s = if k == 0 {
        let (o2, m2, st, sb, js) =
          (o.clone(), m.clone(), st.clone(), subs.clone(), joins.clone());
        watch(m, o, k, itv, move |nth, _| {
          for (i, j) in js.iter().enumerate() {
            if j.nth == nth {
              join(i, &o2, &m2, &st, &sb, &js);
            }
          }
        })
      } else {
        watch(m, o, k, itv, idle)
      };
      if let Some(d) = joins[k].stop {
        let (s, st) = (s.clone(), st.clone());
        go(move || {
          let now = rt::now();
          let t = (now - now % (2 * HALF) + HALF).max(at + d * 2 * HALF + HALF);
          vrt::stdx::thread::sleep(std::time::Duration::from_nanos(t - now));
          st.lock().unwrap().cut[k] = Some(rt::now());
          s.unsubscribe();
        });
      }
      subs.lock().unwrap()[k] = Some(s);
    }
    let joins = Arc::new(joins);
    let mut hs = vec![];
    for k in 0..joins.len() {
      if joins[k].nth > 0 {
        continue;
      }
      let (o, m, st, sb, js) =
        (o.clone(), m2.clone(), st.clone(), subs.clone(), joins.clone());
      hs.push(go(move || {
        nap(js[k].at);
        join(k, &o, &m, &st, &sb, &js);
      }));
    }
    drop(o);
    join_all(hs);
    settle(3000);
    let v = std::mem::take(&mut *subs.lock().unwrap());
    for s in v.into_iter().flatten() {
      s.unsubscribe();
    }
    settle(1500);
  });
  let o = st.lock().unwrap();
  let out = Out { at: o.at.clone(), cut: o.cut.clone() };
  drop(o);
  (rep, m, out, taps.load(SeqCst))
}
