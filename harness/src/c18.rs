//! C18: the to_vec future against several executors.
use crate::conc::*;
use crate::lab::*;
use crate::val::*;
use another_rxrust::prelude::*;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};
use vrt::rng::Rng;
use vrt::stdx::sync as vs;

#[derive(Clone, Debug)]
enum Src {
  Cold(Play),
  Threaded(Play),
  Hot(Play),
  Behavior(Play),
  Replay(Play),
  Async(Play),
  IntervalTake(u64, usize),
  Timer(u64),
  Just(usize),
  Empty,
  Error,
  Never,
  /// two threads feeding one merge
  Merge(Play, Play),
  FlatErr(Play),
  ZipTwo(Play, Play),
}
#[derive(Clone, Debug)]
enum Op {
  Map,
  Take(usize),
  Observe,
  Subscribe,
  Delay(u64),
  Retry,
  Resume,
  Share,
  Timeout(u64),
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Exe {
  /// parks until woken; the same waker every time
  Park,
  /// a new waker for every poll, earlier ones do nothing
  Fresh,
  /// also polls now and then without having been woken
  Spurious(u64),
  /// the waker polls inside wake()
  Inline,
  /// first polled on one thread, from then on by another
  Move,
  /// not polled before the source is over
  Late(u64),
  /// wakes are queued: the poll happens on a third thread
  Queue,
}

type Fut = ToVecBox;
type ToVecBox = Pin<
  Box<
    dyn Future<Output = Result<Arc<vs::RwLock<Vec<i64>>>, RxError>>
      + Send,
  >,
>;

/// one future being driven
struct Task {
  fut: vs::Mutex<Option<Fut>>,
  /// generation of the waker handed to the latest poll
  gen: AtomicU64,
  woken: vs::Mutex<bool>,
  cv: vs::Condvar,
  done: AtomicBool,
  polls: AtomicU64,
  wakes: AtomicU64,
  /// when it became ready, with what, and the buffer
  out: Mutex<Option<(u64, Result<Vec<i64>, i64>)>>,
  buf: Mutex<Option<Arc<vs::RwLock<Vec<i64>>>>>,
  keep: Arc<Ob<i64>>,
}
struct W {
  t: Arc<Task>,
  gen: u64,
  inline: bool,
  m: M,
  l: Log,
}
impl Wake for W {
  fn wake(self: Arc<Self>) {
    self.t.wakes.fetch_add(1, SeqCst);
    if self.inline {
      poll(&self.t, &self.m, &self.l, true, false);
      return;
    }
    if self.gen != self.t.gen.load(SeqCst) {
      return;
    }
    *self.t.woken.lock().unwrap() = true;
    self.t.cv.notify_all();
  }
}

/// what reached to_vec: (begin, event), and when the terminal callback of
/// to_vec was over
#[derive(Clone, Default)]
struct Log(Arc<Mutex<Vec<(u64, Te)>>>);

/// true once ready
fn poll(t: &Arc<Task>, m: &M, l: &Log, inline: bool, fresh: bool) -> bool {
  let mut f = t.fut.lock().unwrap();
  let fu = match f.as_mut() {
    Some(x) => x,
    None => return true,
  };
  let gen = if fresh || t.gen.load(SeqCst) == 0 {
    t.gen.fetch_add(1, SeqCst) + 1
  } else {
    t.gen.load(SeqCst)
  };
  let w: Waker = Arc::new(W {
    t: t.clone(),
    gen,
    inline,
    m: m.clone(),
    l: l.clone(),
  })
  .into();
  t.polls.fetch_add(1, SeqCst);
  match fu.as_mut().poll(&mut Context::from_waker(&w)) {
    Poll::Pending => false,
    Poll::Ready(r) => {
      let at = m.tick();
      let v = match r {
        Ok(b) => {
          let v = b.read().unwrap().clone();
          *t.buf.lock().unwrap() = Some(b);
          Ok(v)
        }
        Err(e) => Err(code_of(&e)),
      };
      *t.out.lock().unwrap() = Some((at, v));
      *f = None;
      t.done.store(true, SeqCst);
      drop(f);
      *t.woken.lock().unwrap() = true;
      t.cv.notify_all();
      true
    }
  }
}

/// polls, then again after every wake
fn drive(t: Arc<Task>, m: M, l: Log, fresh: bool) {
  loop {
    *t.woken.lock().unwrap() = false;
    if poll(&t, &m, &l, false, fresh) {
      return;
    }
    let mut g = t.woken.lock().unwrap();
    while !*g {
      g = t.cv.wait(g).unwrap();
    }
  }
}

fn build(m: &M, pr: &Probe, s: &Src, hot: &Hots) -> Ob<i64> {
  let nt = schedulers::new_thread_scheduler;
  match s {
    Src::Cold(p) => cold(m, pr, 0, p.clone()),
    Src::Threaded(p) => threaded(m, pr, 0, p.clone()),
    Src::Hot(_) => hot.s.observable(),
    Src::Behavior(_) => hot.b.observable(),
    Src::Replay(_) => hot.r.observable(),
    Src::Async(_) => hot.a.observable(),
    Src::IntervalTake(d, n) => {
      observables::interval(ms(*d), nt()).map(|x| x as i64).take(*n)
    }
    Src::Timer(d) => observables::timer(ms(*d), nt()).map(|_| -3),
    Src::Just(n) => observables::from_iter((0..*n as i64).collect::<Vec<_>>().into_iter()),
    Src::Empty => observables::empty(),
    Src::Error => observables::error(mk_err(ERR, None)),
    Src::Never => observables::never(),
    Src::Merge(p, q) => {
      threaded(m, pr, 0, p.clone()).merge(&[threaded(m, pr, 1, q.clone())])
    }
    Src::ZipTwo(p, q) => threaded(m, pr, 0, p.clone())
      .zip(&[threaded(m, pr, 1, q.clone())])
      .map(|v| v[0]),
    Src::FlatErr(p) => threaded(m, pr, 0, p.clone()).flat_map(|x| {
      if x % 10 == 2 {
        observables::error(mk_err(ERR + 1, None))
      } else {
        observables::just(x)
      }
    }),
  }
}
fn apply(o: Ob<i64>, op: &Op) -> Ob<i64> {
  let nt = schedulers::new_thread_scheduler;
  match op {
    Op::Map => o.map(|x| x),
    Op::Take(n) => o.take(*n),
    Op::Observe => o.observe_on(nt()),
    Op::Subscribe => o.subscribe_on(nt()),
    Op::Delay(d) => o.delay(ms(*d)),
    Op::Retry => o.retry(2),
    Op::Resume => o.on_error_resume_next(|_| observables::just(-9)),
    Op::Share => o.ref_count().observable(),
    Op::Timeout(d) => o.timeout(ms(*d), nt()),
  }
}

struct Hots {
  s: subjects::Subject<'static, i64>,
  b: subjects::BehaviorSubject<'static, i64>,
  r: subjects::ReplaySubject<'static, i64>,
  a: subjects::AsyncSubject<'static, i64>,
}

fn a_play(r: &mut Rng, p: usize, big: bool) -> Play {
  let n = if big { 10 + r.below(60) } else { r.below(5) };
  let e = match r.below(6) {
    0 => End::Open,
    1 | 2 => End::E,
    _ => End::C,
  };
  Play::gen(r, p, n, 200, e)
}

macro_rules! play_to {
  ($m:expr, $p:expr, $s:expr) => {{
    for (d, x) in &$p.items {
      if *d > 0 {
        nap(*d);
      }
      $m.put(0, Te::N(Tv::I(*x)), || $s.next(*x));
    }
    match $p.end {
      End::C => $m.put(0, Te::C, || $s.complete()),
      End::E => $m.put(0, Te::E(ERR), || $s.error(mk_err(ERR, None))),
      End::Open => {}
    }
  }};
}

pub fn scenario(r: &mut Rng) -> Scen {
  let big = large(r);
  let s = match r.below(24) {
    0 => Src::Cold(a_play(r, 0, big)),
    1..=5 => Src::Threaded(a_play(r, 0, big)),
    6..=9 => Src::Hot(a_play(r, 0, big)),
    10 => Src::Behavior(a_play(r, 0, big)),
    11 => Src::Replay(a_play(r, 0, big)),
    12 => Src::Async(a_play(r, 0, big)),
    13 => Src::IntervalTake(1 + r.below(3) as u64, 1 + r.below(4)),
    14 => Src::Timer(1 + r.below(4) as u64),
    15 => Src::Just(r.below(5)),
    16 => Src::Empty,
    17 => Src::Error,
    18 => Src::Never,
    19 | 20 => Src::Merge(a_play(r, 0, big), a_play(r, 1, big)),
    21 => Src::ZipTwo(a_play(r, 0, big), a_play(r, 1, big)),
    _ => Src::FlatErr(a_play(r, 0, big)),
  };
  let ops: Vec<Op> = (0..r.below(3))
    .map(|_| match r.below(12) {
      0 => Op::Map,
      1 | 2 => Op::Take(1 + r.below(if big { 50 } else { 4 })),
      3 | 4 => Op::Observe,
      5 | 6 => Op::Subscribe,
      7 => Op::Delay(1 + r.below(3) as u64),
      8 => Op::Retry,
      9 => Op::Resume,
      10 => Op::Share,
      _ => Op::Timeout(1 + r.below(4) as u64),
    })
    .collect();
  let one = |r: &mut Rng| match r.below(14) {
    0..=3 => Exe::Park,
    4 | 5 => Exe::Fresh,
    6 | 7 => Exe::Spurious(r.below(4) as u64),
    8 | 9 => Exe::Inline,
    10 | 11 => Exe::Move,
    12 => Exe::Late(r.below(30) as u64),
    _ => Exe::Queue,
  };
  let mut exes = vec![one(r)];
  if r.chance(150) {
    exes.push(one(r));
  }
  let desc = format!("{:?} -> {:?} -> to_vec, {:?}", s, ops, exes);
  let word = |x: String| {
    x.split(|c: char| !c.is_alphanumeric()).next().unwrap().to_string()
  };
  let mut kinds = vec![word(format!("{:?}", s))];
  kinds.extend(ops.iter().map(|o| word(format!("{:?}", o))));
  kinds.extend(exes.iter().map(|o| word(format!("{:?}", o))));
  // a shared source that is left and joined at once is subscribed anew while
  // its last emission is still being handed out
  let shared = exes.len() > 1 && ops.iter().any(|o| matches!(o, Op::Share));
  let timer = ops.iter().any(|o| matches!(o, Op::Timeout(_)));
  let par = if shared || timer {
    Par::Loose
  } else if !matches!(s, Src::Merge(..) | Src::ZipTwo(..))
    || ops.iter().any(|o| matches!(o, Op::Observe))
  {
    Par::Exact
  } else if ops.iter().any(|o| {
    matches!(o, Op::Take(_) | Op::Timeout(_) | Op::Resume | Op::Retry)
  }) {
    Par::Loose
  } else if matches!(s, Src::ZipTwo(..)) {
    Par::Bag
  } else {
    Par::Each
  };
  let mut sc = Scen::new(
    desc,
    vec![],
    Box::new(move |cfg| {
      let m = Mon::new();
      let out: Arc<Mutex<(Vec<(Log, Arc<Task>)>, Option<String>)>> =
        Arc::default();
      let (m2, s2, ops2, exes2) = (m.clone(), s.clone(), ops.clone(), exes.clone());
      let (rep, out) = run(cfg, out, move |out| {
        let hot = Hots {
          s: subjects::Subject::new(),
          b: subjects::BehaviorSubject::new(-4),
          r: subjects::ReplaySubject::new(),
          a: subjects::AsyncSubject::new(),
        };
        let pr = Probe::default();
        let mut base = build(&m2, &pr, &s2, &hot);
        for o in &ops2 {
          base = apply(base, o);
        }
        let mut hs = Vec::new();
        let mut tasks = Vec::new();
        for (k, x) in exes2.iter().enumerate() {
          let l = Log::default();
          let (l1, l2, l3) = (l.clone(), l.clone(), l.clone());
          let (ma, mb, mc) = (m2.clone(), m2.clone(), m2.clone());
          let o = base.tap(
            move |x| {
              let te = Te::N(Tv::I(x));
              let t = ma.tick();
              l1.0.lock().unwrap().push((t, te.clone()));
              ma.call(k, te, || {});
            },
            move |e| {
              let te = Te::E(code_of(&e));
              let t = mb.tick();
              l2.0.lock().unwrap().push((t, te.clone()));
              mb.call(k, te, || {});
            },
            move || {
              let t = mc.tick();
              l3.0.lock().unwrap().push((t, Te::C));
              mc.call(k, Te::C, || {});
            },
          );
          let o = Arc::new(o);
          // the future borrows the observable, which the task keeps
          let p: &'static Ob<i64> = unsafe { &*Arc::as_ptr(&o) };
          let fut: Fut = Box::pin(p.to_vec());
          let t = Arc::new(Task {
            fut: vs::Mutex::new(Some(fut)),
            gen: AtomicU64::new(0),
            woken: vs::Mutex::new(false),
            cv: vs::Condvar::new(),
            done: AtomicBool::new(false),
            polls: AtomicU64::new(0),
            wakes: AtomicU64::new(0),
            out: Mutex::new(None),
            buf: Mutex::new(None),
            keep: o,
          });
          out.lock().unwrap().0.push((l.clone(), t.clone()));
          tasks.push((*x, l, t));
        }
        if let Src::Hot(p) | Src::Behavior(p) | Src::Replay(p) | Src::Async(p) = &s2 {
          let (m, p, s3) = (m2.clone(), p.clone(), s2.clone());
          hs.push(go(move || match s3 {
            Src::Hot(_) => play_to!(m, p, hot.s),
            Src::Behavior(_) => play_to!(m, p, hot.b),
            Src::Replay(_) => play_to!(m, p, hot.r),
            _ => play_to!(m, p, hot.a),
          }));
        }
        for (x, l, t) in tasks.clone() {
          let m = m2.clone();
          match x {
            Exe::Park => drop(go(move || drive(t, m, l, false))),
            Exe::Fresh => drop(go(move || drive(t, m, l, true))),
            Exe::Late(d) => drop(go(move || {
              nap(d);
              drive(t, m, l, false)
            })),
            Exe::Spurious(d) => {
              let (t2, m3, l2) = (t.clone(), m.clone(), l.clone());
              hs.push(go(move || {
                for _ in 0..3 {
                  if d > 0 {
                    nap(d);
                  }
                  // another waker that leads nowhere would be the caller's
                  // mistake: keep the generation
                  poll(&t2, &m3, &l2, false, false);
                }
              }));
              go(move || drive(t, m, l, false));
            }
            Exe::Inline => drop(go(move || {
              poll(&t, &m, &l, true, true);
            })),
            Exe::Move => drop(go(move || {
              poll(&t, &m, &l, false, true);
              go(move || drive(t, m, l, true));
            })),
            Exe::Queue => {
              // wakes of the task reach a run queue served by one thread
              go(move || {
                go(move || drive(t, m, l, true));
              });
            }
          }
        }
        join_all(hs);
        settle(if big { 2000 } else { 400 });
        // a pending future that is polled now must agree with the source
        for (_, l, t) in &tasks {
          let over = l.0.lock().unwrap().iter().any(|x| x.1.terminal());
          let d = t.done.load(SeqCst);
          if over && !d {
            let r = poll(t, &m2, l, false, false);
            out.lock().unwrap().1 = Some(format!(
              "the source terminated but the future was not resolved ({} polls, {} wakes); polled once more it is {}",
              t.polls.load(SeqCst),
              t.wakes.load(SeqCst),
              if r { "ready: the wake-up was lost" } else { "still pending" }
            ));
          }
        }
      });
      finish(rep, &m, || {
        let o = out.lock().unwrap();
        if let Some(e) = &o.1 {
          return Some(e.clone());
        }
        o.0.iter().find_map(|(l, t)| judge(&l.0.lock().unwrap(), t, par))
      })
    }),
  );
  sc.kinds = kinds;
  sc.budget = Budget {
    bases: 2,
    sweep: 30,
    two: 20,
    random: 20,
    lazy: true,
    spurious: true,
  };
  if big {
    sc.large();
  }
  sc
}

/// how far what reaches to_vec can be ordered by the tap in front of it
#[derive(Clone, Copy, Debug, PartialEq)]
enum Par {
  /// one event at a time
  Exact,
  /// several threads at once: each producer's items in order
  Each,
  /// zip: in any order
  Bag,
  /// and the terminal may overtake a delivery in progress (take)
  Loose,
}
fn same(v: &[i64], items: &[i64], par: Par) -> bool {
  if par == Par::Exact {
    return v == items;
  }
  let (a, b) = (by_producer(v, 2), by_producer(items, 2));
  let sorted = |v: &[i64]| {
    let mut v = v.to_vec();
    v.sort();
    v
  };
  match par {
    Par::Bag => sorted(v) == sorted(items),
    Par::Each => a == b && v.len() == items.len(),
    _ => is_subseq(&sorted(v), &sorted(items)),
  }
}

fn judge(l: &[(u64, Te)], t: &Task, par: Par) -> Option<String> {
  let end = l.iter().find(|x| x.1.terminal());
  let items: Vec<i64> = l
    .iter()
    .filter_map(|x| match &x.1 {
      Te::N(v) => Some(v.key()),
      _ => None,
    })
    .collect();
  let out = t.out.lock().unwrap();
  match (end, &*out) {
    (None, None) => None,
    (Some(_), None) => Some("the future was not resolved".into()),
    (None, Some((_, v))) => {
      Some(format!("ready with {:?} although the source did not end", v))
    }
    (Some((te, e)), Some((at, v))) => {
      if at < te {
        return Some(format!(
          "ready at {} before the source's terminal was emitted at {}",
          at, te
        ));
      }
      let ok = match (e, v) {
        (Te::C, Ok(v)) => same(v, &items, par),
        (Te::E(c), Err(d)) => c == d,
        _ => false,
      };
      if !ok {
        return Some(format!(
          "ready with {:?}; the source emitted {:?} then {:?}",
          v, items, e
        ));
      }
      if let Some(b) = &*t.buf.lock().unwrap() {
        let now = b.read().unwrap().clone();
        if Ok(now.clone()) != *v && par != Par::Loose {
          return Some(format!(
            "the resolved vector changed afterwards: {:?} became {:?}",
            v, now
          ));
        }
      }
      None
    }
  }
}
