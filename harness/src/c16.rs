//! C16: what happens when, on the virtual clock.  C15: whose threads are left.
use crate::conc::*;
use crate::lab::*;
use crate::val::*;
use another_rxrust::prelude::*;
use std::sync::{Arc, Mutex};
use vrt::rng::Rng;
use vrt::rt;

const MS: u64 = 1_000_000;

#[derive(Clone, Debug)]
enum Src {
  Interval(u64),
  /// on the default scheduler: emits inside subscribe
  IntervalHere(u64),
  Timer(u64),
  Cold(Play),
  Threaded(Play),
  Hot(Play),
  Endless(bool),
  Never,
  Repeat,
}
#[derive(Clone, Debug)]
enum Op {
  Map,
  Take(usize),
  Delay(u64),
  Timeout(u64),
  Debounce(u64),
  /// trigger: interval, or the second hot source
  Sample(Option<u64>),
  Observe,
  Subscribe,
  // C15 only
  FlatInterval(u64),
  FlatTimer(u64),
  MergeInterval(u64),
  ZipInterval(u64),
  AmbTimer(u64),
  UntilTimer(u64),
  SkipUntilTimer(u64),
  ConcatTimer(u64),
  Retry,
  Share,
}
impl Op {
  fn period(&self) -> u64 {
    match self {
      Op::Delay(d)
      | Op::Timeout(d)
      | Op::Debounce(d)
      | Op::FlatInterval(d)
      | Op::FlatTimer(d)
      | Op::MergeInterval(d)
      | Op::ZipInterval(d)
      | Op::AmbTimer(d)
      | Op::UntilTimer(d)
      | Op::SkipUntilTimer(d)
      | Op::ConcatTimer(d) => *d,
      Op::Sample(d) => d.unwrap_or(0),
      _ => 0,
    }
  }
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Stop {
  Never,
  At(u64),
  In(usize),
}

fn nt() -> impl Fn() -> schedulers::NewThreadScheduler<'static>
     + Send
     + Sync
     + Clone
     + 'static {
  schedulers::new_thread_scheduler()
}
fn every(d: u64) -> Ob<i64> {
  observables::interval(ms(d), nt()).map(|x| x as i64)
}
fn after(d: u64) -> Ob<i64> {
  observables::timer(ms(d), nt()).map(|_| -3)
}

struct Hots {
  a: subjects::Subject<'static, i64>,
  b: subjects::Subject<'static, i64>,
}

fn src(m: &M, pr: &Probe, s: &Src, h: &Hots) -> Ob<i64> {
  match s {
    Src::Interval(d) => every(*d),
    Src::IntervalHere(d) => {
      observables::interval(ms(*d), schedulers::default_scheduler())
        .map(|x| x as i64)
    }
    Src::Timer(d) => after(*d),
    Src::Cold(p) => cold(m, pr, 0, p.clone()),
    Src::Threaded(p) => threaded(m, pr, 0, p.clone()),
    Src::Hot(_) => h.a.observable(),
    Src::Endless(t) => endless(m, pr, 0, *t),
    Src::Never => observables::never(),
    Src::Repeat => observables::repeat(5).tap(|_| nap(1), |_| {}, || {}),
  }
}
fn apply(o: Ob<i64>, op: &Op, h: &Hots) -> Ob<i64> {
  match op {
    Op::Map => o.map(|x| x),
    Op::Take(n) => o.take(*n),
    Op::Delay(d) => o.delay(ms(*d)),
    Op::Timeout(d) => o.timeout(ms(*d), nt()),
    Op::Debounce(d) => o.debounce(ms(*d), nt()),
    Op::Sample(Some(d)) => o.sample(every(*d)),
    Op::Sample(None) => o.sample(h.b.observable()),
    Op::Observe => o.observe_on(nt()),
    Op::Subscribe => o.subscribe_on(nt()),
    Op::FlatInterval(d) => {
      let d = *d;
      o.take(2).flat_map(move |_| every(d))
    }
    Op::FlatTimer(d) => {
      let d = *d;
      o.flat_map(move |_| after(d))
    }
    Op::MergeInterval(d) => o.merge(&[every(*d)]),
    Op::ZipInterval(d) => o.zip(&[every(*d)]).map(|v| v[0]),
    Op::AmbTimer(d) => o.amb(&[after(*d)]),
    Op::UntilTimer(d) => o.take_until(after(*d)),
    Op::SkipUntilTimer(d) => o.skip_until(after(*d)),
    Op::ConcatTimer(d) => o.concat(&[after(*d)]),
    Op::Retry => o.retry(2),
    Op::Share => o.ref_count().observable(),
  }
}

/// gaps are even numbers of ms, timeouts odd ones: no ties
fn even(r: &mut Rng) -> u64 {
  2 * (1 + r.below(5) as u64)
}
fn odd(r: &mut Rng) -> u64 {
  2 * r.below(6) as u64 + 1
}
fn timed_play(r: &mut Rng, p: usize, big: bool) -> Play {
  let n = if big { 10 + r.below(40) } else { r.below(6) };
  let end = match r.below(4) {
    0 => End::Open,
    1 => End::E,
    _ => End::C,
  };
  Play {
    items: (0..n)
      .map(|k| (if r.chance(150) { 0 } else { even(r) }, uid(p, k)))
      .collect(),
    end,
  }
}

/// emits into a subject; the terminal comes after one more gap
fn drive_hot(m: &M, p: &Play, s: &subjects::Subject<'static, i64>, last: u64) {
  play_subject(m, 0, &Play { items: p.items.clone(), end: End::Open }, s);
  if p.end != End::Open && last > 0 {
    nap(last);
  }
  play_subject(m, 0, &Play { items: vec![], end: p.end }, s);
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum What {
  Interval,
  Timer,
  Delay,
  Timeout,
  Gate,
}

/// two threads hand items to one timeout, often at the same instant
fn pairs(r: &mut Rng) -> Scen {
  let gap = 2 * (1 + r.below(4)) as u64;
  let d = gap + 1 + 2 * r.below(3) as u64;
  let rounds = 1 + d as usize / gap as usize + r.below(4);
  let merged = r.chance(300);
  let quiet = r.chance(500);
  let queued = r.chance(200);
  let skew: Vec<u64> =
    (0..rounds).map(|_| if r.chance(300) { 1 } else { 0 }).collect();
  // (two ms apart from the round before at least)
  let skew = if gap > d - 2 { vec![0; rounds] } else { skew };
  let desc = format!(
    "two threads emit every {} ms for {} rounds (skewed by {:?}) into timeout({}){}{}, then {}",
    gap, rounds, skew, d,
    if merged { " over merge" } else { "" },
    if queued { " over observe_on" } else { "" },
    if quiet { "silence" } else { "completion" }
  );
  let mut sc = Scen::new(
    desc,
    vec!["timeout"],
    Box::new(move |cfg| {
      let m = Mon::new();
      let (m2, skew) = (m.clone(), skew.clone());
      let last = Arc::new(Mutex::new((0u64, 0u64)));
      let (rep, last) = run(cfg, last, move |last| {
        let h = Hots { a: subjects::Subject::new(), b: subjects::Subject::new() };
        let o = if merged {
          h.a.observable().merge(&[h.b.observable()])
        } else {
          h.a.observable()
        };
        let o = if queued { o.observe_on(nt()) } else { o };
        let s = watch(&m2, &o.timeout(ms(d), nt()), 0, itv, idle);
        let mut hs = vec![];
        for p in 0..2 {
          let a = if p == 1 && merged { h.b.clone() } else { h.a.clone() };
          let (skew, m) = (skew.clone(), m2.clone());
          hs.push(go(move || {
            let mut off = 0;
            for k in 0..rounds {
              let o = if p == 1 { skew[k] } else { 0 };
              nap(gap + o - off);
              off = o;
              m.put(p, Te::N(Tv::I(uid(p, k))), || a.next(uid(p, k)));
            }
          }));
        }
        join_all(hs);
        last.lock().unwrap().0 = rt::now();
        if !quiet {
          h.a.complete();
          h.b.complete();
        }
        settle(3 * d);
        last.lock().unwrap().1 = m2.of(0).last().map(|c| c.vt).unwrap_or(0);
        s.unsubscribe();
        settle(50);
      });
      finish(rep, &m, || {
        let v = m.of(0);
        let (t, at) = *last.lock().unwrap();
        let mut g = items(&v);
        let per: Vec<Vec<i64>> = by_producer(&g, 2);
        g.sort();
        let w: Vec<i64> = (0..2)
          .flat_map(|p| (0..rounds).map(move |k| uid(p, k)))
          .collect();
        if g != w {
          return Some(format!("timeout({}): items {:?}, emitted {:?}", d, g, w));
        }
        if per.iter().any(|p| p.windows(2).any(|w| w[0] > w[1])) {
          return Some("timeout: a producer's items out of order".into());
        }
        let end: Vec<Te> = ends(&v).iter().map(|c| c.te.clone()).collect();
        let want = if quiet { Te::E(-1) } else { Te::C };
        if end != vec![want.clone()] {
          return Some(format!("timeout({}): ended with {:?}, expected {:?}", d, end, want));
        }
        if quiet && at != t + d * MS {
          return Some(format!(
            "timeout({}): failed at {} us, last item at {} us",
            d, at / 1000, t / 1000
          ));
        }
        None
      })
    }),
  );
  sc.budget =
    Budget { bases: 1, sweep: 16, two: 16, random: 10, lazy: false, spurious: true };
  sc.patience = 6_000;
  sc
}

pub fn scenario(r: &mut Rng) -> Scen {
  if r.chance(60) {
    return pairs(r);
  }
  let what = *r.pick(&[
    What::Interval,
    What::Timer,
    What::Delay,
    What::Delay,
    What::Timeout,
    What::Timeout,
    What::Timeout,
    What::Gate,
    What::Gate,
  ]);
  let big = large(r);
  let far = if big { 10 } else { 1 };
  let play = timed_play(r, 0, big);
  let any = |r: &mut Rng, play: &Play| match r.below(8) {
    0 => Src::Interval(even(r)),
    1 => Src::Timer(even(r)),
    2 | 3 => Src::Cold(play.clone()),
    4 | 5 => Src::Threaded(play.clone()),
    _ => Src::Hot(play.clone()),
  };
  let s = match what {
    What::Interval => {
      if r.chance(150) {
        Src::IntervalHere(even(r))
      } else {
        Src::Interval(1 + r.below(9) as u64)
      }
    }
    What::Timer => Src::Timer(1 + r.below(9) as u64),
    _ => any(r, &play),
  };
  let pre: Vec<Op> = match r.below(8) {
    0 => vec![Op::Map],
    1 if what == What::Timeout => vec![Op::Delay(even(r))],
    2 if !matches!(s, Src::IntervalHere(_)) => vec![Op::Observe],
    _ => vec![],
  };
  let op = match what {
    What::Interval | What::Timer => Op::Map,
    What::Delay => Op::Delay(even(r)),
    What::Timeout => Op::Timeout(odd(r)),
    What::Gate => match r.below(3) {
      0 => Op::Debounce(1 + r.below(8) as u64),
      1 => Op::Sample(Some(1 + r.below(8) as u64)),
      _ => Op::Sample(None),
    },
  };
  let mut post: Vec<Op> = match r.below(5) {
    0 => vec![Op::Map],
    1 => vec![Op::Observe],
    _ => vec![],
  };
  let endless = matches!(s, Src::Interval(_) | Src::IntervalHere(_));
  let mut stop = match r.below(3) {
    0 => Stop::At(1 + r.below(40 * far) as u64),
    1 if endless => Stop::At(5 + r.below(40 * far) as u64),
    _ => Stop::Never,
  };
  if matches!(s, Src::IntervalHere(_)) || endless && stop == Stop::Never {
    post.insert(0, Op::Take(1 + r.below(4 * far)));
    if matches!(s, Src::IntervalHere(_)) {
      stop = Stop::Never;
    }
  }
  let last = if r.chance(700) { even(r) } else { 0 };
  let trig: Vec<u64> = (0..r.below(5 * far)).map(|_| 1 + r.below(6) as u64).collect();
  // a second thread triggers, often at the same time as the first
  let mut trig2 = vec![];
  if matches!(op, Op::Sample(None)) && r.chance(350) {
    trig2 = trig.clone();
    if r.chance(400) {
      trig2.iter_mut().for_each(|d| *d = 1 + r.below(6) as u64);
    }
  }
  // a consumer that takes its time (even: no ties), on the source's thread
  let mut slow: Vec<u64> = vec![];
  let queued = |v: &[Op]| v.iter().any(|o| matches!(o, Op::Observe));
  if !matches!(what, What::Interval | What::Timer)
    && !matches!(s, Src::IntervalHere(_))
    && r.chance(350)
    && (what == What::Gate || !queued(&post))
  {
    slow = (0..1 + r.below(4))
      .map(|_| if r.chance(400) { 0 } else { 2 * r.below(6) as u64 })
      .collect();
    if what != What::Gate {
      stop = Stop::Never;
      if endless {
        post = vec![Op::Take(1 + r.below(4 * far))];
      }
    }
  }
  let nsub = if matches!(s, Src::Interval(_) | Src::Timer(_)) && r.chance(300) {
    2
  } else {
    1
  };
  let desc = format!(
    "{:?} -> {:?} {:?} {:?}, {:?}, trigger after {:?} and {:?}, last gap {}, {} subscribers, consumer takes {:?}",
    s, pre, op, post, stop, trig, trig2, last, nsub, slow
  );
  let kinds = vec![match (what, &op) {
    (What::Interval, _) => "interval",
    (What::Timer, _) => "timer",
    (What::Delay, _) => "delay",
    (What::Timeout, _) => "timeout",
    (_, Op::Debounce(_)) => "debounce",
    _ => "sample",
  }];
  let mut sc = Scen::new(
    desc,
    kinds,
    Box::new(move |cfg| {
      let m = Mon::new();
      let out: Arc<Mutex<Vec<Run>>> = Arc::default();
      let (m2, s2, pre2, op2, post2, tr) = (
        m.clone(), s.clone(), pre.clone(), op.clone(), post.clone(), trig.clone(),
      );
      let (trb, slow2) = (trig2.clone(), slow.clone());
      let lone = trb.is_empty();
      let (rep, out) = run(cfg, out, move |out| {
        let h = Hots { a: subjects::Subject::new(), b: subjects::Subject::new() };
        let pr = Probe::default();
        let mut o = src(&m2, &pr, &s2, &h);
        for p in &pre2 {
          o = apply(o, p, &h);
        }
        // what the operator under test receives
        let (l1, l2, l3) = (out.clone(), out.clone(), out.clone());
        let log = |l: &Arc<Mutex<Vec<Run>>>, te: Te| {
          let t = rt::now();
          let mut l = l.lock().unwrap();
          if let Some(r) = l.last_mut() {
            r.in_.push((t, te));
          }
        };
        o = o.tap(
          move |x| log(&l1, Te::N(Tv::I(x))),
          move |e| log(&l2, Te::E(code_of(&e))),
          move || log(&l3, Te::C),
        );
        o = apply(o, &op2, &h);
        for p in &post2 {
          o = apply(o, p, &h);
        }
        let mut subs = Vec::new();
        for k in 0..nsub {
          if k > 0 {
            nap(3);
          }
          out.lock().unwrap().push(Run { at: rt::now(), ..Run::default() });
          let sl = slow2.clone();
          let busy = move |n: usize, te: &Te| {
            if !te.terminal() && !sl.is_empty() && sl[(n - 1) % sl.len()] > 0 {
              nap(sl[(n - 1) % sl.len()]);
            }
          };
          subs.push(watch(&m2, &o, k, itv, busy));
        }
        let mut hs = Vec::new();
        if let Src::Hot(p) = &s2 {
          let (m, p, a) = (m2.clone(), p.clone(), h.a.clone());
          hs.push(go(move || drive_hot(&m, &p, &a, last)));
        }
        let b = h.b.clone();
        for tr in [tr.clone(), trb.clone()] {
          let b = b.clone();
          hs.push(go(move || {
            for (i, d) in tr.iter().enumerate() {
              nap(*d);
              b.next(i as i64);
            }
          }));
        }
        if let Stop::At(t) = stop {
          nap(t);
          for (k, s) in subs.iter().enumerate() {
            let b = rt::now();
            s.unsubscribe();
            out.lock().unwrap()[k].unsub = Some(b);
          }
        }
        join_all(hs);
        settle(if big { 3000 } else { 300 });
        for s in &subs {
          s.unsubscribe();
        }
        settle(50);
      });
      finish(rep, &m, || {
        let o = out.lock().unwrap();
        (0..nsub.min(o.len()))
          .find_map(|k| judge(&m, k, &o, what, &s, &op, &post, lone, &slow))
      })
    }),
  );
  sc.budget = Budget {
    bases: 1,
    sweep: 12,
    two: 6,
    random: 6,
    lazy: false,
    spurious: true,
  };
  sc.patience = 6_000;
  if big {
    sc.large();
  }
  sc
}

#[derive(Default, Clone, Debug)]
struct Run {
  at: u64,
  in_: Vec<(u64, Te)>,
  unsub: Option<u64>,
}

fn show(v: &[(u64, Te)]) -> String {
  let s: Vec<String> = v
    .iter()
    .take(20)
    .map(|(t, e)| {
      let e = match e {
        Te::N(t) => format!("{}", t.key()),
        Te::E(c) => format!("error({})", c),
        Te::C => "complete".into(),
      };
      format!("{}@{}", e, *t as f64 / MS as f64)
    })
    .collect();
  s.join(" ")
}

fn judge(
  m: &M,
  k: usize,
  o: &[Run],
  what: What,
  s: &Src,
  op: &Op,
  post: &[Op],
  lone: bool,
  slow: &[u64],
) -> Option<String> {
  let r = &o[k];
  let takes = |i: usize| {
    if slow.is_empty() { 0 } else { slow[i % slow.len()] * MS }
  };
  let got: Vec<(u64, Te)> =
    m.of(k).iter().map(|c| (c.vt, c.te.clone())).collect();
  // two subscribers share the tap's log: only interval and timer, judged
  // from the clock alone
  let mut want: Vec<(u64, Te)> = match what {
    What::Interval => {
      let d = match s {
        Src::Interval(d) | Src::IntervalHere(d) => *d * MS,
        _ => return None,
      };
      (0..400).map(|n| (r.at + (n + 1) * d, Te::N(Tv::I(n as i64)))).collect()
    }
    What::Timer => {
      let d = if let Src::Timer(d) = s { *d * MS } else { return None };
      vec![(r.at + d, Te::N(Tv::I(-3))), (r.at + d, Te::C)]
    }
    _ if o.len() > 1 => return None,
    What::Delay => {
      let d = op.period() * MS;
      // not before the consumer is done with the item before
      let mut free = 0;
      r.in_
        .iter()
        .enumerate()
        .map(|(i, (t, e))| {
          if e.terminal() {
            return (*t, e.clone());
          }
          let at = (t + d).max(free);
          free = at + takes(i);
          (at, e.clone())
        })
        .collect()
    }
    What::Timeout if !slow.is_empty() => {
      // from the item's arrival or from the end of its delivery: both are
      // "after an item"
      let d = op.period() * MS;
      let n = post.iter().find_map(|p| match p {
        Op::Take(n) => Some(*n),
        _ => None,
      });
      let fail = |why: &str| {
        Some(format!(
          "{}: timeout({}) received {} and delivered {} to a consumer that takes {:?} ms",
          why,
          op.period(),
          show(&r.in_),
          show(&got),
          slow
        ))
      };
      let late = |i: usize| {
        let t = r.in_[i].0;
        match got.get(i + 1) {
          Some((g, Te::E(-1))) => {
            (*g == t + d || *g == t + takes(i) + d) && got.len() == i + 2
          }
          _ => false,
        }
      };
      for (i, (t, e)) in r.in_.iter().enumerate() {
        if i > 0 {
          let from = r.in_[i - 1].0;
          if t - from > d {
            if t - from - takes(i - 1) > d {
              return if late(i - 1) { None } else { fail("no timeout") };
            }
            if late(i - 1) {
              return None;
            }
          }
        }
        if got.get(i) != Some(&(*t, e.clone())) {
          return fail("wrong event or time");
        }
        let done = n == Some(i + 1);
        if done && got.get(i + 1).map(|g| g.1 != Te::C).unwrap_or(true) {
          return fail("no completion");
        }
        if done || e.terminal() {
          let l = if done { i + 2 } else { i + 1 };
          return if got.len() == l { None } else { fail("too much") };
        }
      }
      return match r.in_.len() {
        0 if got.is_empty() => None,
        0 => fail("out of nothing"),
        n if late(n - 1) => None,
        _ => fail("no timeout"),
      };
    }
    What::Timeout => {
      let d = op.period() * MS;
      let mut w: Vec<(u64, Te)> = Vec::new();
      let mut last: Option<u64> = None;
      for (t, e) in &r.in_ {
        if let Some(l) = last {
          if t - l > d {
            break;
          }
        }
        w.push((*t, e.clone()));
        last = Some(*t);
        if e.terminal() {
          last = None;
          break;
        }
      }
      if let Some(l) = last {
        w.push((l + d, Te::E(-1)));
      }
      w
    }
    What::Gate => {
      let take = post.iter().find_map(|p| match p {
        Op::Take(n) => Some(*n),
        _ => None,
      });
      return gate(r, &got, op, take, lone);
    }
  };
  for p in post {
    if let Op::Take(n) = p {
      if let Some(i) = want
        .iter()
        .enumerate()
        .filter(|x| !(x.1).1.terminal())
        .map(|x| x.0)
        .nth(n - 1)
      {
        want.truncate(i + 1);
        let t = want[i].0;
        want.push((t, Te::C));
      }
    }
  }
  let stop = r.unsub.unwrap_or(u64::MAX);
  let bad = |why: &str| {
    Some(format!(
      "{}: subscriber {} received {}; expected {} (subscribed at {} ms, received by the operator {}, unsubscribed {:?})",
      why,
      k,
      show(&got),
      show(&want),
      r.at as f64 / MS as f64,
      show(&r.in_),
      r.unsub.map(|t| t as f64 / MS as f64)
    ))
  };
  // until quiescence (300 ms after everything else is over) at most
  for (i, w) in want.iter().enumerate() {
    match got.get(i) {
      Some(g) => {
        // the terminal of a delayed source: after the items, no time given
        let free = what == What::Delay && w.1.terminal();
        if g.1 != w.1 || (g.0 != w.0 && !free) {
          return bad("wrong event or time");
        }
        if free && g.0 < w.0 {
          return bad("early terminal");
        }
      }
      None => {
        let over = w.0 >= stop
          || what == What::Delay && stop != u64::MAX && w.1.terminal();
        if !over {
          return bad("missing event");
        }
        break;
      }
    }
  }
  if got.len() > want.len() {
    return bad("more events than expected");
  }
  if got.iter().any(|g| g.0 > stop) {
    return bad("delivered after unsubscribe");
  }
  None
}

/// debounce and sample: items of the source, in its order, none twice
fn gate(
  r: &Run,
  got: &[(u64, Te)],
  op: &Op,
  take: Option<usize>,
  lone: bool,
) -> Option<String> {
  let mut i = 0;
  let n = got.iter().filter(|x| !x.1.terminal()).count();
  if let Some(k) = take {
    if n > k {
      return Some(format!("take({}) passed {} items", k, n));
    }
  }
  for (t, e) in got {
    if e.terminal() {
      // the source's terminal is passed on
      if *e == Te::C && (take == Some(n) || !lone && take.is_some()) {
        continue;
      }
      if !r.in_.iter().any(|x| x.1 == *e) {
        return Some(format!("{:?}: {:?} out of nowhere", op, e));
      }
      continue;
    }
    if !lone {
      // two triggers may hand out two items at once: each at most once
      if !r.in_.iter().any(|x| x.1 == *e && x.0 <= *t) {
        return Some(format!("{:?}: {:?} out of nowhere", op, e));
      }
      if got.iter().filter(|g| g.1 == *e).count() > 1 {
        return Some(format!("{:?}: {:?} was delivered twice", op, e));
      }
      continue;
    }
    match r.in_[i..].iter().position(|x| x.1 == *e) {
      Some(p) => {
        if r.in_[i + p].0 > *t {
          return Some(format!("{:?}: {:?} before it was emitted", op, e));
        }
        i += p + 1;
      }
      None => {
        return Some(format!(
          "{:?} delivered {}; the source emitted {}: an item twice, out of order or never emitted",
          op, show(got), show(&r.in_)
        ))
      }
    }
  }
  None
}

// --------------------------------------------------------------------- C15

pub fn threads(r: &mut Rng) -> Scen {
  let p = |r: &mut Rng| 1 + r.below(6) as u64;
  let play = timed_play(r, 0, false);
  let s = match r.below(12) {
    0..=2 => Src::Interval(p(r)),
    3 => Src::Timer(p(r)),
    4 => Src::Cold(play),
    5 => Src::Threaded(play),
    6..=7 => Src::Hot(play),
    8 => Src::Endless(true),
    9 => Src::Endless(false),
    10 => Src::Repeat,
    _ => Src::Never,
  };
  let mut ops = Vec::new();
  let here = matches!(s, Src::Endless(false) | Src::Repeat);
  if here {
    ops.push(Op::Subscribe);
  }
  let n = r.below(3);
  for _ in 0..=n {
    let d = p(r);
    ops.push(match r.below(20) {
      0..=2 => Op::Observe,
      3..=4 => Op::Subscribe,
      5..=6 => Op::Debounce(d),
      7..=8 => Op::Timeout(d),
      9 => Op::Delay(d),
      10 => Op::FlatInterval(d),
      11 => Op::FlatTimer(d),
      12 => Op::MergeInterval(d),
      13 => Op::ZipInterval(d),
      14 => Op::AmbTimer(d),
      15 => Op::UntilTimer(d),
      16 => Op::SkipUntilTimer(d),
      17 => Op::ConcatTimer(d),
      18 => Op::Sample(Some(d)),
      _ => r.pick(&[Op::Map, Op::Retry, Op::Share]).clone(),
    });
  }
  // one worker per tick, each with workers of its own: too many threads
  let flats = ops
    .iter()
    .filter(|o| matches!(o, Op::FlatInterval(_) | Op::FlatTimer(_)))
    .count();
  if flats > 1 {
    ops.retain(|o| !matches!(o, Op::FlatTimer(_)));
  }
  if let Some(i) = ops.iter().position(|o| matches!(o, Op::FlatTimer(_))) {
    ops.insert(i, Op::Take(3));
  }
  if r.chance(300) {
    ops.push(Op::Take(1 + r.below(3)));
  }
  let stop = match r.below(3) {
    0 => Stop::In(1 + r.below(3)),
    1 => Stop::At(r.below(12) as u64),
    _ => Stop::At(12 + r.below(8) as u64),
  };
  let rounds = if r.chance(300) { 2 + r.below(2) } else { 1 };
  let bound = ops.iter().map(|o| o.period()).sum::<u64>()
    + match &s {
      Src::Interval(d) | Src::Timer(d) => *d,
      // the workload's own threads look at the observer after each gap
      Src::Cold(p) | Src::Threaded(p) | Src::Hot(p) => {
        p.items.iter().map(|x| x.0).max().unwrap_or(0)
      }
      Src::Endless(_) | Src::Repeat => 1,
      _ => 0,
    }
    + 1;
  let mut kinds: Vec<String> = vec![format!("{:?}", s)
    .split(|c: char| !c.is_alphanumeric())
    .next()
    .unwrap()
    .to_string()];
  kinds.extend(ops.iter().map(|o| {
    format!("{:?}", o)
      .split(|c: char| !c.is_alphanumeric())
      .next()
      .unwrap()
      .to_string()
  }));
  let desc = format!("{:?} -> {:?}, {:?}, {} rounds", s, ops, stop, rounds);
  let mut sc = Scen::new(
    desc,
    vec![],
    Box::new(move |cfg| {
      let m = Mon::new();
      let out: Arc<Mutex<Option<String>>> = Arc::default();
      let (m2, s2, ops2) = (m.clone(), s.clone(), ops.clone());
      let (rep, out) = run(cfg, out, move |out| {
        let h = Hots { a: subjects::Subject::new(), b: subjects::Subject::new() };
        let pr = Probe::default();
        let mut o = src(&m2, &pr, &s2, &h);
        for p in &ops2 {
          o = apply(o, p, &h);
        }
        for k in 0..rounds {
          let slot: Arc<Mutex<Option<Sub>>> = Arc::default();
          let sl = slot.clone();
          let sub = watch(&m2, &o, k, itv, move |n, _| {
            if stop == Stop::In(n) {
              let s = sl.lock().unwrap().clone();
              if let Some(s) = s {
                s.unsubscribe();
              }
            }
          });
          *slot.lock().unwrap() = Some(sub.clone());
          let mut hs = Vec::new();
          if let Src::Hot(p) = &s2 {
            let (m, p, a) = (m2.clone(), p.clone(), h.a.clone());
            hs.push(go(move || drive_hot(&m, &p, &a, 0)));
          }
          match stop {
            Stop::At(t) if t > 0 => nap(t),
            Stop::In(_) => nap(20),
            _ => {}
          }
          sub.unsubscribe();
          join_all(hs);
          settle(bound);
          let a = rt::others_alive();
          if !a.is_empty() {
            *out.lock().unwrap() = Some(format!(
              "round {}: {} ms after the subscription ended (every period is over) these threads are alive: {:?}",
              k, bound, a
            ));
            return;
          }
        }
      });
      finish(rep, &m, || out.lock().unwrap().clone())
    }),
  );
  sc.kinds = kinds;
  sc.budget = Budget {
    bases: 1,
    sweep: 20,
    two: 8,
    random: 10,
    lazy: false,
    spurious: true,
  };
  sc.patience = 6_000;
  sc
}
