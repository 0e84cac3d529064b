//! C13: publish, ref_count and replay.
use crate::conc::*;
use crate::lab::*;
use crate::val::*;
use another_rxrust::prelude::*;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
use std::sync::{Arc, Mutex};
use vrt::rng::Rng;
use vrt::rt;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
  Publish,
  RefCount,
  Replay,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Src {
  /// emits inside subscribe
  Cold,
  /// a thread per source subscription
  Threaded,
  /// driven from outside through the observers it was handed
  Hot,
}

#[derive(Clone)]
enum Conn {
  P(publish::Publish<'static, i64>),
  R(ref_count::RefCount<'static, i64>),
  Y(replay::Replay<'static, i64>),
}
impl Conn {
  fn new(k: Kind, o: &Ob<i64>) -> Conn {
    match k {
      Kind::Publish => Conn::P(o.publish()),
      Kind::RefCount => Conn::R(o.ref_count()),
      Kind::Replay => Conn::Y(o.replay()),
    }
  }
  fn observable(&self) -> Ob<i64> {
    match self {
      Conn::P(c) => c.observable(),
      Conn::R(c) => c.observable(),
      Conn::Y(c) => c.observable(),
    }
  }
}

struct World {
  m: M,
  pr: Probe,
  conn: Conn,
  shared: Option<Ob<i64>>,
  subs: Mutex<Vec<Option<Sub>>>,
  /// (subscriber, begin, end) of subscribe and unsubscribe calls
  subbed: Mutex<Vec<(usize, u64, u64)>>,
  left: Mutex<Vec<(usize, u64, u64)>>,
  connection: Mutex<Option<Sub>>,
  /// (begin, end) of connect / of unsubscribing the connection
  connects: Mutex<Vec<(u64, u64)>>,
  cuts: Mutex<Vec<(u64, u64)>>,
}

/// run k of the source emits uid(k, ..)
fn source(
  m: &M,
  pr: &Probe,
  kind: Src,
  items: Vec<(u64, i64)>,
  end: End,
  mid: bool,
) -> Ob<i64> {
  let (m, pr) = (m.clone(), pr.clone());
  let run = Arc::new(AtomicUsize::new(0));
  let o = Observable::create(move |s: Observer<'static, i64>| {
    pr.arrive(&m, 0, &s);
    let k = run.fetch_add(1, Relaxed);
    let p = Play {
      items: items.iter().map(|(d, x)| (*d, uid(k, 0) + x % 1000)).collect(),
      end,
    };
    match kind {
      Src::Cold => play(&m, k, &p, &s),
      Src::Threaded => {
        let m = m.clone();
        go(move || play(&m, k, &p, &s));
      }
      Src::Hot => {}
    }
  });
  if mid {
    o.map(|x| x)
  } else {
    o
  }
}
/// a hot source emits to whoever it was handed
fn hot_emit(m: &M, pr: &Probe, te: Te) {
  m.put(0, te.clone(), || {
    for h in pr.all() {
      if let Some(o) = &h.obs {
        if o.is_subscribed() {
          match &te {
            Te::N(t) => o.next(t.key()),
            Te::E(c) => o.error(mk_err(*c, None)),
            Te::C => o.complete(),
          }
        }
      }
    }
  })
}

fn unsub(w: &Arc<World>, k: usize) {
  let s = w.subs.lock().unwrap()[k].clone();
  if let Some(s) = s {
    let b = w.m.tick();
    s.unsubscribe();
    let e = w.m.tick();
    w.left.lock().unwrap().push((k, b, e));
  }
}
fn sub(
  w: &Arc<World>,
  k: usize,
  take: Option<usize>,
  react: impl Fn(usize) + Clone + Send + Sync + 'static,
) {
  let mut o = w.shared.clone().unwrap_or_else(|| w.conn.observable());
  if let Some(n) = take {
    o = o.take(n);
  }
  let b = w.m.tick();
  let s = watch(&w.m, &o, k, itv, move |n, _| react(n));
  let e = w.m.tick();
  w.subbed.lock().unwrap().push((k, b, e));
  w.subs.lock().unwrap()[k] = Some(s);
}
fn connect(w: &Arc<World>) {
  if let Conn::P(p) = &w.conn {
    let b = w.m.tick();
    let s = p.connect();
    let e = w.m.tick();
    w.connects.lock().unwrap().push((b, e));
    *w.connection.lock().unwrap() = Some(s);
  }
}
fn cut(w: &Arc<World>) {
  let s = w.connection.lock().unwrap().take();
  if let Some(s) = s {
    let b = w.m.tick();
    s.unsubscribe();
    let e = w.m.tick();
    w.cuts.lock().unwrap().push((b, e));
  }
}
fn world(m: M, kind: Kind, o: Ob<i64>, pr: Probe, shared: bool, n: usize) -> Arc<World> {
  let conn = Conn::new(kind, &o);
  Arc::new(World {
    m,
    pr,
    shared: if shared { Some(conn.observable()) } else { None },
    conn,
    subs: Mutex::new(vec![None; n]),
    subbed: Mutex::default(),
    left: Mutex::default(),
    connection: Mutex::default(),
    connects: Mutex::default(),
    cuts: Mutex::default(),
  })
}
fn kind_name(k: Kind) -> &'static str {
  match k {
    Kind::Publish => "publish",
    Kind::RefCount => "ref_count",
    Kind::Replay => "replay",
  }
}

// ------------------------------------------------------------ one thread

#[derive(Clone, Debug, PartialEq)]
enum Act {
  /// subscriber, take
  Sub(usize, Option<usize>),
  Unsub(usize),
  Emit(i64),
  End(End),
  Connect,
  Cut,
}
#[derive(Clone, Debug)]
struct React {
  who: usize,
  nth: usize,
  act: Act,
}
#[derive(Clone, Debug)]
struct Snap {
  seen: Vec<usize>,
  open: Vec<Option<bool>>,
  arrived: usize,
  live: usize,
  emitted: usize,
}

/// histories on one thread, against a reference
pub fn sequential(r: &mut Rng) -> Scen {
  let kind = *r.pick(&[Kind::Publish, Kind::RefCount, Kind::Replay]);
  let src = if r.chance(350) { Src::Cold } else { Src::Hot };
  let mut steps = Vec::new();
  let mut nsub = 0;
  let mut x = 0;
  let big = large(r);
  let n = if big { 20 + r.below(60) } else { 3 + r.below(10) };
  let most = if big { 20 } else { 5 };
  let cold_n = r.below(if big { 60 } else { 5 });
  let cold_end = match r.below(4) {
    0 => End::C,
    1 => End::E,
    _ => End::Open,
  };
  for _ in 0..n {
    steps.push(match r.below(14) {
      0..=3 if nsub < most => {
        nsub += 1;
        let t = if r.chance(200) { Some(1 + r.below(3)) } else { None };
        Act::Sub(nsub - 1, t)
      }
      4..=6 if nsub > 0 => Act::Unsub(r.below(nsub)),
      7 if src == Src::Hot && r.chance(if big { 30 } else { 300 }) => {
        Act::End(if r.chance(500) { End::C } else { End::E })
      }
      8 | 9 if kind == Kind::Publish => Act::Connect,
      10 if kind == Kind::Publish => Act::Cut,
      _ if src == Src::Hot => {
        x += 1;
        Act::Emit(x)
      }
      _ => Act::Unsub(if nsub > 0 { r.below(nsub) } else { 0 }),
    });
  }
  if nsub == 0 {
    steps.insert(0, Act::Sub(0, None));
    nsub = 1;
  }
  let mut reacts: Vec<React> = Vec::new();
  if r.chance(350) {
    let who = r.below(nsub);
    let nth = 1 + r.below(3);
    let act = match r.below(4) {
      0 | 1 => Act::Unsub(who),
      2 => Act::Unsub(r.below(nsub)),
      _ if kind == Kind::Publish => Act::Cut,
      _ => Act::Unsub(who),
    };
    reacts.push(React { who, nth, act });
  }
  // no handle yet while a cold source emits
  if src == Src::Cold {
    reacts.retain(|r| {
      kind == Kind::Publish && matches!(r.act, Act::Unsub(_))
    });
  }
  let joiner = kind != Kind::Publish && r.chance(200);
  if joiner {
    // somebody joins from inside a callback
    nsub += 1;
    reacts = vec![React {
      who: r.below(nsub - 1),
      nth: 1 + r.below(3),
      act: Act::Sub(nsub - 1, None),
    }];
  }
  let shared = r.chance(500);
  let mid = r.chance(300);
  let items: Vec<(u64, i64)> = (0..cold_n).map(|k| (0, k as i64)).collect();
  let desc = format!(
    "{} over a {:?} source{}: {:?} reactions {:?}{}",
    kind_name(kind),
    src,
    if src == Src::Cold {
      format!(" ({} items, then {:?})", cold_n, cold_end)
    } else {
      String::new()
    },
    steps,
    reacts,
    if shared { ", one observable" } else { "" }
  );
  let kinds = vec![kind_name(kind), if src == Src::Cold { "cold" } else { "hot" }];
  let mut sc = Scen::new(
    desc,
    kinds,
    Box::new(move |cfg| {
      let m = Mon::new();
      let snaps: Arc<Mutex<Vec<(Act, Snap)>>> = Arc::default();
      let (m2, st, re, it) =
        (m.clone(), steps.clone(), reacts.clone(), items.clone());
      let (rep, snaps) = run(cfg, snaps, move |snaps| {
        let pr = Probe::default();
        let o = source(&m2, &pr, src, it, cold_end, mid);
        let w = world(m2, kind, o, pr, shared, nsub);
        for a in &st {
          if !apply(&w, a, &re) {
            continue;
          }
          let subs = w.subs.lock().unwrap().clone();
          let snap = Snap {
            seen: (0..nsub).map(|k| w.m.of(k).len()).collect(),
            open: subs
              .iter()
              .map(|s| s.as_ref().map(|s| s.is_subscribed()))
              .collect(),
            arrived: w.pr.all().len(),
            live: w.pr.live(0),
            emitted: w.m.emissions().len(),
          };
          if let Some(h) = w.pr.all().iter().find(|h| h.live_before > 0) {
            w.m.note(format!(
              "{} subscribed its source while {} other source subscriptions were live",
              kind_name(kind), h.live_before
            ));
          }
          snaps.lock().unwrap().push((a.clone(), snap));
        }
        w.subs.lock().unwrap().clear();
        w.connection.lock().unwrap().take();
      });
      finish(rep, &m, || {
        let s = snaps.lock().unwrap();
        judge_seq(&m, kind, src, cold_n, cold_end, &s, &reacts, nsub)
      })
    }),
  );
  sc.budget = Budget {
    bases: 1,
    sweep: 0,
    two: 0,
    random: 0,
    lazy: false,
    spurious: false,
  };
  if big {
    sc.large();
  }
  sc
}

/// false: not applicable now (nothing was called)
fn apply(w: &Arc<World>, a: &Act, re: &[React]) -> bool {
  match a {
    Act::Sub(k, t) => {
      let (w2, re2, k) = (w.clone(), re.to_vec(), *k);
      sub(w, k, *t, move |n| {
        for r in &re2 {
          if r.who == k && r.nth == n {
            apply(&w2, &r.act, &[]);
          }
        }
      });
    }
    Act::Unsub(k) => {
      if w.subs.lock().unwrap()[*k].is_none() {
        return false;
      }
      unsub(w, *k)
    }
    Act::Emit(x) => hot_emit(&w.m, &w.pr, Te::N(Tv::I(*x))),
    Act::End(e) => hot_emit(&w.m, &w.pr, e.te().unwrap()),
    Act::Connect => {
      // a second connect on top of a live connection is left open
      let c = w.connection.lock().unwrap().clone();
      if c.map(|c| c.is_subscribed()).unwrap_or(false) {
        return false;
      }
      connect(w)
    }
    Act::Cut => {
      if w.connection.lock().unwrap().is_none() {
        return false;
      }
      cut(w)
    }
  }
  true
}

fn judge_seq(
  m: &M,
  kind: Kind,
  src: Src,
  cold_n: usize,
  cold_end: End,
  snaps: &[(Act, Snap)],
  reacts: &[React],
  nsub: usize,
) -> Option<String> {
  let name = kind_name(kind);
  for k in 0..nsub {
    if let Some(f) = mt_contract(&m.of(k)) {
      return Some(f);
    }
  }
  let mut want: Vec<Vec<Te>> = vec![Vec::new(); nsub];
  let mut on = vec![false; nsub];
  let mut take: Vec<Option<usize>> = vec![None; nsub];
  let mut hist: Vec<Te> = Vec::new();
  let mut connected = false;
  let mut arrived = 0;
  let mut emitted = 0;
  let mut joined: Option<usize> = None;
  for (i, (a, s)) in snaps.iter().enumerate() {
    let mut ended = false;
    // one event through the reference; reactions included
    let mut feed = |te: Te,
                    on: &mut Vec<bool>,
                    want: &mut Vec<Vec<Te>>,
                    hist: &mut Vec<Te>,
                    connected: &mut bool,
                    joined: &mut Option<usize>,
                    take: &Vec<Option<usize>>| {
      hist.push(te.clone());
      let who: Vec<usize> = (0..nsub).filter(|k| on[*k]).collect();
      for k in who {
        if !on[k] {
          // left meanwhile; order among subscribers is open
          continue;
        }
        want[k].push(te.clone());
        if te.terminal() {
          on[k] = false;
        }
        let n = want[k].len();
        // leaving inside the last callback forestalls take's complete
        let leaves = reacts
          .iter()
          .any(|r| r.who == k && r.nth == n && r.act == Act::Unsub(k));
        if take[k] == Some(n) && !te.terminal() {
          on[k] = false;
          if !leaves {
            want[k].push(Te::C);
          }
        }
        for r in reacts {
          if r.who != k {
            continue;
          }
          // callbacks n and, if take just completed, n + 1
          if r.nth == n || r.nth == want[k].len() && want[k].len() > n {
            match r.act {
              Act::Unsub(j) if on[j] => {
                on[j] = false;
              }
              Act::Cut => *connected = false,
              Act::Sub(j, _) => *joined = Some(j),
              _ => {}
            }
          }
        }
      }
      if te.terminal() {
        *connected = false;
      }
      if kind != Kind::Publish && !on.iter().any(|x| *x) && joined.is_none() {
        *connected = false;
      }
    };
    let run_cold = |on: &mut Vec<bool>,
                        want: &mut Vec<Vec<Te>>,
                        hist: &mut Vec<Te>,
                        connected: &mut bool,
                        joined: &mut Option<usize>,
                        take: &Vec<Option<usize>>,
                        arrived: usize,
                        emitted: &mut usize,
                        feed: &mut dyn FnMut(
      Te,
      &mut Vec<bool>,
      &mut Vec<Vec<Te>>,
      &mut Vec<Te>,
      &mut bool,
      &mut Option<usize>,
      &Vec<Option<usize>>,
    )| {
      let p = arrived - 1;
      let mut all: Vec<Te> =
        (0..cold_n).map(|n| Te::N(Tv::I(uid(p, n)))).collect();
      all.extend(cold_end.te());
      for te in all {
        if !*connected && !te.terminal() {
          return;
        }
        *emitted += 1;
        if *connected {
          feed(te, on, want, hist, connected, joined, take);
        }
      }
    };
    match a {
      Act::Sub(k, t) => {
        take[*k] = *t;
        if kind == Kind::Replay && !hist.is_empty() {
          // the record, cut short by take
          let mut rec = hist.clone();
          if let Some(n) = t {
            if rec.iter().filter(|t| !t.terminal()).count() >= *n {
              rec.truncate(*n);
              rec.push(Te::C);
            }
          }
          want[*k].extend(rec);
          on[*k] = !want[*k].iter().any(|t| t.terminal());
          // a reaction during the replay: judged weakly
          if reacts.iter().any(|r| r.who == *k && r.nth <= want[*k].len()) {
            return None;
          }
          if !on[*k] {
            // it came and went; the source must not have been touched
            if !on.iter().any(|x| *x) {
              return None;
            }
          }
        } else {
          on[*k] = true;
        }
        if kind != Kind::Publish && on[*k] && !connected {
          arrived += 1;
          connected = true;
          if src == Src::Cold {
            run_cold(
              &mut on, &mut want, &mut hist, &mut connected, &mut joined,
              &take, arrived, &mut emitted, &mut feed,
            );
          }
        }
      }
      Act::Unsub(k) => {
        on[*k] = false;
        if kind != Kind::Publish && !on.iter().any(|x| *x) && connected {
          connected = false;
          ended = true;
        }
      }
      Act::Emit(x) => {
        emitted += 1;
        if connected {
          feed(
            Te::N(Tv::I(*x)), &mut on, &mut want, &mut hist, &mut connected,
            &mut joined, &take,
          );
          ended = !connected;
        }
      }
      Act::End(e) => {
        emitted += 1;
        if connected {
          feed(
            e.te().unwrap(), &mut on, &mut want, &mut hist, &mut connected,
            &mut joined, &take,
          );
          ended = true;
        }
      }
      Act::Connect => {
        arrived += 1;
        connected = true;
        if src == Src::Cold {
          run_cold(
            &mut on, &mut want, &mut hist, &mut connected, &mut joined,
            &take, arrived, &mut emitted, &mut feed,
          );
        }
      }
      Act::Cut => connected = false,
    }
    let term = hist.last().map(|t| t.terminal()).unwrap_or(false);
    // other subscribers hit by a reaction, or a joiner: only what is certain
    if let Some(j) = joined {
      return judge_joiner(m, kind, j, s, &hist, reacts[0].who);
    }
    let others = reacts.iter().any(|r| match r.act {
      Act::Unsub(j) => j != r.who,
      _ => false,
    });
    for k in 0..nsub {
      let v = tes(&m.of(k));
      let seen = &v[..s.seen[k].min(v.len())];
      if others {
        if seen.len() > want[k].len() + 1 {
          return Some(format!(
            "{}: after step {} ({:?}) subscriber {} has received {:?}, expected {:?}",
            name, i, a, k, seen, want[k]
          ));
        }
        continue;
      }
      if seen != &want[k][..] {
        return Some(format!(
          "{}: after step {} ({:?}) subscriber {} has received {:?}, expected {:?}",
          name, i, a, k, seen, want[k]
        ));
      }
    }
    if others {
      // who saw the event before it was made to leave is open
      return None;
    }
    if s.arrived != arrived {
      return Some(format!(
        "{}: after step {} ({:?}) the source has been subscribed {} times, expected {}",
        name, i, a, s.arrived, arrived
      ));
    }
    if s.live != connected as usize {
      return Some(format!(
        "{}: after step {} ({:?}) the source has {} live subscriptions, expected {}",
        name, i, a, s.live, connected as usize
      ));
    }
    if src == Src::Cold && s.emitted > emitted + 1 {
      return Some(format!(
        "{}: after step {} ({:?}) the source had emitted {} events although nobody was left after {}",
        name, i, a, s.emitted, emitted
      ));
    }
    // what follows the end of the source, or the last leaving of a replay, is
    // left open
    if term && kind != Kind::Replay {
      return None;
    }
    if kind == Kind::Replay && (ended || term || arrived > 0 && !connected) {
      return late_replay(m, &snaps[i + 1..], &hist, s, nsub);
    }
  }
  None
}

/// joined from inside a callback
fn judge_joiner(
  m: &M,
  kind: Kind,
  j: usize,
  s: &Snap,
  hist: &[Te],
  by: usize,
) -> Option<String> {
  let v = tes(&m.of(j));
  let got = &v[..s.seen[j].min(v.len())];
  if s.arrived > 1 && kind == Kind::Replay {
    return Some(format!(
      "replay: the source was subscribed {} times",
      s.arrived
    ));
  }
  if s.live > 1 {
    return Some(format!("{} live source subscriptions", s.live));
  }
  // joined while the other was being told the end: what it gets is left open
  if ends(&m.of(by)).len() > 0 && m.of(by).last().map(|c| c.e > m.of(j).first().map(|f| f.b).unwrap_or(0)).unwrap_or(false) {
    return None;
  }
  if kind == Kind::Replay {
    // the one it joined from may have left: then the rest is open
    let w = tes(&m.of(by));
    if w.len() >= hist.len() && !got.starts_with(hist) {
      return Some(format!(
        "replay: subscriber {} joined inside a callback and received {:?}, the sequence is {:?}",
        j, got, hist
      ));
    }
  } else if !hist.last().map(|t| t.terminal()).unwrap_or(false)
    && !hist.ends_with(got)
  {
    return Some(format!(
      "subscriber {} joined inside a callback and received {:?}, the sequence is {:?}",
      j, got, hist
    ));
  }
  None
}

/// after the source is over: whoever subscribes still gets the record first
fn late_replay(
  m: &M,
  rest: &[(Act, Snap)],
  hist: &[Te],
  last: &Snap,
  nsub: usize,
) -> Option<String> {
  let term = hist.last().map(|t| t.terminal()).unwrap_or(false);
  if !term {
    return None;
  }
  for (a, s) in rest {
    for k in 0..nsub {
      let v = tes(&m.of(k));
      let got = &v[..s.seen[k].min(v.len())];
      if let Act::Sub(j, None) = a {
        if *j == k && got != hist {
          return Some(format!(
            "replay: subscriber {} arrived after the source's end and received {:?}, the sequence is {:?}",
            k, got, hist
          ));
        }
      }
    }
    if s.live > 0 {
      return Some("replay: the source has a live subscription after its end".into());
    }
  }
  let _ = last;
  None
}

// ----------------------------------------------------------- many threads

#[derive(Clone, Copy, Debug)]
struct Who {
  /// subscribed by the main thread before anything else
  first: bool,
  nap: u64,
  /// leaves after this nap
  leave: Option<u64>,
  twice: bool,
  take: Option<usize>,
}

pub fn concurrent(r: &mut Rng) -> Scen {
  let kind = *r.pick(&[
    Kind::Publish,
    Kind::RefCount,
    Kind::RefCount,
    Kind::Replay,
    Kind::Replay,
  ]);
  let src = *r.pick(&[Src::Threaded, Src::Threaded, Src::Hot, Src::Cold]);
  let end = match r.below(4) {
    0 => End::C,
    1 => End::E,
    _ => End::Open,
  };
  let timed = r.chance(400);
  let big = large(r);
  let n = if big { 8 + r.below(20) } else { r.below(5) };
  let items: Vec<(u64, i64)> = (0..n)
    .map(|k| {
      let d = if timed && r.chance(500) { 1 + r.below(2) as u64 } else { 0 };
      (d, k as i64)
    })
    .collect();
  let nw = 1 + r.below(if big { 9 } else { 4 });
  let stable = r.chance(500);
  let whos: Vec<Who> = (0..nw)
    .map(|i| {
      let first = i == 0 && stable || r.chance(200);
      let leave = if i == 0 && stable || r.chance(350) {
        None
      } else {
        Some(if timed { r.below(4) as u64 } else { 0 })
      };
      Who {
        first,
        nap: if timed { r.below(4) as u64 } else { 0 },
        leave,
        twice: leave.is_some() && r.chance(250),
        take: if !(i == 0 && stable) && r.chance(120) {
          Some(1 + r.below(2))
        } else {
          None
        },
      }
    })
    .collect();
  // one leaves while the next arrives, in the middle of an emission
  let relay = !big && kind == Kind::RefCount && r.chance(400);
  let (src, items, whos) = if relay {
    let w = |first, leave| Who { first, nap: 0, leave, twice: false, take: None };
    let mut whos = vec![w(true, Some(0)), w(false, None)];
    if r.chance(300) {
      whos.push(w(false, if r.chance(500) { Some(0) } else { None }));
    }
    let n = 2 + r.below(3);
    let src = if r.chance(700) { Src::Hot } else { Src::Threaded };
    (src, (0..n).map(|k| (0, k as i64)).collect(), whos)
  } else {
    (src, items, whos)
  };
  let stable = stable && !relay;
  // publish: what the connecting thread does
  let script: Vec<(u64, bool)> = if kind == Kind::Publish {
    let d = |r: &mut Rng| if timed { r.below(4) as u64 } else { 0 };
    let mut v = vec![(d(r), true)];
    if r.chance(500) {
      v.push((d(r), false));
      if r.chance(300) {
        v.push((d(r), true));
      }
    }
    v
  } else {
    vec![]
  };
  let shared = r.chance(500);
  let mid = r.chance(200);
  let desc = format!(
    "{} over a {:?} source{} of {:?} then {:?}; subscribers {:?}; connection {:?}{}",
    kind_name(kind), src, if mid { " mapped" } else { "" }, items, end, whos, script,
    if shared { ", one observable" } else { "" }
  );
  let kinds = vec![
    kind_name(kind),
    match src {
      Src::Cold => "cold",
      Src::Threaded => "threaded",
      Src::Hot => "hot",
    },
    if stable { "with-stable" } else if relay { "relay" } else { "no-stable" },
  ];
  let mut sc = Scen::new(
    desc,
    kinds,
    Box::new(move |cfg| {
      let m = Mon::new();
      let slot: Arc<Mutex<Option<(Arc<World>, Fin)>>> = Arc::default();
      let (m2, it, wh, scr) =
        (m.clone(), items.clone(), whos.clone(), script.clone());
      let (rep, slot) = run(cfg, slot, move |slot| {
        let pr = Probe::default();
        let o = source(&m2, &pr, src, it.clone(), end, mid);
        let w = world(m2, kind, o, pr, shared, wh.len());
        let f = drive(&w, src, &it, end, &wh, &scr);
        w.subs.lock().unwrap().clear();
        *slot.lock().unwrap() = Some((w, f));
      });
      let x = slot.lock().unwrap().take();
      finish(rep, &m, || {
        let (w, f) = x.as_ref()?;
        judge_mt(w, f, kind, src, mid, &items, end, &whos)
      })
    }),
  );
  sc.budget.spurious = true;
  sc.budget.lazy = true;
  if relay {
    sc.budget.two = 60;
  }
  if big {
    sc.large();
  }
  sc
}

#[derive(Default)]
struct Fin {
  /// at quiescence, before the harness makes the rest leave
  open: Vec<bool>,
  live: usize,
  /// after everybody left
  live2: usize,
  cuts: usize,
  alive: Vec<(usize, String)>,
}

fn drive(
  w: &Arc<World>,
  src: Src,
  items: &[(u64, i64)],
  end: End,
  whos: &[Who],
  script: &[(u64, bool)],
) -> Fin {
  let mut h = Vec::new();
  for (k, p) in whos.iter().enumerate() {
    if p.first {
      sub(w, k, p.take, |_| {});
    }
  }
  for (k, p) in whos.iter().copied().enumerate() {
    if p.first && p.leave.is_none() {
      continue;
    }
    let w = w.clone();
    h.push(go(move || {
      if !p.first {
        if p.nap > 0 {
          nap(p.nap);
        }
        sub(&w, k, p.take, |_| {});
      }
      if let Some(d) = p.leave {
        if d > 0 {
          nap(d);
        }
        if p.twice {
          let w2 = w.clone();
          let o = go(move || unsub(&w2, k));
          unsub(&w, k);
          let _ = o.join();
          unsub(&w, k);
        } else {
          unsub(&w, k);
        }
      }
    }));
  }
  if !script.is_empty() {
    let (w, s) = (w.clone(), script.to_vec());
    h.push(go(move || {
      for (d, c) in s {
        if d > 0 {
          nap(d);
        }
        if c {
          connect(&w)
        } else {
          cut(&w)
        }
      }
    }));
  }
  if src == Src::Hot {
    let (w, it) = (w.clone(), items.to_vec());
    h.push(go(move || {
      for (d, x) in it {
        if d > 0 {
          nap(d);
        }
        hot_emit(&w.m, &w.pr, Te::N(Tv::I(uid(0, 0) + x)));
      }
      if let Some(t) = end.te() {
        hot_emit(&w.m, &w.pr, t);
      }
    }));
  }
  join_all(h);
  settle(50);
  let subs = w.subs.lock().unwrap().clone();
  let mut f = Fin::default();
  f.open = subs
    .iter()
    .map(|s| s.as_ref().map(|s| s.is_subscribed()).unwrap_or(false))
    .collect();
  f.live = w.pr.live(0);
  f.cuts = w.cuts.lock().unwrap().len();
  drop(subs);
  for k in 0..whos.len() {
    if f.open[k] {
      unsub(w, k);
    }
  }
  cut(w);
  settle(50);
  f.live2 = w.pr.live(0);
  f.alive = rt::others_alive();
  f
}

fn judge_mt(
  w: &World,
  f: &Fin,
  kind: Kind,
  src: Src,
  mid: bool,
  items_: &[(u64, i64)],
  end: End,
  whos: &[Who],
) -> Option<String> {
  let m = &w.m;
  let name = kind_name(kind);
  let held = w.pr.all();
  let ems = m.emissions();
  let left = w.left.lock().unwrap().clone();
  let subbed = w.subbed.lock().unwrap().clone();
  let connects = w.connects.lock().unwrap().clone();
  let cuts = w.cuts.lock().unwrap().clone();
  let ended = ems.iter().any(|e| e.te.terminal());
  if kind != Kind::Publish {
    // (behind an operator the earlier one may still be in its teardown, also
    // by an emission that found out first)
    let leaving = |t: u64| {
      mid
        && (whos.iter().any(|w| w.take.is_some())
          || left.iter().any(|l| {
            l.1 < t
              && (t < l.2 || ems.iter().any(|e| e.b < t && t < e.e && e.e > l.1))
          }))
    };
    if let Some(h) = held.iter().find(|h| h.live_before > 0 && !leaving(h.t)) {
      return Some(format!(
        "{} subscribed its source (at {}) while {} earlier source subscriptions were live (subscribed at {:?}; joins {:?}, leaves {:?}, emissions {:?})",
        name, h.t, h.live_before,
        held.iter().map(|h| h.t).collect::<Vec<_>>(),
        subbed, left,
        ems.iter().map(|e| (e.te.clone(), e.b, e.e)).collect::<Vec<_>>()
      ));
    }
    let open = f.open.iter().any(|o| *o);
    if !open && f.live > 0 {
      return Some(format!(
        "{}: every subscriber has left or was told the end, and the source still has {} live subscriptions",
        name, f.live
      ));
    }
    if open && f.live == 0 && !ended && kind == Kind::RefCount {
      return Some(format!(
        "{}: subscribers are left ({:?}) and the source has no live subscription",
        name, f.open
      ));
    }
  } else {
    if held.len() != connects.len() {
      return Some(format!(
        "publish subscribed its source {} times in {} connects",
        held.len(), connects.len()
      ));
    }
    for h in &held {
      if !connects.iter().any(|c| c.0 < h.t && h.t < c.1) {
        return Some("publish subscribed its source outside connect".into());
      }
    }
    if f.cuts >= connects.len() && f.live > 0 {
      return Some("publish: the connection was unsubscribed and its source subscription is live".into());
    }
    // one run per connection: nothing it starts to emit after its cut
    if src != Src::Hot {
      for (i, c) in cuts.iter().enumerate() {
        for e in ems.iter().filter(|e| e.src == i && e.b > c.1) {
          for k in 0..whos.len() {
            if m.of(k).iter().any(|x| x.te == e.te && !e.te.terminal()) {
              return Some(format!(
                "publish delivered {:?}, emitted at {} after the connection's unsubscribe returned ({})",
                e.te, e.b, c.1
              ));
            }
          }
        }
      }
    }
  }
  if f.live2 > 0 {
    return Some(format!(
      "{}: everybody has left and the source still has {} live subscriptions",
      name, f.live2
    ));
  }
  if !f.alive.is_empty() {
    return Some(format!("{}: threads alive at the end: {:?}", name, f.alive));
  }
  let base: Vec<i64> = items_.iter().map(|x| x.1 % 1000).collect();
  let em = |x: i64| {
    ems.iter().find(|e| matches!(&e.te, Te::N(t) if t.key() == x))
  };
  let has_stable = whos[0].first && whos[0].leave.is_none() && whos[0].take.is_none();
  for (k, p) in whos.iter().enumerate() {
    let v = m.of(k);
    let got = items(&v);
    if let Some(f) = mt_contract(&v) {
      return Some(f);
    }
    let mut d = got.clone();
    d.sort();
    if let Some(x) = d.windows(2).find(|x| x[0] == x[1]) {
      return Some(format!("{}: subscriber {} received {} twice", name, k, x[0]));
    }
    let Some(sb) = subbed.iter().find(|s| s.0 == k) else { continue };
    let un = left
      .iter()
      .filter(|l| l.0 == k)
      .map(|l| (l.1, l.2))
      .min()
      .unwrap_or((u64::MAX, u64::MAX));
    let leaves = p.leave.is_some() || p.take.is_some();
    for x in &got {
      let Some(e) = em(*x) else {
        return Some(format!("{}: {} was never emitted", name, x));
      };
      // a second, overlapping call may return early
      let closed = left
        .iter()
        .filter(|l| l.0 == k && l.1 < un.1)
        .map(|l| l.2)
        .max()
        .unwrap_or(u64::MAX);
      if e.b > closed {
        return Some(format!(
          "{}: subscriber {} received {}, emitted at {} after its unsubscribe had returned ({})",
          name, k, x, e.b, closed
        ));
      }
    }
    // per run of the source: no gap, in order
    for run in 0..held.len().max(1) {
      let want: Vec<i64> = base.iter().map(|b| uid(run, 0) + b).collect();
      let mine: Vec<i64> =
        got.iter().filter(|x| producer(**x) == run).copied().collect();
      // (a hot source goes on between two connections)
      let split = kind == Kind::Publish && src == Src::Hot && !cuts.is_empty();
      if split {
        if !is_subseq(&mine, &want) {
          return Some(format!(
            "publish: subscriber {} received {:?} of {:?}",
            k, mine, want
          ));
        }
        continue;
      }
      if !mine.is_empty() && !want.windows(mine.len()).any(|w| w == &mine[..]) {
        return Some(format!(
          "{}: subscriber {} received {:?} of the source's {:?}",
          name, k, mine, want
        ));
      }
      // what was emitted entirely while it was subscribed
      for x in &want {
        if mine.contains(x) || leaves {
          continue;
        }
        let Some(e) = em(*x) else { continue };
        let attached = match src {
          // delivered to the source subscription that was live
          Src::Hot => has_stable && kind != Kind::Publish,
          _ => kind != Kind::Publish && has_stable,
        };
        let told = ends(&v).first().map(|c| c.b).unwrap_or(u64::MAX);
        if attached && !(run > 0 && ended) && e.b > sb.2 && e.e < un.0 && e.e < told {
          return Some(format!(
            "{}: subscriber {} (subscribed {}..{}) missed {} emitted {}..{}",
            name, k, sb.1, sb.2, x, e.b, e.e
          ));
        }
      }
    }
    // the whole sequence
    let run0: Vec<i64> = base.iter().map(|b| uid(0, 0) + b).collect();
    if has_stable && kind != Kind::Publish {
      // (a cold source ends its first run before anybody else can join;
      // what a later subscriber of ref_count gets then is left open)
      if held.len() > 1 && !(kind == Kind::RefCount && ended) {
        return Some(format!(
          "{}: subscriber 0 never left and the source was subscribed {} times",
          name, held.len()
        ));
      }
      let whole = k == 0 || kind == Kind::Replay;
      if whole && src != Src::Hot {
        let ok = if leaves { run0.starts_with(&got) } else { got == run0 };
        if !ok {
          return Some(format!(
            "{}: subscriber {} received {:?}, the sequence is {:?}",
            name, k, got, run0
          ));
        }
        let t = ends(&v).first().map(|c| c.te.clone());
        if !leaves && t != end.te() {
          return Some(format!(
            "{}: subscriber {} observed {:?}, the source ended with {:?}",
            name, k, t, end
          ));
        }
      }
      if whole && src == Src::Hot {
        // emitted to the one source subscription
        if !leaves && got != run0 {
          return Some(format!(
            "{}: subscriber {} received {:?}, the sequence is {:?}",
            name, k, got, run0
          ));
        }
      }
    }
    if kind == Kind::Publish && p.first && !leaves && src != Src::Cold {
      // present from the start: each run from its beginning
      for run in 0..held.len() {
        if src == Src::Hot {
          break;
        }
        let want: Vec<i64> = base.iter().map(|b| uid(run, 0) + b).collect();
        let mine: Vec<i64> =
          got.iter().filter(|x| producer(**x) == run).copied().collect();
        let dead = ended && run > 0;
        let ok = if cuts.len() > run || dead {
          want.starts_with(&mine)
        } else {
          mine == want
        };
        // (the harness cuts the last connection after quiescence)
        let full = cuts
          .get(run)
          .map(|c| ems.iter().all(|e| e.src != run || e.e < c.0))
          .unwrap_or(true);
        if !ok || full && !dead && em(want.last().copied().unwrap_or(0)).is_some() && mine != want {
          return Some(format!(
            "publish: subscriber {} was there from the start and received {:?} of run {}, which is {:?}",
            k, mine, run, want
          ));
        }
      }
    }
  }
  None
}
