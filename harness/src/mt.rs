//! Generic concurrent scenarios: a random pipeline, one thread per hot
//! source, threads that subscribe, unsubscribe and watch is_subscribed.
use crate::conc::*;
use crate::gencase::*;
use crate::prog::*;
use crate::real::*;
use crate::seq::{describe, diverges};
use std::sync::atomic::Ordering::Relaxed;
use std::sync::{Arc, Mutex};
use vrt::rng::Rng;
use vrt::rt;

/// steps of one thread, each preceded by a virtual nap (0: none)
type Script = Vec<(u64, Step)>;

#[derive(Default)]
struct End {
  /// (subscriber, begin, end, value)
  polls: Vec<(usize, u64, u64, bool)>,
  /// at quiescence, before the harness unsubscribes what is left
  open: Vec<Option<bool>>,
  finished: bool,
  /// subscriptions were still open at first quiescence
  forced: bool,
  live_srcs: Vec<usize>,
  counts: Vec<(usize, usize)>,
  threads: Vec<(usize, String)>,
  toks: i64,
  /// while the sources still keep their observers
  kept: i64,
}

fn gen(prop: &str, r: &mut Rng) -> (Case, usize, Vec<Script>, bool, usize) {
  let mut o = Opts::default();
  o.max = 3;
  o.depth = 3;
  o.stamps = 2;
  o.flat = true;
  o.threads = match prop {
    "C15" => true,
    "C19" => r.chance(200),
    _ => r.chance(400),
  };
  o.share = r.chance(300);
  o.track = prop == "C17" || r.chance(200);
  o.errors = r.chance(600);
  o.nsubs = if r.chance(250) { 2 } else { 1 };
  o.unsub = match prop {
    "C05" => true,
    "C19" => r.chance(200),
    _ => r.chance(600),
  };
  o.react = match prop {
    "C07" => r.chance(600),
    _ => r.chance(150),
  };
  o.ill = prop == "C19" && r.chance(200);
  let root = if r.chance(550) { Some(*r.pick(&COMBS)) } else { None };
  let top = match r.below(6) {
    0 => vec![Op::Take(1 + r.below(2))],
    1 if prop == "C15" || prop == "C07" => vec![Op::ObserveOnNew],
    _ => vec![],
  };
  let n = o.nsubs;
  let mut case = random_case(r, &o, root, &top);
  for _ in 0..30 {
    let hot = !case.hot.is_empty() || o.threads;
    // every tick would start threads
    let swarm = case.node.has(&|n| matches!(n, Node::Interval(_)))
      && case.node.has(&|n| matches!(n, Node::Op(Op::FlatMap(_), _)));
    if hot && !swarm && !reshared(&case.node) && !diverges(&case, n) {
      break;
    }
    case = random_case(r, &o, root, &top);
  }
  let nhot = case.hot.len();
  let timed = case.node.has(&|n| {
    matches!(
      n,
      Node::Timer(_)
        | Node::Interval(_)
        | Node::Op(Op::Delay(_) | Op::Debounce(_) | Op::Timeout(_), _)
    )
  });
  let pace = if timed { 600 } else { 100 };
  let mut th: Vec<Script> = vec![Vec::new(); nhot];
  let mut un: Script = Vec::new();
  let mut lates: Vec<Script> = Vec::new();
  for s in &case.steps {
    let d = if r.chance(pace) { 1 + r.below(4) as u64 } else { 0 };
    match s {
      Step::Emit(h, _) => th[*h].push((d, s.clone())),
      Step::Subscribe(0) => {}
      Step::Subscribe(_) => lates.push(vec![(d, s.clone())]),
      Step::Unsub(_) | Step::Using(_) => un.push((d, s.clone())),
    }
  }
  // a subject may be driven by two threads
  for h in 0..nhot {
    if case.hot[h] == HotKind::Subject && th[h].len() > 1 && r.chance(350) {
      let k = 1 + r.below(th[h].len() - 1);
      let tail = th[h].split_off(k);
      th.push(tail);
    }
  }
  th.retain(|t| !t.is_empty());
  if !un.is_empty() {
    th.push(un);
  }
  th.extend(lates);
  let early = r.chance(250);
  let polls = if prop == "C05" || r.chance(200) { 1 + r.below(4) } else { 0 };
  (case, n, th, early, polls)
}

pub fn scenario(prop: &str, r: &mut Rng) -> Scen {
  let (case, n, th, early, polls) = gen(prop, r);
  let mut desc = describe(&case);
  desc += &format!(
    "threads {:?} reactions {:?}{}{}",
    th,
    case.react,
    if early { " threads start before subscribe" } else { "" },
    if polls > 0 { " watched" } else { "" }
  );
  let kinds = case.node.names();
  let prop = prop.to_string();
  let mut sc = Scen::new(
    desc,
    vec![],
    Box::new(move |cfg| {
      let m = Mon::new();
      let c = Ctx::with(&case, Some(m.clone()));
      let out = Arc::new(Mutex::new(End::default()));
      let (c2, th2) = (c.clone(), th.clone());
      let (rep, out) =
        run(cfg, out, move |o| drive(c2, n, th2, early, polls, o));
      let end = out.lock().unwrap();
      let verdict = if stuck(&rep).is_some() {
        None
      } else {
        judge(&prop, &c, &m, n, &end)
      };
      // what the harness itself still holds
      let held: Vec<_> =
        c.l().srcs.iter_mut().map(|r| r.obs.take()).collect();
      std::mem::forget(held);
      Exec { rep, verdict, events: m.len(), sample: m.show() }
    }),
  );
  sc.kinds = kinds;
  sc.budget.lazy = true;
  sc.budget.spurious = true;
  sc
}

fn drive(
  c: C,
  n: usize,
  th: Vec<Script>,
  early: bool,
  polls: usize,
  out: Arc<Mutex<End>>,
) {
  let m = c.mt.clone().unwrap();
  let pipe = build(&c, &c.case.node);
  *c.pipe.lock().unwrap() = Some(pipe);
  *c.subs.lock().unwrap() = vec![None; n];
  let mut h = Vec::new();
  let start = |h: &mut Vec<_>| {
    for t in th.iter().cloned() {
      let c = c.clone();
      h.push(go(move || {
        for (d, s) in t {
          if d > 0 {
            nap(d);
          }
          c.act(&s);
        }
      }));
    }
  };
  if early {
    start(&mut h);
  }
  c.act(&Step::Subscribe(0));
  if polls > 0 {
    let (c, m, out) = (c.clone(), m.clone(), out.clone());
    h.push(go(move || {
      for _ in 0..polls {
        let s = c.subs.lock().unwrap()[0].clone();
        if let Some(s) = s {
          let b = m.tick();
          let v = s.is_subscribed();
          let e = m.tick();
          out.lock().unwrap().polls.push((0, b, e, v));
        }
        rt::point("poll", 0);
      }
    }));
  }
  if !early {
    start(&mut h);
  }
  join_all(h);
  settle(150);
  let subs = c.subs.lock().unwrap().clone();
  let open: Vec<Option<bool>> =
    subs.iter().map(|s| s.as_ref().map(|s| s.is_subscribed())).collect();
  let forced = open.iter().any(|o| *o == Some(true));
  {
    let mut o = out.lock().unwrap();
    o.open = open;
    o.forced = forced;
  }
  if forced {
    for k in 0..n {
      c.act(&Step::Unsub(k));
    }
  }
  // (or it may have ended by itself just now)
  settle(150);
  drop(subs);
  let recs: Vec<_> =
    c.l().srcs.iter().map(|r| (r.src, r.obs.clone())).collect();
  let live: Vec<usize> = recs
    .iter()
    .filter(|(_, o)| o.as_ref().map(|o| o.is_subscribed()).unwrap_or(false))
    .map(|(s, _)| *s)
    .collect();
  drop(recs);
  let counts: Vec<(usize, usize)> = c
    .hot
    .iter()
    .enumerate()
    .filter_map(|(i, h)| match h {
      HotSrc::Subject(s) => {
        another_rxrust::__vrt::subject_count(s).map(|n| (i, n))
      }
      _ => None,
    })
    .filter(|x| x.1 > 0)
    .collect();
  let threads = rt::others_alive();
  {
    let mut o = out.lock().unwrap();
    o.live_srcs = live;
    o.counts = counts;
    o.threads = threads;
  }
  let subs = std::mem::take(&mut *c.subs.lock().unwrap());
  drop(subs);
  let pipe = c.pipe.lock().unwrap().take();
  drop(pipe);
  let kept = c.live.load(Relaxed);
  let held: Vec<_> = c.l().srcs.iter_mut().map(|r| r.obs.take()).collect();
  drop(held);
  let mut o = out.lock().unwrap();
  o.toks = c.live.load(Relaxed);
  o.kept = kept;
  o.finished = true;
}

fn judge(prop: &str, c: &C, m: &M, n: usize, end: &End) -> Option<String> {
  if let Some(s) = c.l().notes.first() {
    return Some(s.clone());
  }
  if !end.finished {
    return None;
  }
  let un = c.unsubs.lock().unwrap().clone();
  match prop {
    "C19" => (0..n).find_map(|k| {
      let v = m.of(k);
      if v.is_empty() {
        None
      } else {
        mt_contract(&v)
      }
    }),
    "C05" => {
      for k in 0..n {
        let mine: Vec<_> = un.iter().filter(|u| u.0 == k).collect();
        let first = mine.iter().map(|u| u.2).min().unwrap_or(u64::MAX);
        // a second call that overlaps the first may return earlier
        let closed = mine
          .iter()
          .filter(|u| u.1 < first)
          .map(|u| u.2)
          .max()
          .unwrap_or(u64::MAX);
        let v = m.of(k);
        for x in &v {
          if closed < u64::MAX && x.em > closed {
            return Some(format!(
              "subscriber {} received {:?} at {}..{}; the source began to emit it at {}, after unsubscribe had returned at {}",
              k, x.te, x.b, x.e, x.em, closed
            ));
          }
        }
        let term = v.iter().find(|x| x.te.terminal());
        let tend = term.map(|x| x.e).unwrap_or(u64::MAX);
        let mut was = true;
        for p in end.polls.iter().filter(|p| p.0 == k) {
          if p.3 && !was {
            return Some(format!(
              "is_subscribed() of {} went from false back to true",
              k
            ));
          }
          was = p.3;
          if p.3 && (p.1 > closed || p.1 > tend) {
            return Some(format!(
              "is_subscribed() of {} is true at {}..{}; unsubscribe returned at {}, terminal callback at {} (MAX: never)",
              k, p.1, p.2, closed, tend
            ));
          }
          // (a terminal that races an unsubscribe may be swallowed)
          let nobody = un.iter().all(|u| u.0 != k)
            || end.open.get(k).copied().flatten() == Some(true);
          if !p.3 && nobody && term.is_none() {
            return Some(format!(
              "is_subscribed() of {} is false at {}..{} without terminal or unsubscribe",
              k, p.1, p.2
            ));
          }
        }
        // `forced` unsubscribes come last and are in `un`; the state before
        let by_user = c
          .case
          .steps
          .iter()
          .any(|s| s.ends(k))
          || c.case.react.iter().any(|r| r.act.ends(k));
        if let Some(o) = end.open.get(k).copied().flatten() {
          let terminated = term.is_some();
          if o && terminated {
            return Some(format!(
              "is_subscribed() of {} is true after its terminal",
              k
            ));
          }
          if !o && !terminated && !by_user {
            return Some(format!(
              "is_subscribed() of {} is false although it saw neither a terminal nor an unsubscribe",
              k
            ));
          }
        }
      }
      None
    }
    "C06" => {
      if let Some(s) = end.live_srcs.first() {
        return Some(format!(
          "every subscription has ended, yet an observer given to source {} ({}) still sees is_subscribed()==true",
          s,
          if *s >= 100 { "cold" } else { "hot" }
        ));
      }
      end.counts.first().map(|(h, n)| {
        format!(
          "every subscription has ended, yet hot subject {} holds {} observers",
          h, n
        )
      })
    }
    "C15" => end.threads.first().map(|_| {
      format!(
        "every subscription has ended and 150 ms passed, yet worker threads are alive: {:?}",
        end.threads
      )
    }),
    "C17" => {
      if end.toks != 0 {
        Some(format!(
          "{} user callbacks / closures / items still owned after every subscription ended and every handle was dropped",
          end.toks
        ))
      } else if end.kept != 0 {
        Some(format!(
          "{} user callbacks / closures / items still owned after every subscription ended and every handle was dropped, as long as the sources keep their (ended) observers",
          end.kept
        ))
      } else {
        None
      }
    }
    _ => None,
  }
}
