//! C09: observe_on / subscribe_on chains.
use crate::conc::*;
use crate::lab::*;
use crate::val::*;
use another_rxrust::prelude::*;
use std::collections::BTreeSet;
use std::sync::{Arc, Mutex};
use vrt::rng::Rng;
use vrt::rt;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
  Obs,
  Sub,
  ObsDefault,
  SubDefault,
  Map,
  Tap,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
  Cold,
  Threaded,
  /// one thread drives the subject
  Hot,
  /// several do
  Hots,
  Endless(bool),
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Stop {
  Never,
  /// from the main thread, after a nap
  After(u64),
  /// inside the k-th callback
  Inside(usize),
  Take(usize),
}

fn chain(o: &Ob<i64>, ops: &[Op]) -> Ob<i64> {
  let mut o = o.clone();
  for op in ops {
    o = match op {
      Op::Obs => o.observe_on(schedulers::new_thread_scheduler()),
      Op::Sub => o.subscribe_on(schedulers::new_thread_scheduler()),
      Op::ObsDefault => o.observe_on(schedulers::default_scheduler()),
      Op::SubDefault => o.subscribe_on(schedulers::default_scheduler()),
      Op::Map => o.map(|x| x),
      Op::Tap => o.tap(|_| {}, |_| {}, || {}),
    };
  }
  o
}

#[derive(Default)]
struct Out {
  closed: Vec<Option<u64>>,
  main: usize,
}

pub fn scenario(r: &mut Rng) -> Scen {
  let n = 1 + r.below(3);
  let mut ops: Vec<Op> = (0..n)
    .map(|_| match r.below(9) {
      0..=2 => Op::Obs,
      3..=4 => Op::Sub,
      5 => Op::ObsDefault,
      6 => Op::SubDefault,
      7 => Op::Map,
      _ => Op::Tap,
    })
    .collect();
  if !ops.iter().any(|o| matches!(o, Op::Obs | Op::Sub)) {
    let i = r.below(ops.len());
    ops[i] = if r.chance(600) { Op::Obs } else { Op::Sub };
  }
  let has_obs = ops.contains(&Op::Obs);
  let has_sub = ops.contains(&Op::Sub);
  let kind = match r.below(10) {
    0..=2 => Kind::Cold,
    3..=4 => Kind::Threaded,
    5..=6 => Kind::Hot,
    7..=8 => Kind::Hots,
    _ => Kind::Endless(r.chance(500)),
  };
  let hot = matches!(kind, Kind::Hot | Kind::Hots);
  let endless = matches!(kind, Kind::Endless(_));
  let stop = match r.below(if endless { 3 } else { 6 }) {
    0 => Stop::Take(1 + r.below(3)),
    1 => Stop::After(r.below(4) as u64),
    2 => Stop::Inside(1 + r.below(3)),
    _ => Stop::Never,
  };
  // an endless source that emits in subscribe never returns unless the chain
  // cuts it off
  let stop = if kind == Kind::Endless(false) && !has_sub {
    Stop::Take(1 + r.below(3))
  } else {
    stop
  };
  // a hot source behind subscribe_on may be raced by its first emissions
  let race = hot && has_sub && r.chance(300);
  let naps = if r.chance(500) { 300 } else { 0 };
  let end = match r.below(5) {
    0 => End::E,
    1 => End::Open,
    _ => End::C,
  };
  let np = if kind == Kind::Hots { 2 + r.below(2) } else { 1 };
  let big = large(r);
  let plays: Vec<Play> = (0..np)
    .map(|p| {
      let n = match (big, np > 1) {
        (false, true) => r.below(4),
        (false, false) => r.below(6),
        (true, true) => 5 + r.below(20),
        _ => 20 + r.below(60),
      };
      Play::gen(r, p, n, naps, if np > 1 { End::Open } else { end })
    })
    .collect();
  let nsub = if r.chance(250) { 2 } else { 1 };
  let desc = format!(
    "{:?} source {:?} end {:?} -> {:?}, {} subscribers, stop {:?}{}",
    kind, plays, end, ops, nsub, stop, if race { ", racing" } else { "" }
  );
  let kinds = vec![
    match kind {
      Kind::Cold => "cold",
      Kind::Threaded => "threaded",
      Kind::Hot => "hot",
      Kind::Hots => "several-emitters",
      Kind::Endless(_) => "endless",
    },
    if has_obs { "observe_on" } else { "no-observe_on" },
    if has_sub { "subscribe_on" } else { "no-subscribe_on" },
    match stop {
      Stop::Never => "no-stop",
      Stop::Take(_) => "take",
      Stop::After(_) => "unsubscribe",
      Stop::Inside(_) => "unsubscribe-inside",
    },
  ];
  let mut sc = Scen::new(
    desc,
    kinds,
    Box::new(move |cfg| {
      let m = Mon::new();
      let pr = Probe::default();
      let out = Arc::new(Mutex::new(Out::default()));
      let (m2, pr2, ops2, plays2) =
        (m.clone(), pr.clone(), ops.clone(), plays.clone());
      let (rep, out) = run(cfg, out, move |out| {
        drive(m2, pr2, &ops2, plays2, kind, stop, end, nsub, race, has_sub, out)
      });
      let o = out.lock().unwrap();
      finish(rep, &m, || {
        (0..nsub).find_map(|k| {
          judge(
            &m, &pr, k, &o, &plays, kind, stop, end, race, has_obs, has_sub,
          )
        })
      })
    }),
  );
  sc.budget.spurious = true;
  sc.budget.lazy = !(hot && has_sub);
  if big {
    sc.large();
  }
  sc
}

fn drive(
  m: M,
  pr: Probe,
  ops: &[Op],
  plays: Vec<Play>,
  kind: Kind,
  stop: Stop,
  end: End,
  nsub: usize,
  race: bool,
  has_sub: bool,
  out: Arc<Mutex<Out>>,
) {
  {
    let mut o = out.lock().unwrap();
    o.closed = vec![None; nsub];
    o.main = rt::tid();
  }
  let sbj = subjects::Subject::<i64>::new();
  let src = match kind {
    Kind::Cold => cold(&m, &pr, 0, plays[0].clone()),
    Kind::Threaded => threaded(&m, &pr, 0, plays[0].clone()),
    Kind::Hot | Kind::Hots => {
      pr.hot(&m, 0, &sbj)
    }
    Kind::Endless(sp) => endless(&m, &pr, 0, sp),
  };
  let mut o = chain(&src, ops);
  if let Stop::Take(k) = stop {
    o = o.take(k);
  }
  let subs: Arc<Mutex<Vec<Option<Sub>>>> = Arc::new(Mutex::new(vec![None; nsub]));
  for k in 0..nsub {
    let (subs2, m2, out2) = (subs.clone(), m.clone(), out.clone());
    let s = watch(&m, &o, k, itv, move |n, _| {
      if stop == Stop::Inside(n) {
        let s = subs2.lock().unwrap()[k].clone();
        if let Some(s) = s {
          s.unsubscribe();
          out2.lock().unwrap().closed[k] = Some(m2.tick());
        }
      }
    });
    subs.lock().unwrap()[k] = Some(s);
  }
  let mut h = Vec::new();
  if matches!(kind, Kind::Hot | Kind::Hots) {
    if has_sub && !race {
      settle(1);
    }
    for (i, p) in plays.iter().cloned().enumerate() {
      let (m, s) = (m.clone(), sbj.clone());
      h.push(go(move || play_subject(&m, i, &p, &s)));
    }
  }
  if let Stop::After(d) = stop {
    if d > 0 {
      nap(d);
    }
    let ss = subs.lock().unwrap().clone();
    for (k, s) in ss.iter().enumerate() {
      if let Some(s) = s {
        s.unsubscribe();
        out.lock().unwrap().closed[k] = Some(m.tick());
      }
    }
  }
  join_all(h);
  if kind == Kind::Hots {
    play_subject(&m, 0, &Play { items: vec![], end }, &sbj);
  }
  settle(100);
  let ss = subs.lock().unwrap().clone();
  for s in ss.into_iter().flatten() {
    s.unsubscribe();
  }
  settle(10);
}

fn judge(
  m: &M,
  pr: &Probe,
  k: usize,
  o: &Out,
  plays: &[Play],
  kind: Kind,
  stop: Stop,
  end: End,
  race: bool,
  has_obs: bool,
  has_sub: bool,
) -> Option<String> {
  let v = m.of(k);
  let got = tes(&v);
  let ems = m.emissions();
  if has_obs || kind != Kind::Hots {
    if let Some(f) = overlap(&v) {
      return Some(f);
    }
  }
  // threads
  let tids: BTreeSet<usize> = v.iter().map(|c| c.tid).collect();
  let etids: BTreeSet<usize> = ems.iter().map(|e| e.tid).collect();
  if has_obs {
    if tids.len() > 1 {
      return Some(format!(
        "callbacks of subscriber {} behind observe_on ran on threads {:?}",
        k, tids
      ));
    }
    if let Some(t) = tids.intersection(&etids).next() {
      return Some(format!(
        "a callback of subscriber {} behind observe_on ran on the emitting thread {}",
        k, t
      ));
    }
  }
  if has_sub {
    if let Some(h) = pr.all().iter().find(|h| h.tid == o.main) {
      return Some(format!(
        "subscribe_on: the source was subscribed on the subscribing thread ({})",
        h.tid
      ));
    }
    if let Some(c) =
      v.iter().find(|c| c.tid == o.main && !etids.contains(&o.main))
    {
      return Some(format!(
        "subscribe_on: {:?} was delivered on the subscribing thread",
        c.te
      ));
    }
  }
  // what was emitted after an unsubscribe returned
  if let Some(t) = o.closed.get(k).copied().flatten() {
    for c in &v {
      let late = if kind == Kind::Cold || kind == Kind::Threaded {
        // one play per subscription: the emission is the one before the callback
        false
      } else {
        ems.iter().filter(|e| e.te == c.te).all(|e| e.b > t)
          && ems.iter().any(|e| e.te == c.te)
      };
      if late || c.em > t {
        return Some(format!(
          "subscriber {} received {:?} although the source began to emit it after unsubscribe had returned ({})",
          k, c.te, t
        ));
      }
    }
  }
  // one source subscription each
  // the sequence
  let all: Vec<Te> = match kind {
    Kind::Endless(_) => (0..1000).map(|n| Te::N(Tv::I(uid(0, n)))).collect(),
    _ => plays[0].tes(),
  };
  if kind == Kind::Hots {
    let its = items(&v);
    let term: Vec<Te> =
      got.iter().filter(|t| t.terminal()).cloned().collect();
    if let Some(i) = got.iter().position(|t| t.terminal()) {
      if i + 1 != got.len() {
        return Some(format!(
          "subscriber {} received {:?} before the last item",
          k, got[i]
        ));
      }
    }
    let parts = by_producer(&its, plays.len());
    let total: usize = parts.iter().map(|p| p.len()).sum();
    if total != its.len() {
      return Some(format!("subscriber {} received items nobody emitted", k));
    }
    for (p, got) in parts.iter().enumerate() {
      let want = plays[p].keys();
      let ok = match stop {
        Stop::Never if race => {
          want.ends_with(got)
        }
        Stop::Never => *got == want,
        _ if race => want.windows(got.len().max(1)).any(|w| w == &got[..])
          || got.is_empty(),
        _ => want.starts_with(got),
      };
      if !ok {
        return Some(format!(
          "subscriber {} received {:?} of emitter {}, which emitted {:?}",
          k, got, p, want
        ));
      }
    }
    let emitted: usize = plays.iter().map(|p| p.items.len()).sum();
    if let Stop::Take(n) = stop {
      let w = n.min(emitted);
      if its.len() > n || has_obs && !race && its.len() != w {
        return Some(format!(
          "take({}) behind {} items delivered {}",
          n, emitted, its.len()
        ));
      }
      if its.len() == n && term != vec![Te::C] {
        return Some(format!("take({}) got its items and no complete", n));
      }
    } else if stop == Stop::Never && !race {
      let want: Vec<Te> = end.te().into_iter().collect();
      if term != want {
        return Some(format!(
          "subscriber {} observed terminals {:?}, the source emitted {:?}",
          k, term, want
        ));
      }
    }
    return None;
  }
  let ok = match stop {
    Stop::Never if race => all.ends_with(&got),
    Stop::Never => got == all,
    Stop::Take(n) => {
      let mut w: Vec<Te> = all.iter().take(n).cloned().collect();
      if w.len() == n && w.iter().all(|t| !t.terminal()) {
        w.push(Te::C);
      }
      if race {
        let its: Vec<Te> =
          got.iter().filter(|t| !t.terminal()).cloned().collect();
        its.len() <= n
          && (its.is_empty() || all.windows(its.len()).any(|w| w == &its[..]))
      } else {
        got == w
      }
    }
    _ if race => {
      got.is_empty() || all.windows(got.len()).any(|w| w == &got[..])
    }
    _ => is_prefix(&got, &all),
  };
  if !ok {
    return Some(format!(
      "subscriber {} received {:?}, the source emits {:?} (stop {:?})",
      k,
      got,
      if all.len() > 20 { &all[..20] } else { &all[..] },
      stop
    ));
  }
  // unsubscribe inside callback n: n callbacks were delivered if there were
  if let Stop::Inside(n) = stop {
    if !race && got.len() < n.min(all.len()) {
      return Some(format!(
        "subscriber {} received {:?}; it would unsubscribe in callback {} only",
        k, got, n
      ));
    }
  }
  None
}
