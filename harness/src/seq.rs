//! Sequential family: one case = one history on one logical thread, judged
//! against the reference interpreter or against rules on the trace.
use crate::model::*;
use crate::prog::*;
use crate::real::*;
use crate::val::*;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Mutex};
use vrt::rt::{self, Cfg, Outcome};

pub fn seq_cfg() -> Cfg {
  let mut c = Cfg::seq();
  c.max_steps = 600_000;
  c
}

/// executes the case for real
pub fn exec(case: &Case, nsubs: usize) -> Obs {
  let obs = Arc::new(Mutex::new(Obs::default()));
  let c = Ctx::new(case);
  let (c2, o2) = (c.clone(), obs.clone());
  let rep = rt::run(seq_cfg(), move || drive(&c2, nsubs, &o2));
  let mut o = obs.lock().unwrap().clone();
  harvest(&c, &mut o);
  match rep.outcome {
    Outcome::Done => {}
    Outcome::Deadlock(s) => o.stuck = Some(format!("deadlock: {}", s)),
    Outcome::Budget(s) => o.stuck = Some(format!("livelock: {}", s)),
  }
  for (t, p) in rep.panics {
    o.panics.push(format!("thread {} panicked: {}", t, p));
  }
  o.steps_used = rep.steps;
  o
}

pub fn fault(o: &Obs) -> Option<String> {
  if let Some(s) = &o.stuck {
    return Some(s.clone());
  }
  if let Some(p) = o.panics.first() {
    return Some(p.clone());
  }
  o.notes.first().cloned()
}

pub type Per = BTreeMap<Vec<usize>, Vec<(usize, Te)>>;
pub fn per_tag(o: &Obs) -> Per {
  let mut m: Per = BTreeMap::new();
  for (s, t, e) in &o.ev {
    m.entry(t.clone()).or_default().push((*s, e.clone()));
  }
  m
}
pub fn show(v: &[(usize, Te)]) -> String {
  let s: Vec<String> = v
    .iter()
    .map(|(s, e)| {
      let e = match e {
        Te::N(t) => format!("{:?}", t),
        Te::E(c) => format!("error({})", c),
        Te::C => "complete".into(),
      };
      format!("{}@{}", e, s)
    })
    .collect();
  format!("[{}]", s.join(" "))
}

/// first difference between what happened and what a variant explains
pub fn diff(real: &Obs, model: &Obs, taps: bool) -> Option<String> {
  let (a, b) = (per_tag(real), per_tag(model));
  let keys: BTreeSet<_> = a.keys().chain(b.keys()).cloned().collect();
  let none = Vec::new();
  for k in keys {
    let x = a.get(&k).unwrap_or(&none);
    let y = b.get(&k).unwrap_or(&none);
    if x != y {
      return Some(format!(
        "subscriber {:?} received {} but the definition gives {}",
        k,
        show(x),
        show(y)
      ));
    }
  }
  if taps && real.taps != model.taps {
    return Some(format!(
      "tap callbacks saw {:?} but should have seen {:?}",
      real.taps, model.taps
    ));
  }
  None
}

/// Ok(None) = skip, Ok(Some(obs)) = explained by that variant
pub fn against_model(
  case: &Case,
  nsubs: usize,
  real: &Obs,
  taps: bool,
) -> Result<Option<Obs>, String> {
  let vars = Var::all(&case.node);
  let mut first = None;
  for v in vars {
    let mut m = Model::run(case, &v, nsubs);
    if m.diverged {
      return Ok(None);
    }
    if !case.nest.is_empty() {
      // only the order counts
      m.ev.iter_mut().for_each(|e| e.0 = 0);
      m.taps.iter_mut().for_each(|t| t.0 = 0);
    }
    match diff(real, &m, taps) {
      None => return Ok(Some(m)),
      Some(d) => {
        if first.is_none() {
          first = Some(d)
        }
      }
    }
  }
  Err(first.unwrap())
}

pub fn diverges(case: &Case, nsubs: usize) -> bool {
  let bad = |case: &Case| {
    Var::all(&case.node)
      .iter()
      .any(|v| Model::run(case, v, nsubs).diverged)
  };
  // an emission from within a callback may come into effect after the
  // current delivery only: it must not be what ends an endless one
  let mut quiet = case.clone();
  quiet.react.retain(|r| !matches!(r.act, Step::Emit(..)));
  bad(case) || quiet.react.len() < case.react.len() && bad(&quiet)
}

/// next* then at most one terminal, nothing after
pub fn contract(o: &Obs) -> Option<String> {
  for (t, v) in per_tag(o) {
    let mut end = None;
    for (i, (_, e)) in v.iter().enumerate() {
      if let Some(j) = end {
        return Some(format!(
          "subscriber {:?} received event {} after its terminal (event {}): {}",
          t,
          i,
          j,
          show(&v)
        ));
      }
      if e.terminal() {
        end = Some(i);
      }
    }
  }
  None
}

/// is_subscribed and silence after unsubscribe, from the trace alone
pub fn unsub_rules(case: &Case, nsubs: usize, o: &Obs) -> Option<String> {
  for k in 0..nsubs {
    let Some(sub) = case
      .steps
      .iter()
      .position(|s| matches!(s, Step::Subscribe(x) if *x == k))
    else {
      continue;
    };
    let un0 = case.steps.iter().position(|s| s.ends(k));
    let mine: Vec<(usize, Te)> = o
      .ev
      .iter()
      .filter(|(_, t, _)| t.len() == 1 && t[0] == k)
      .map(|(s, _, e)| (*s, e.clone()))
      .collect();
    // unsubscribed from inside a callback: later steps are silent
    let mut un1 = None;
    for r in case.react.iter().filter(|r| r.act.ends(k)) {
      let at = o
        .ev
        .iter()
        .filter(|(_, t, _)| t[0] == r.sub)
        .enumerate()
        .find(|(i, (_, t, e))| {
          r.fits(r.sub, i + 1, e.terminal() && t.len() == 1)
        })
        .map(|x| x.1 .0);
      if let Some(s) = at {
        // the handle exists once the subscribe step is over
        if s > sub && un1.map(|u| s < u).unwrap_or(true) {
          un1 = Some(s);
        }
      }
    }
    if let Some(u) = un1 {
      if let Some((s, e)) = mine.iter().find(|(s, _)| *s > u) {
        return Some(format!(
          "subscriber {} received {:?} at step {} although it unsubscribed inside a callback at step {}",
          k, e, s, u
        ));
      }
    }
    let un = match (un0, un1) {
      (Some(a), Some(b)) => Some(a.min(b)),
      (a, b) => a.or(b),
    };
    if let Some(u) = un0 {
      if let Some((s, e)) = mine.iter().find(|(s, _)| *s >= u) {
        return Some(format!(
          "subscriber {} received {:?} at step {} although unsubscribed at step {}",
          k, e, s, u
        ));
      }
    }
    let end = mine
      .iter()
      .find(|(_, e)| e.terminal())
      .map(|(s, _)| *s)
      .unwrap_or(usize::MAX)
      .min(un.unwrap_or(usize::MAX));
    for (i, f) in o.open.iter().enumerate() {
      if i < sub {
        continue;
      }
      let want = i < end;
      if f[k] != Some(want) {
        return Some(format!(
          "is_subscribed() of subscription {} is {:?} after step {} ({:?}), expected {}",
          k, f[k], i, case.steps[i], want
        ));
      }
    }
  }
  None
}

/// sources that should have been told that nobody wants them any more
pub fn teardown(case: &Case, real: &Obs, m: &Obs) -> Option<String> {
  for (i, (r, w)) in real.live.iter().zip(m.live.iter()).enumerate() {
    let srcs: BTreeSet<usize> = r.iter().map(|x| x.src).collect();
    for s in srcs {
      let a: Vec<&Live> = r.iter().filter(|x| x.src == s).collect();
      let b: Vec<&Live> = w.iter().filter(|x| x.src == s).collect();
      if a.len() == b.len() {
        for (k, (x, y)) in a.iter().zip(b.iter()).enumerate() {
          if x.sub && !y.sub && !y.lenient {
            return Some(format!(
              "after step {} ({:?}) subscription #{} of {} still sees is_subscribed()==true although nothing downstream wants it",
              i, case.steps[i], k, src_name(s)
            ));
          }
        }
      } else {
        let la = a.iter().filter(|x| x.sub).count();
        let lb = b.iter().filter(|x| x.sub || x.lenient).count();
        if la > lb {
          return Some(format!(
            "after step {} ({:?}) {} has {} live subscriptions, at most {} wanted",
            i, case.steps[i], src_name(s), la, lb
          ));
        }
      }
    }
    for (h, n) in real.counts[i].iter().enumerate() {
      if let (Some(n), Some(want)) = (n, m.counts[i][h]) {
        let len = w.iter().filter(|x| x.src == h && !x.sub && x.lenient);
        if *n > want + len.count() {
          return Some(format!(
            "after step {} ({:?}) hot subject {} still holds {} observers, {} wanted",
            i, case.steps[i], h, n, want
          ));
        }
      }
    }
  }
  // an emission made by the terminal callback is one made after the end
  for (step, live) in &real.at_end {
    let Some(w) = m.live.get(*step) else { continue };
    let lenient = w.iter().any(|x| x.lenient);
    if lenient || w.len() < live.len() {
      continue;
    }
    for (k, (src, sub)) in live.iter().enumerate() {
      if *sub && w.iter().all(|x| x.src != *src || !x.sub) {
        return Some(format!(
          "in the terminal callback of step {} ({:?}) subscription #{} (of {}) still sees is_subscribed()==true",
          step, case.steps[*step], k, src_name(*src)
        ));
      }
    }
  }
  // cold sources: what they saw before each of their own emissions
  let srcs: BTreeSet<usize> = real.pre.iter().map(|x| x.0).collect();
  for s in srcs {
    let a: Vec<_> = real.pre.iter().filter(|x| x.0 == s).collect();
    let b: Vec<_> = m.pre.iter().filter(|x| x.0 == s).collect();
    if a.len() != b.len() {
      continue;
    }
    let w: Vec<&Live> = m
      .live
      .last()
      .map(|l| l.iter().filter(|x| x.src == s).collect())
      .unwrap_or_default();
    for (k, (x, y)) in a.iter().zip(b.iter()).enumerate() {
      if w.get(k).map(|l| l.lenient).unwrap_or(false) {
        continue;
      }
      for (j, p) in x.1.iter().enumerate() {
        if *p && y.1.get(j) == Some(&false) {
          return Some(format!(
            "subscription #{} of {} saw is_subscribed()==true before its event {} although nothing downstream wants it",
            k, src_name(s), j
          ));
        }
      }
    }
  }
  None
}
fn src_name(s: usize) -> String {
  if s >= 100 {
    format!("cold source {}", s - 100)
  } else {
    format!("hot source {}", s)
  }
}

pub fn describe(case: &Case) -> String {
  let mut s = format!("pipeline {:?}\n", case.node);
  if !case.hot.is_empty() {
    s += &format!("hot {:?}\n", case.hot);
  }
  for (i, c) in case.cold.iter().enumerate() {
    s += &format!("cold {} {:?}\n", i, c);
  }
  s += &format!("history {:?}\n", case.steps);
  if !case.react.is_empty() {
    s += &format!("reactions {:?}\n", case.react);
  }
  if !case.nest.is_empty() {
    s += &format!("taken early, from inside the item callbacks {:?}\n", case.nest);
  }
  s
}
