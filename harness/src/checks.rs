//! One entry per property: what is executed at an index and how it is judged.
use crate::gencase::*;
use crate::prog::*;
use crate::seq::*;
use crate::val::*;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

#[derive(Default)]
pub struct Res {
  /// executions judged
  pub evals: u64,
  /// behaviours worth counting (hashes)
  pub seen: Vec<u64>,
  pub events: u64,
  pub steps: u64,
  pub skipped: u64,
  pub switches: u64,
  pub fail: Option<String>,
  pub sample: Option<String>,
  pub kinds: Vec<String>,
}

pub fn hash_of<T: Hash>(x: &T) -> u64 {
  let mut h = DefaultHasher::new();
  x.hash(&mut h);
  h.finish()
}

pub fn sequential(prop: &str, idx: u64, seed: u64) -> Res {
  let (case, n) = case_for(prop, idx, seed);
  let mut res = Res::default();
  res.kinds = case.node.names();
  let real = exec(&case, n);
  res.evals = 1;
  res.events = real.ev.len() as u64;
  res.steps = real.steps_used;
  if !real.ev.is_empty() {
    let p: Vec<_> = per_tag(&real).into_iter().collect();
    res.seen.push(hash_of(&(format!("{:?}", case.node), p)));
  }
  let verdict = judge(prop, &case, n, &real, &mut res);
  if let Some(f) = verdict {
    res.fail = Some(format!("{}\n{}", f, describe(&case)));
  } else if idx % 97 == 3 && !real.ev.is_empty() {
    let t: Vec<String> = per_tag(&real)
      .iter()
      .map(|(k, v)| format!("{:?}={}", k, show(v)))
      .collect();
    res.sample =
      Some(format!("{:?} {:?} -> {}", case.node, case.steps, t.join(" ")));
  }
  res
}

fn judge(
  prop: &str,
  case: &Case,
  n: usize,
  real: &crate::model::Obs,
  res: &mut Res,
) -> Option<String> {
  if let Some(f) = fault(real) {
    return Some(f);
  }
  match prop {
    "C01" => contract(real),
    "C02" | "C03" | "C02re" | "C03re" => match against_model(
      case,
      n,
      real,
      case.nest.is_empty() || !ends_late(&case.node),
    ) {
      Err(d) => Some(d),
      Ok(None) => {
        res.skipped += 1;
        None
      }
      Ok(_) => None,
    },
    "C04" => match against_model(case, n, real, true) {
      Err(d) => Some(d),
      Ok(None) => {
        res.skipped += 1;
        None
      }
      Ok(Some(m)) => {
        // how often each source was (re)subscribed
        let count = |o: &crate::model::Obs| {
          let mut v = vec![0usize; case.cold.len()];
          for (s, _) in &o.pre {
            if *s >= 100 {
              v[s - 100] += 1;
            }
          }
          v
        };
        let (a, b) = (count(real), count(&m));
        let amb = case.node.has_comb(Comb::Amb)
          || case.node.has_comb(Comb::SwitchOnNext);
        if a != b && !amb {
          Some(format!(
            "cold sources were subscribed {:?} times, the definition gives {:?}",
            a, b
          ))
        } else {
          None
        }
      }
    },
    "C05" => unsub_rules(case, n, real),
    "C06" => match against_model(case, n, real, false) {
      Err(_) | Ok(None) => {
        res.skipped += 1;
        None
      }
      Ok(Some(m)) => teardown(case, real, &m),
    },
    "C07" => None,
    "C14" => {
      // each subscriber alone
      for k in 0..n {
        let mut c = case.clone();
        c.react.clear();
        c.steps.retain(|s| match s {
          Step::Subscribe(x) | Step::Unsub(x) | Step::Using(x) => *x == k,
          _ => true,
        });
        let joined = case
          .steps
          .iter()
          .any(|s| matches!(s, Step::Subscribe(x) if *x == k));
        if !joined {
          if !real.ev.iter().any(|e| e.1[0] == k) {
            continue;
          }
          // arrived inside a callback: cold sources only
          c.steps.push(Step::Subscribe(k));
        }
        let alone = exec(&c, n);
        res.evals += 1;
        if fault(&alone).is_some() {
          res.skipped += 1;
          continue;
        }
        let m = crate::model::Model::run(
          case,
          &crate::model::Var::default(),
          n,
        );
        if m.capped || m.diverged {
          res.skipped += 1;
          continue;
        }
        let pick = |o: &crate::model::Obs| -> Vec<(Vec<usize>, Te)> {
          o.ev
            .iter()
            .filter(|e| e.1[0] == k)
            .map(|e| (e.1.clone(), e.2.clone()))
            .collect()
        };
        let (a, b) = (pick(real), pick(&alone));
        if a != b {
          return Some(format!(
            "subscriber {} received {:?}; alone it receives {:?}",
            k, a, b
          ));
        }
        if k == 0 {
          continue;
        }
      }
      // taps fire for every subscription
      let taps = |o: &crate::model::Obs| {
        let mut v: Vec<_> =
          o.taps.iter().map(|t| (t.1, t.2.clone())).collect();
        v.sort();
        v
      };
      match against_model(case, n, real, false) {
        Ok(Some(m)) => {
          let (a, b) = (taps(real), taps(&m));
          if a != b {
            return Some(format!(
              "tap callbacks over all subscriptions saw {:?}, expected {:?}",
              a, b
            ));
          }
          None
        }
        _ => None,
      }
    }
    "C17" => {
      if !real.all_ended {
        res.skipped += 1;
        None
      } else if real.live_toks != 0 {
        Some(format!(
          "{} user callbacks / closures / items still owned after every subscription ended and every handle was dropped",
          real.live_toks
        ))
      } else if real.kept_toks != 0 {
        Some(format!(
          "{} user callbacks / closures / items still owned after every subscription ended and every handle was dropped, as long as the sources keep their (ended) observers",
          real.kept_toks
        ))
      } else {
        None
      }
    }
    _ => None,
  }
}
