//! C10: call histories on the four subjects.
use crate::conc::*;
use crate::lab::tes;
use crate::val::*;
use another_rxrust::prelude::*;
use std::sync::{Arc, Mutex};
use vrt::rng::Rng;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
  Plain,
  Behavior,
  Replay,
  Async,
}
#[derive(Clone)]
pub enum Subj {
  S(subjects::Subject<'static, i64>),
  B(subjects::BehaviorSubject<'static, i64>),
  R(subjects::ReplaySubject<'static, i64>),
  A(subjects::AsyncSubject<'static, i64>),
}
pub const INIT: i64 = 7;
impl Subj {
  pub fn new(k: Kind) -> Subj {
    match k {
      Kind::Plain => Subj::S(subjects::Subject::new()),
      Kind::Behavior => Subj::B(subjects::BehaviorSubject::new(INIT)),
      Kind::Replay => Subj::R(subjects::ReplaySubject::new()),
      Kind::Async => Subj::A(subjects::AsyncSubject::new()),
    }
  }
  pub fn next(&self, x: i64) {
    match self {
      Subj::S(s) => s.next(x),
      Subj::B(s) => s.next(x),
      Subj::R(s) => s.next(x),
      Subj::A(s) => s.next(x),
    }
  }
  pub fn complete(&self) {
    match self {
      Subj::S(s) => s.complete(),
      Subj::B(s) => s.complete(),
      Subj::R(s) => s.complete(),
      Subj::A(s) => s.complete(),
    }
  }
  pub fn error(&self, c: i64) {
    let e = mk_err(c, None);
    match self {
      Subj::S(s) => s.error(e),
      Subj::B(s) => s.error(e),
      Subj::R(s) => s.error(e),
      Subj::A(s) => s.error(e),
    }
  }
  pub fn observable(&self) -> Ob<i64> {
    match self {
      Subj::S(s) => s.observable(),
      Subj::B(s) => s.observable(),
      Subj::R(s) => s.observable(),
      Subj::A(s) => s.observable(),
    }
  }
  pub fn count(&self) -> Option<usize> {
    match self {
      Subj::S(s) => another_rxrust::__vrt::subject_count(s),
      _ => None,
    }
  }
}

#[derive(Clone, Debug, PartialEq)]
enum Act {
  Sub(usize),
  Unsub(usize),
  Next(i64),
  Err(i64),
  Done,
}
/// performed inside the n-th callback of `who`
#[derive(Clone, Debug)]
struct React {
  who: usize,
  nth: usize,
  act: Act,
}

/// what was called, when
#[derive(Clone, Debug)]
struct Rec {
  act: Act,
  b: u64,
  e: u64,
  /// another call was under way when this one began
  nested: bool,
}

struct World {
  m: M,
  s: Subj,
  /// one observable for everybody, or a fresh one per subscriber
  shared: Option<Ob<i64>>,
  subs: Mutex<Vec<Option<Sub>>>,
  recs: Mutex<Vec<Rec>>,
  depth: Mutex<usize>,
  reacts: Vec<React>,
  /// per observer and after each top-level step
  snaps: Mutex<Vec<Snap>>,
}
struct Snap {
  /// callbacks so far, per observer
  seen: Vec<usize>,
  open: Vec<Option<bool>>,
  count: Option<usize>,
}

fn act(w: &Arc<World>, a: &Act) {
  let i = {
    let mut d = w.depth.lock().unwrap();
    *d += 1;
    let mut r = w.recs.lock().unwrap();
    r.push(Rec { act: a.clone(), b: w.m.tick(), e: u64::MAX, nested: *d > 1 });
    r.len() - 1
  };
  match a {
    Act::Next(x) => w.s.next(*x),
    Act::Err(c) => w.s.error(*c),
    Act::Done => w.s.complete(),
    Act::Unsub(k) => {
      let s = w.subs.lock().unwrap()[*k].clone();
      if let Some(s) = s {
        s.unsubscribe();
      } else {
        // not subscribed (yet): no call was made
        w.recs.lock().unwrap()[i].act = Act::Unsub(usize::MAX);
      }
    }
    Act::Sub(k) => {
      let k = *k;
      let o = w.shared.clone().unwrap_or_else(|| w.s.observable());
      let w2 = w.clone();
      let s = watch(&w.m, &o, k, itv, move |n, _| {
        for r in w2.reacts.iter() {
          if r.who == k && r.nth == n {
            act(&w2, &r.act);
          }
        }
      });
      w.subs.lock().unwrap()[k] = Some(s);
    }
  }
  w.recs.lock().unwrap()[i].e = w.m.tick();
  *w.depth.lock().unwrap() -= 1;
}

pub fn scenario(r: &mut Rng) -> Scen {
  let kind = *r.pick(&[Kind::Plain, Kind::Behavior, Kind::Replay, Kind::Async]);
  let nested = r.chance(400);
  let big = large(r);
  let n = if big { 20 + r.below(60) } else { 2 + r.below(11) };
  let most = if big { 30 } else { 5 };
  let mut nsub = 0;
  let mut next = 100;
  let mut steps = Vec::new();
  for _ in 0..n {
    steps.push(match r.below(12) {
      0..=3 if nsub < most => {
        nsub += 1;
        Act::Sub(nsub - 1)
      }
      4..=5 if nsub > 0 => Act::Unsub(r.below(nsub)),
      6 if r.chance(if big { 30 } else { 500 }) => Act::Done,
      7 if r.chance(if big { 30 } else { 400 }) => Act::Err(40 + r.below(3) as i64),
      _ => {
        next += 1;
        Act::Next(next)
      }
    });
  }
  if big && r.chance(200) {
    let at = r.below(steps.len());
    for _ in 0..250 + r.below(20) {
      next += 1;
      steps.insert(at, Act::Next(next));
    }
  }
  let mut reacts = Vec::new();
  if nested && nsub > 0 {
    for _ in 0..1 + r.below(3) {
      let act = match r.below(8) {
        0..=1 if nsub < most + 2 => {
          nsub += 1;
          Act::Sub(nsub - 1)
        }
        2..=4 => Act::Unsub(r.below(nsub)),
        5 => Act::Done,
        _ => {
          next += 1;
          Act::Next(next)
        }
      };
      reacts.push(React { who: r.below(nsub), nth: 1 + r.below(3), act });
    }
  }
  let shared = r.chance(500);
  let desc = format!(
    "{:?} subject{}: {:?} reactions {:?}",
    kind, if shared { " (one observable)" } else { "" }, steps, reacts
  );
  let kinds = vec![
    match kind {
      Kind::Plain => "Subject",
      Kind::Behavior => "BehaviorSubject",
      Kind::Replay => "ReplaySubject",
      Kind::Async => "AsyncSubject",
    },
    if reacts.is_empty() { "flat" } else { "re-entrant" },
  ];
  let mut sc = Scen::new(
    desc,
    kinds,
    Box::new(move |cfg| {
      let m = Mon::new();
      let slot: Arc<Mutex<Option<Arc<World>>>> = Arc::default();
      let (m2, st, re) = (m.clone(), steps.clone(), reacts.clone());
      let (rep, slot) = run(cfg, slot, move |slot| {
        let s = Subj::new(kind);
        let w = Arc::new(World {
          m: m2,
          shared: if shared { Some(s.observable()) } else { None },
          s,
          subs: Mutex::new(vec![None; nsub]),
          recs: Mutex::default(),
          depth: Mutex::new(0),
          reacts: re,
          snaps: Mutex::default(),
        });
        *slot.lock().unwrap() = Some(w.clone());
        for a in &st {
          act(&w, a);
          let subs = w.subs.lock().unwrap().clone();
          let snap = Snap {
            seen: (0..nsub).map(|k| w.m.of(k).len()).collect(),
            open: subs
              .iter()
              .map(|s| s.as_ref().map(|s| s.is_subscribed()))
              .collect(),
            count: w.s.count(),
          };
          w.snaps.lock().unwrap().push(snap);
        }
      });
      let w = slot.lock().unwrap().take();
      crate::lab::finish(rep, &m, || {
        let w = w.as_deref()?;
        let v = if w.reacts.is_empty() {
          exact(w, kind, &steps, nsub)
        } else {
          weak(w, kind, nsub)
        };
        w.subs.lock().unwrap().clear();
        v
      })
    }),
  );
  sc.budget = Budget {
    bases: 1,
    sweep: 0,
    two: 0,
    random: 0,
    lazy: false,
    spurious: false,
  };
  if big {
    sc.large();
  }
  sc
}

/// histories without re-entrance: the reference subject
fn exact(w: &World, kind: Kind, steps: &[Act], nsub: usize) -> Option<String> {
  let mut want: Vec<Vec<Te>> = vec![Vec::new(); nsub];
  let mut on = vec![false; nsub];
  let mut had = vec![false; nsub];
  // plain subject: subscribing after its terminal is left open
  let mut open_question = vec![false; nsub];
  let mut hist: Vec<i64> = Vec::new();
  let mut term: Option<Te> = None;
  let snaps = w.snaps.lock().unwrap();
  let n = |x: i64| Te::N(Tv::I(x));
  for (i, a) in steps.iter().enumerate() {
    match a {
      Act::Sub(k) => {
        had[*k] = true;
        on[*k] = true;
        match kind {
          Kind::Plain => {
            if term.is_some() {
              open_question[*k] = true;
            }
          }
          Kind::Behavior => match &term {
            Some(t) => want[*k].push(t.clone()),
            None => want[*k].push(n(*hist.last().unwrap_or(&INIT))),
          },
          Kind::Replay => {
            want[*k].extend(hist.iter().map(|x| n(*x)));
            want[*k].extend(term.clone());
          }
          Kind::Async => {
            if let Some(t) = &term {
              if *t == Te::C {
                want[*k].extend(hist.last().map(|x| n(*x)));
              }
              want[*k].push(t.clone());
            }
          }
        }
        if term.is_some() {
          on[*k] = false;
        }
      }
      Act::Unsub(k) => {
        on[*k] = false;
        open_question[*k] &= had[*k];
      }
      Act::Next(x) if term.is_none() => {
        hist.push(*x);
        if kind != Kind::Async {
          for k in 0..nsub {
            if on[k] {
              want[k].push(n(*x));
            }
          }
        }
      }
      Act::Err(_) | Act::Done if term.is_none() => {
        let t = if let Act::Err(c) = a { Te::E(*c) } else { Te::C };
        for k in 0..nsub {
          if on[k] {
            if kind == Kind::Async && t == Te::C {
              want[k].extend(hist.last().map(|x| n(*x)));
            }
            want[k].push(t.clone());
            on[k] = false;
          }
        }
        term = Some(t);
      }
      _ => {}
    }
    let s = &snaps[i];
    for k in 0..nsub {
      let v = tes(&w.m.of(k));
      let seen = &v[..s.seen[k]];
      if open_question[k] {
        // nothing of the past, and the contract
        if let Some(x) =
          seen.iter().find(|t| hist.iter().any(|h| n(*h) == **t))
        {
          return Some(format!(
            "observer {} of a subject received {:?}, emitted before it subscribed",
            k, x
          ));
        }
        continue;
      }
      if seen != &want[k][..] {
        return Some(format!(
          "after step {} ({:?}) observer {} has received {:?}, expected {:?}",
          i, a, k, seen, want[k]
        ));
      }
      if had[k] {
        if let Some(o) = s.open[k] {
          if o != on[k] {
            return Some(format!(
              "after step {} ({:?}) observer {}: is_subscribed() is {}",
              i, a, k, o
            ));
          }
        }
      }
    }
    if let Some(c) = s.count {
      let want = on.iter().filter(|x| **x).count();
      let slack =
        open_question.iter().filter(|x| **x).count();
      if c < want || c > want + slack {
        return Some(format!(
          "after step {} ({:?}) the subject holds {} observers, {} are subscribed",
          i, a, c, want
        ));
      }
    }
  }
  None
}

/// histories with re-entrant calls: what holds however nested deliveries are
/// ordered
fn weak(w: &World, kind: Kind, nsub: usize) -> Option<String> {
  let recs = w.recs.lock().unwrap().clone();
  let snaps = w.snaps.lock().unwrap();
  let term_b = recs
    .iter()
    .filter(|r| matches!(r.act, Act::Err(_) | Act::Done))
    .map(|r| r.b)
    .min()
    .unwrap_or(u64::MAX);
  let nexts: Vec<&Rec> =
    recs.iter().filter(|r| matches!(r.act, Act::Next(_))).collect();
  let val = |r: &Rec| if let Act::Next(x) = r.act { x } else { 0 };
  for k in 0..nsub {
    let v = w.m.of(k);
    let got = items(&v);
    let t: Vec<Te> = ends(&v).iter().map(|c| c.te.clone()).collect();
    if t.len() > 1 {
      return Some(format!("observer {} observed terminals {:?}", k, t));
    }
    if let Some(f) = mt_contract(&v) {
      return Some(f);
    }
    let mut d = got.clone();
    d.sort();
    if let Some(x) = d.windows(2).find(|x| x[0] == x[1]) {
      return Some(format!("observer {} received item {} twice", k, x[0]));
    }
    let Some(sub) = recs.iter().find(|r| r.act == Act::Sub(k)) else {
      if !v.is_empty() {
        return Some(format!("observer {} never subscribed", k));
      }
      continue;
    };
    let uns = recs
      .iter()
      .filter(|r| r.act == Act::Unsub(k) && r.b > sub.e)
      .map(|r| (r.b, r.e))
      .min()
      .unwrap_or((u64::MAX, u64::MAX));
    for r in &nexts {
      let x = val(r);
      let has = got.contains(&x);
      // there when the call was made, still there when it returned
      // (an item emitted from inside a delivery may be queued behind it)
      let stays = if r.nested { u64::MAX } else { uns.0 };
      let must = sub.e < r.b
        && (!r.nested || uns.0 == u64::MAX)
        && stays > r.e
        && term_b > r.e
        && kind != Kind::Async;
      if must && !has {
        return Some(format!(
          "observer {} (subscribed {}..{}) did not receive {} ({}..{})",
          k, sub.b, sub.e, x, r.b, r.e
        ));
      }
      // a queued item may overtake nobody, but it was emitted before
      if has && r.b > uns.1 {
        return Some(format!(
          "observer {} received {} emitted ({}) after its unsubscribe returned ({})",
          k, x, r.b, uns.1
        ));
      }
      if has && r.e < sub.b && kind == Kind::Plain {
        return Some(format!(
          "observer {} (subscribed at {}) received {}, whose call was over at {}",
          k, sub.b, x, r.e
        ));
      }
      if has && r.b > term_b && kind != Kind::Plain {
        // terminated meanwhile
        return Some(format!(
          "observer {} received {} emitted after the subject's terminal",
          k, x
        ));
      }
    }
    let quiet = uns.0 == u64::MAX;
    if quiet && !sub.nested && term_b > sub.e {
      // nothing else was under way when it subscribed
      let before: Vec<i64> = nexts
        .iter()
        .filter(|r| r.b < sub.b)
        .map(|r| val(r))
        .collect();
      match kind {
        Kind::Replay => {
          if !got.starts_with(&before) {
            return Some(format!(
              "observer {} joined after {:?} and received {:?}",
              k, before, got
            ));
          }
        }
        Kind::Behavior => {
          let want = *before.last().unwrap_or(&INIT);
          if got.first() != Some(&want) {
            return Some(format!(
              "observer {} joined after {:?} and received {:?}",
              k, before, got
            ));
          }
        }
        _ => {}
      }
    }
    if quiet && kind == Kind::Replay {
      for r in &nexts {
        if term_b > r.e && !got.contains(&val(r)) {
          return Some(format!(
            "observer {} of a replay subject never received {}",
            k, val(r)
          ));
        }
      }
    }
    // the terminal of a subject reaches whoever was there
    let late_plain = kind == Kind::Plain && sub.e > term_b;
    if quiet && term_b != u64::MAX && !late_plain && t.is_empty() {
      return Some(format!("observer {} did not receive the terminal", k));
    }
    if let (Kind::Async, Some(Te::C), true) = (kind, t.first(), quiet) {
      let before: Vec<i64> = nexts
        .iter()
        .filter(|r| r.b < term_b)
        .map(|r| val(r))
        .collect();
      let want: Vec<i64> = before.last().copied().into_iter().collect();
      if got != want {
        return Some(format!(
          "observer {} of an async subject received {:?}, the items were {:?}",
          k, got, before
        ));
      }
    }
    if kind == Kind::Async {
      if let Some(c) = v.iter().find(|c| c.b < term_b) {
        return Some(format!(
          "observer {} of an async subject received {:?} before it terminated",
          k, c.te
        ));
      }
    }
  }
  // whoever left or was told the end is no longer held
  if let Some(s) = snaps.last() {
    if let Some(c) = s.count {
      let open = s.open.iter().filter(|o| **o == Some(true)).count();
      if c > open {
        return Some(format!(
          "the subject holds {} observers, {} are subscribed",
          c, open
        ));
      }
    }
  }
  None
}
