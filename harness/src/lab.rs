//! Sources the concurrent workloads play with: their subscriptions and
//! emissions are logged.
use crate::conc::*;
use crate::val::*;
use another_rxrust::prelude::*;
use std::sync::{Arc, Mutex};
use vrt::rng::Rng;
use vrt::rt;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum End {
  C,
  E,
  Open,
}
pub const ERR: i64 = 71;
impl End {
  pub fn te(self) -> Option<Te> {
    match self {
      End::C => Some(Te::C),
      End::E => Some(Te::E(ERR)),
      End::Open => None,
    }
  }
}

/// items (with a virtual nap before each) and an ending
#[derive(Clone, Debug)]
pub struct Play {
  pub items: Vec<(u64, i64)>,
  pub end: End,
}
impl Play {
  pub fn gen(r: &mut Rng, p: usize, n: usize, naps: u32, end: End) -> Play {
    Play {
      items: (0..n)
        .map(|k| {
          let d = if r.chance(naps) { 1 + r.below(3) as u64 } else { 0 };
          (d, uid(p, k))
        })
        .collect(),
      end,
    }
  }
  pub fn keys(&self) -> Vec<i64> {
    self.items.iter().map(|x| x.1).collect()
  }
  pub fn tes(&self) -> Vec<Te> {
    let mut v: Vec<Te> =
      self.items.iter().map(|x| Te::N(Tv::I(x.1))).collect();
    v.extend(self.end.te());
    v
  }
}

/// an observer a source was handed
#[derive(Clone)]
pub struct Held {
  pub src: usize,
  /// (a subject's own observers are not handed out)
  pub obs: Option<Observer<'static, i64>>,
  pub tid: usize,
  pub t: u64,
  /// observers of this source still subscribed when this one arrived
  pub live_before: usize,
}
#[derive(Clone, Default)]
pub struct Probe(pub Arc<Mutex<Vec<Held>>>);
impl Held {
  pub fn live(&self) -> bool {
    self.obs.as_ref().map(|o| o.is_subscribed()).unwrap_or(false)
  }
}
impl Probe {
  /// a subject's observable that logs its subscriptions
  pub fn hot(
    &self,
    m: &M,
    src: usize,
    s: &subjects::Subject<'static, i64>,
  ) -> Ob<i64> {
    let (m, pr, s) = (m.clone(), self.clone(), s.clone());
    observables::defer(move || {
      pr.0.lock().unwrap().push(Held {
        src,
        obs: None,
        tid: rt::tid(),
        t: m.tick(),
        live_before: 0,
      });
      s.observable()
    })
  }
  pub fn arrive(&self, m: &M, src: usize, s: &Observer<'static, i64>) {
    let t = m.tick();
    // not under our own mutex: is_subscribed takes the library's locks
    let before: Vec<_> = self.of(src);
    let live = before.iter().filter(|h| h.live()).count();
    // (one that ended before it got here holds nothing)
    let live = if s.is_subscribed() { live } else { 0 };
    self.0.lock().unwrap().push(Held {
      src,
      obs: Some(s.clone()),
      tid: rt::tid(),
      t,
      live_before: live,
    });
  }
  pub fn of(&self, src: usize) -> Vec<Held> {
    let l = self.0.lock().unwrap();
    l.iter().filter(|h| h.src == src).cloned().collect()
  }
  pub fn all(&self) -> Vec<Held> {
    self.0.lock().unwrap().clone()
  }
  pub fn live(&self, src: usize) -> usize {
    self.of(src).iter().filter(|h| h.live()).count()
  }
}

/// plays to an observer; stops as soon as it is no longer subscribed
pub fn play(m: &M, src: usize, p: &Play, s: &Observer<'static, i64>) {
  for (d, x) in &p.items {
    if *d > 0 {
      nap(*d);
    }
    if !s.is_subscribed() {
      return;
    }
    m.put(src, Te::N(Tv::I(*x)), || s.next(*x));
  }
  match p.end {
    End::C => m.put(src, Te::C, || s.complete()),
    End::E => m.put(src, Te::E(ERR), || s.error(mk_err(ERR, None))),
    End::Open => {}
  }
}
/// plays into a subject
pub fn play_subject(
  m: &M,
  src: usize,
  p: &Play,
  s: &subjects::Subject<'static, i64>,
) {
  for (d, x) in &p.items {
    if *d > 0 {
      nap(*d);
    }
    m.put(src, Te::N(Tv::I(*x)), || s.next(*x));
  }
  match p.end {
    End::C => m.put(src, Te::C, || s.complete()),
    End::E => m.put(src, Te::E(ERR), || s.error(mk_err(ERR, None))),
    End::Open => {}
  }
}

/// emits on the subscribing thread
pub fn cold(m: &M, pr: &Probe, src: usize, p: Play) -> Ob<i64> {
  let (m, pr) = (m.clone(), pr.clone());
  Observable::create(move |s| {
    pr.arrive(&m, src, &s);
    play(&m, src, &p, &s);
  })
}
/// emits on a thread of its own, one per subscription
pub fn threaded(m: &M, pr: &Probe, src: usize, p: Play) -> Ob<i64> {
  let (m, pr) = (m.clone(), pr.clone());
  Observable::create(move |s| {
    pr.arrive(&m, src, &s);
    let (m, p) = (m.clone(), p.clone());
    go(move || play(&m, src, &p, &s));
  })
}
/// emits 0,1,2,... (one per millisecond) until nobody listens
pub fn endless(m: &M, pr: &Probe, src: usize, spawn: bool) -> Ob<i64> {
  let (m, pr) = (m.clone(), pr.clone());
  Observable::create(move |s| {
    pr.arrive(&m, src, &s);
    let m = m.clone();
    let f = move || {
      let mut n = 0;
      while s.is_subscribed() {
        let x = uid(src, n);
        m.put(src, Te::N(Tv::I(x)), || s.next(x));
        n += 1;
        nap(1);
      }
    };
    if spawn {
      go(f);
    } else {
      f();
    }
  })
}

/// the recorded values of one subscriber
pub fn tes(v: &[Call]) -> Vec<Te> {
  v.iter().map(|c| c.te.clone()).collect()
}
pub fn is_prefix(a: &[Te], b: &[Te]) -> bool {
  a.len() <= b.len() && a == &b[..a.len()]
}
/// what each of `np` producers contributed, in order of arrival
pub fn by_producer(v: &[i64], np: usize) -> Vec<Vec<i64>> {
  let mut o = vec![Vec::new(); np];
  for x in v.iter().filter(|x| **x >= 1000) {
    let p = producer(*x);
    if p < np {
      o[p].push(*x);
    }
  }
  o
}
pub fn finish(
  rep: vrt::rt::Report,
  m: &M,
  judge: impl FnOnce() -> Option<String>,
) -> Exec {
  let verdict = if stuck(&rep).is_some() {
    None
  } else {
    m.first_note().or_else(judge)
  };
  Exec { rep, verdict, events: m.len(), sample: m.show() }
}
