//! C05: subscriptions made by Subscription::new and by sources of every sort,
//! with handles shared between threads, clones and guards.
use crate::conc::*;
use crate::lab::*;
use crate::val::*;
use another_rxrust::prelude::*;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use vrt::rng::Rng;

#[derive(Clone, Copy, Debug, PartialEq)]
enum How {
  Call,
  Twice,
  Guard,
  /// two guards on clones
  Guards,
  /// a guard whose handle was used by hand before
  Late,
}
fn end_by(s: &Sub, h: How) {
  match h {
    How::Call => s.unsubscribe(),
    How::Twice => {
      s.unsubscribe();
      s.unsubscribe();
    }
    How::Guard => drop(utils::Using::new(s.clone())),
    How::Guards => {
      let a = utils::Using::new(s.clone());
      let b = utils::Using::new(s.clone());
      drop(a);
      drop(b);
    }
    How::Late => {
      let g = utils::Using::new(s.clone());
      s.unsubscribe();
      drop(g);
    }
  }
}

#[derive(Clone, Debug)]
enum Src {
  Own,
  /// Subscription::new whose second closure says this whatever happens
  Says(bool),
  Never,
  Hot,
  Interval(u64),
  Observed,
}

pub fn scenario(r: &mut Rng) -> Scen {
  let s = match r.below(8) {
    0 | 1 => Src::Own,
    6 | 7 => Src::Says(true),
    2 => Src::Never,
    3 => Src::Hot,
    4 => Src::Interval(1 + r.below(3) as u64),
    _ => Src::Observed,
  };
  let hows = [How::Call, How::Twice, How::Guard, How::Guards, How::Late];
  let nt = 1 + r.below(3);
  let th: Vec<(u64, How)> =
    (0..nt).map(|_| (r.below(3) as u64, *r.pick(&hows))).collect();
  let nested = r.chance(300);
  let term = if matches!(s, Src::Hot | Src::Observed) && r.chance(300) {
    if r.chance(500) {
      End::C
    } else {
      End::E
    }
  } else {
    End::Open
  };
  let n = r.below(5);
  let desc = format!(
    "{:?}, ended by {:?} (after a nap), nested {}, source emits {} then {:?}",
    s, th, nested, n, term
  );
  let mut sc = Scen::new(
    desc,
    vec!["handles"],
    Box::new(move |cfg| {
      let m = Mon::new();
      let out: Arc<Mutex<Vec<String>>> = Arc::default();
      let (s, th, m2) = (s.clone(), th.clone(), m.clone());
      let (rep, out) = run(cfg, out, move |out| {
        let bad = |x: String| out.lock().unwrap().push(x);
        let runs = Arc::new(AtomicUsize::new(0));
        let open = Arc::new(AtomicBool::new(true));
        let slot: Arc<Mutex<Option<Sub>>> = Arc::default();
        let hot = subjects::Subject::new();
        let nw = schedulers::new_thread_scheduler;
        let sub: Sub = match &s {
          Src::Own | Src::Says(_) => {
            let says = if let Src::Says(b) = s { Some(b) } else { None };
            let (n, o, sl, m) =
              (runs.clone(), open.clone(), slot.clone(), m2.clone());
            let o2 = open.clone();
            Subscription::new(
              move || {
                m.call(0, Te::C, || {});
                n.fetch_add(1, SeqCst);
                o.store(false, SeqCst);
                if nested {
                  let s = sl.lock().unwrap().clone();
                  if let Some(s) = s {
                    s.unsubscribe();
                  }
                }
              },
              move || says.unwrap_or(o2.load(SeqCst)),
            )
          }
          Src::Never => watch(&m2, &observables::never(), 0, itv, idle),
          Src::Hot => watch(&m2, &hot.observable(), 0, itv, idle),
          Src::Observed => {
            watch(&m2, &hot.observable().observe_on(nw()), 0, itv, idle)
          }
          Src::Interval(d) => watch(
            &m2,
            &observables::interval(ms(*d), nw()).map(|x| x as i64),
            0,
            itv,
            idle,
          ),
        };
        *slot.lock().unwrap() = Some(sub.clone());
        let own = matches!(s, Src::Own | Src::Says(_));
        let said = matches!(s, Src::Says(_));
        if !said && !sub.is_subscribed() {
          bad("is_subscribed() is false right after subscribe".into());
        }
        let mut hs = Vec::new();
        for (d, h) in &th {
          let (d, h, sub) = (*d, *h, sub.clone());
          hs.push(go(move || {
            if d > 0 {
              nap(d);
            }
            end_by(&sub, h);
          }));
        }
        if n > 0 || term != End::Open {
          let (h, m) = (hot.clone(), m2.clone());
          let p = Play {
            items: (0..n).map(|k| ((k % 2) as u64, uid(0, k))).collect(),
            end: term,
          };
          hs.push(go(move || play_subject(&m, 0, &p, &h)));
        }
        join_all(hs);
        // every unsubscribe has returned; what was queued may still come
        settle(20);
        for k in 0..2 {
          if !said && sub.is_subscribed() {
            bad(format!(
              "is_subscribed() is true after unsubscribe had returned ({})",
              k
            ));
          }
          let before = m2.len();
          hot.next(9999);
          settle(20);
          if m2.len() != before && !own {
            bad("a callback ran after unsubscribe had returned".into());
          }
          // no effect any more
          sub.unsubscribe();
          drop(utils::Using::new(sub.clone()));
        }
        let k = runs.load(SeqCst);
        if own && k != 1 {
          bad(format!("the unsubscribe function ran {} times", k));
        }
      });
      finish(rep, &m, || {
        if let Some(b) = out.lock().unwrap().first() {
          return Some(b.clone());
        }
        let v = m.of(0);
        mt_contract(&v)
      })
    }),
  );
  sc.budget = Budget {
    bases: 1,
    sweep: 30,
    two: 10,
    random: 10,
    lazy: true,
    spurious: true,
  };
  sc
}
