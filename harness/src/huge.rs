//! Thousands of items, hundreds of participants: limits that small workloads
//! never reach.  One pipeline, a plain list as oracle.
use crate::conc::*;
use crate::val::*;
use another_rxrust::prelude::*;
use scheduler::IScheduler;
use std::sync::atomic::{AtomicI64, AtomicUsize, Ordering::Relaxed};
use std::sync::{Arc, Mutex};
use vrt::rng::Rng;
use vrt::rt;

#[derive(Clone, Default)]
struct Rec {
  it: Arc<Mutex<Vec<i64>>>,
  end: Arc<Mutex<Vec<Te>>>,
  ids: Arc<Mutex<Vec<u64>>>,
}
impl Rec {
  fn to(&self, o: &Ob<i64>) -> Sub {
    self.slow(o, 0)
  }
  /// takes `d` ms for the first item
  fn slow(&self, o: &Ob<i64>, d: u64) -> Sub {
    let (a, b, c) = (self.it.clone(), self.end.clone(), self.end.clone());
    let ids = self.ids.clone();
    o.subscribe(
      move |x| {
        let first = {
          let mut a = a.lock().unwrap();
          a.push(x);
          a.len() == 1
        };
        if first && d > 0 {
          nap(d);
        }
      },
      move |e| {
        ids.lock().unwrap().push(pay_id(&e));
        b.lock().unwrap().push(Te::E(code_of(&e)))
      },
      move || c.lock().unwrap().push(Te::C),
    )
  }
  fn items(&self) -> Vec<i64> {
    self.it.lock().unwrap().clone()
  }
  /// ended once, by that very payload
  fn failed(&self, what: &str, w: &[i64], code: i64, id: u64) -> Option<String> {
    self.want(what, w, Some(Te::E(code))).or_else(|| {
      let g = self.ids.lock().unwrap().clone();
      if g != [id] {
        Some(format!("{}: not the payload that was raised", what))
      } else {
        None
      }
    })
  }
  fn want(&self, what: &str, w: &[i64], end: Option<Te>) -> Option<String> {
    differ(what, &self.items(), w).or_else(|| {
      let e = self.end.lock().unwrap().clone();
      if e.as_slice() != end.as_slice() {
        Some(format!("{}: ended with {:?}, expected {:?}", what, e, end))
      } else {
        None
      }
    })
  }
}
fn differ(what: &str, g: &[i64], w: &[i64]) -> Option<String> {
  if g == w {
    return None;
  }
  let i = g.iter().zip(w.iter()).take_while(|(a, b)| a == b).count();
  let at = |v: &[i64]| v.iter().skip(i).take(3).copied().collect::<Vec<_>>();
  Some(format!(
    "{}: {} items received, {} expected; from item {} on {:?}.. instead of {:?}..",
    what,
    g.len(),
    w.len(),
    i,
    at(g),
    at(w)
  ))
}
/// the same items, each producer's in its order
fn shuffled(what: &str, g: &[i64], parts: &[Vec<i64>]) -> Option<String> {
  let mut rest = 0;
  for p in parts {
    let (a, z) = (p[0], p[p.len() - 1]);
    let mine: Vec<i64> =
      g.iter().copied().filter(|x| *x >= a && *x <= z).collect();
    rest += mine.len();
    let d = differ(what, &mine, p);
    if d.is_some() {
      return d;
    }
  }
  if rest != g.len() {
    return Some(format!("{}: {} items nobody emitted", what, g.len() - rest));
  }
  None
}

fn cold(v: Vec<i64>, e: Option<Te>) -> Ob<i64> {
  Observable::create(move |s: Observer<'static, i64>| {
    for x in &v {
      if !s.is_subscribed() {
        return;
      }
      s.next(*x);
    }
    match &e {
      Some(Te::C) => s.complete(),
      Some(Te::E(c)) => s.error(mk_err(*c, None)),
      _ => {}
    }
  })
}
fn nt() -> impl Fn() -> schedulers::NewThreadScheduler<'static>
     + Send
     + Sync
     + Clone
     + 'static {
  schedulers::new_thread_scheduler()
}
fn finish(s: &subjects::Subject<'static, i64>, e: &Te) {
  match e {
    Te::E(c) => s.error(mk_err(*c, None)),
    _ => s.complete(),
  }
}

/// pass everything they receive (as long as the items are distinct)
fn passers() -> Vec<fn(Ob<i64>) -> Ob<i64>> {
  vec![
    |o| o,
    |o| o.map(|x| x),
    |o| o.filter(|_| true),
    |o| o.skip(0),
    |o| o.take(1000),
    |o| o.take_while(|_| true),
    |o| o.skip_while(|_| false),
    |o| o.distinct_until_changed(),
    |o| o.tap(|_| {}, |_| {}, || {}),
    |o| o.merge(&[observables::never()]),
    |o| o.amb(&[observables::never()]),
    |o| o.concat(&[observables::never()]),
    |o| o.retry(1),
    |o| o.retry_when(|_| false),
    |o| o.take_until(observables::never::<i64>()),
    |o| o.switch_on_next(observables::never()),
    |o| o.default_if_empty(9),
    |o| o.materialize().dematerialize(),
    |o| o.on_error_resume_next(observables::error),
    |o| o.flat_map(observables::just),
    |o| o.scan(|(_, x)| x),
    |o| o.map(|x| vec![x]).map(|x| x[0]),
    |o| o.ref_count().observable(),
    |o| o.group_by(|x| x).flat_map(|g| g),
    |o| o.window_with_count(1).flat_map(|g| g),
    |o| observables::range(0, 1000).zip(&[o]).map(|x| x[1]),
    |o| observables::just(0).combine_latest(&[o], |x| x[1]),
    |o| o.map_to_any().map(|x| *x.downcast_ref::<i64>().unwrap()),
  ]
}

type Body = Box<dyn FnMut() -> Option<String>>;

pub fn scenario(prop: &str, r: &mut Rng) -> Scen {
  let n = match r.below(4) {
    0 => 300 + r.below(700),
    1 => 1000 + r.below(1200),
    _ => 2000 + r.below(3200),
  };
  // past what 16 bits count
  let vast = matches!(prop, "C02" | "C08" | "C10" | "C16") && r.chance(50);
  let n = if vast { 65_600 + r.below(3000) } else { n };
  let (desc, body) = pick(prop, n, r);
  let body = Arc::new(Mutex::new(body));
  let mut sc = Scen::new(
    desc,
    vec!["huge"],
    Box::new(move |cfg| {
      let out: Arc<Mutex<Option<Option<String>>>> = Arc::default();
      let body = body.clone();
      struct S(Arc<Mutex<Body>>);
      unsafe impl Send for S {}
      let b = S(body);
      let (rep, out) = run(cfg, out, move |o| {
        let b = b;
        // (one logical thread at a time runs a body)
        let mut f = std::mem::replace(
          &mut *b.0.lock().unwrap(),
          Box::new(|| None),
        );
        let v = f();
        *b.0.lock().unwrap() = f;
        *o.lock().unwrap() = Some(v);
      });
      let v = out.lock().unwrap().clone();
      let verdict = match v {
        Some(v) if stuck(&rep).is_none() => v,
        _ => None,
      };
      Exec { rep, verdict, events: n, sample: format!("{} items", n) }
    }),
  );
  sc.budget = Budget { bases: 1, sweep: 0, two: 0, random: if vast { 0 } else { 2 }, ..NORMAL };
  sc.max_steps = 200_000_000;
  sc.patience = 2_000_000;
  sc
}

/// seconds to days, in ms
fn far(r: &mut Rng) -> u64 {
  let top = *r.pick(&[2_000, 20_000, 100_000, 1_000_000, 10_000_000, 100_000_000]);
  1 + r.below(top) as u64
}

fn range(a: i64, n: usize) -> Vec<i64> {
  (a..a + n as i64).collect()
}

fn pick(prop: &str, n: usize, r: &mut Rng) -> (String, Body) {
  let v = range(1, n);
  let k = 1 + r.below(n);
  let end = if r.chance(300) { Te::E(71) } else { Te::C };
  let e = Some(end.clone());
  let many = 200 + r.below(200);
  macro_rules! one {
    ($s:expr, $b:expr) => {
      (format!("{} (n={} k={} {:?})", $s, n, k, end), Box::new($b) as Body)
    };
  }
  match prop {
    // the ends of the number range
    "C02" if r.chance(60) => {
      let len = r.below(6) as i64;
      let (a, c) = match r.below(5) {
        0 => (i64::MAX - len, len + r.range(0, 1)),
        1 => (i64::MIN + r.range(0, 2), len),
        2 => (-r.range(0, 9), len),
        3 => (i64::MAX - r.range(0, 900), -len),
        _ => (r.range(-9, 9), -r.range(0, 3)),
      };
      let again = r.chance(300);
      one!(format!("range({}, {})", a, c), move || {
        let w: Vec<i64> = (0..c.max(0)).map(|k| a + k).collect();
        let o = observables::range(a, c);
        let o = if again { o.map(|x| x) } else { o };
        for _ in 0..2 {
          let rec = Rec::default();
          let _s = rec.to(&o);
          let f = rec.want("range", &w, Some(Te::C));
          if f.is_some() {
            return f;
          }
        }
        None
      })
    }
    "C02" => {
      let c = Some(Te::C);
      let list = |f: fn(Ob<i64>, usize) -> Ob<i64>,
                  w: fn(&[i64], usize) -> Vec<i64>,
                  s: &'static str,
                  full: bool| {
        let (v, e) = (v.clone(), if full { e.clone() } else { c.clone() });
        one!(s, move || {
          let rec = Rec::default();
          let _s = rec.to(&f(cold(v.clone(), e.clone()), k));
          rec.want(s, &w(&v, k), e.clone())
        })
      };
      match r.below(22) {
        0 => list(|o, k| o.take(k), |v, k| v[..k].to_vec(), "take", false),
        1 => list(|o, k| o.skip(k), |v, k| v[k..].to_vec(), "skip", true),
        2 => list(
          |o, k| o.take_last(k),
          |v, k| v[v.len() - k..].to_vec(),
          "take_last",
          false,
        ),
        3 => list(
          |o, k| o.skip_last(k),
          |v, k| v[..v.len() - k].to_vec(),
          "skip_last",
          true,
        ),
        4 => list(|o, k| o.element_at(k), |v, k| vec![v[k - 1]], "element_at", false),
        5 => list(
          |o, k| {
            o.buffer_with_count(k).map(|b: Vec<i64>| {
              b.iter().fold(7, |a: i64, x| (a * 31 + x) % 1_000_003)
            })
          },
          |v, k| {
            v.chunks(k)
              .map(|b| b.iter().fold(7, |a: i64, x| (a * 31 + x) % 1_000_003))
              .collect()
          },
          "buffer_with_count",
          false,
        ),
        6 => list(
          |o, k| o.window_with_count(k).flat_map(|w| w),
          |v, _| v.to_vec(),
          "window_with_count + flat_map",
          true,
        ),
        7 => list(
          |o, k| o.window_with_count(k).map(|_| 1).count().map(|c| c as i64),
          |v, k| vec![v.chunks(k).count() as i64],
          "number of windows",
          false,
        ),
        8 => list(
          |o, k| o.group_by(move |x| x % k as i64).flat_map(|g| g),
          |v, _| v.to_vec(),
          "group_by + flat_map",
          true,
        ),
        9 => list(
          |o, k| {
            o.group_by(move |x| x % k as i64).map(|_| 1).count().map(|c| c as i64)
          },
          |_, k| vec![k as i64],
          "number of groups",
          false,
        ),
        10 => list(
          |o, _| o.scan(|(a, b)| (a * 3 + b) % 100_003),
          |v, _| {
            let mut a = v[0];
            let mut w = vec![a];
            for x in &v[1..] {
              a = (a * 3 + x) % 100_003;
              w.push(a);
            }
            w
          },
          "scan",
          true,
        ),
        11 => list(
          |o, _| o.reduce(|(a, b)| (a * 3 + b) % 100_003),
          |v, _| vec![v[1..].iter().fold(v[0], |a, b| (a * 3 + b) % 100_003)],
          "reduce",
          false,
        ),
        12 => list(
          |o, _| o.count().map(|c| c as i64),
          |v, _| vec![v.len() as i64],
          "count",
          false,
        ),
        13 => list(|o, _| o.sum(), |v, _| vec![v.iter().sum()], "sum", false),
        14 => list(|o, _| o.max(), |v, _| vec![v[v.len() - 1]], "max", false),
        15 => list(
          |o, k| o.map(move |x| (x - k as i64).abs()).min(),
          |_, _| vec![0],
          "min",
          false,
        ),
        16 => list(|o, _| o.last(), |v, _| vec![v[v.len() - 1]], "last", false),
        17 => list(
          |o, k| o.contains(k as i64).map(|b| b as i64),
          |_, _| vec![1],
          "contains",
          false,
        ),
        18 => list(
          |o, k| o.all(move |x| x <= k as i64).map(|b| b as i64),
          |v, k| vec![(k == v.len()) as i64],
          "all",
          false,
        ),
        19 => list(
          |o, k| o.map(move |x| x / k as i64).distinct_until_changed(),
          |v, k| (v[0] / k as i64..=v[v.len() - 1] / k as i64).collect(),
          "distinct_until_changed",
          true,
        ),
        20 => list(
          |o, k| o.start_with((0..k as i64).map(|x| -x)),
          |v, k| (0..k as i64).map(|x| -x).chain(v.iter().copied()).collect(),
          "start_with",
          true,
        ),
        _ => list(
          |o, k| {
            o.skip_while(move |x| x < k as i64)
              .take_while(move |x| x < 2 * k as i64)
          },
          |v, k| {
            v.iter()
              .copied()
              .filter(|x| *x >= k as i64 && *x < 2 * k as i64)
              .collect()
          },
          "skip_while + take_while",
          false,
        ),
      }
    }
    "C03" => match r.below(9) {
      7 | 8 => {
        // the first input outlives thousands of others
        let comb = r.chance(500);
        let m = if r.chance(30) { 66_000 } else { n };
        one!(
          format!("{} short inputs of flat_map beside a long one, merged {}", m, comb),
          move || {
            let long = subjects::Subject::<i64>::new();
            let trig = subjects::Subject::<i64>::new();
            let l = long.clone();
            let o = trig.observable().flat_map(move |x| {
              if x == 0 { l.observable() } else { observables::just(x) }
            });
            let o = if comb { o.merge(&[observables::never()]) } else { o };
            let rec = Rec::default();
            let _s = rec.to(&o);
            let mut w = Vec::new();
            for x in 0..m as i64 {
              trig.next(x);
              if x > 0 {
                w.push(x);
              }
              if x % 1000 == 255 || x + 1 == m as i64 {
                long.next(-x);
                w.push(-x);
              }
            }
            trig.complete();
            long.next(-1);
            w.push(-1);
            long.complete();
            rec.want("flat_map", &w, if comb { None } else { Some(Te::C) })
          }
        )
      }
      0 => one!("zip, one input far ahead", move || {
        let (a, b) = (subjects::Subject::new(), subjects::Subject::new());
        let rec = Rec::default();
        let o = a.observable().zip(&[b.observable()]);
        let _s = rec.to(&o.map(|x: Vec<i64>| x[0] * 1_000_000 + x[1]));
        v.iter().for_each(|x| a.next(*x));
        v.iter().for_each(|x| b.next(*x + 1));
        b.complete();
        a.complete();
        let w: Vec<i64> = v.iter().map(|x| x * 1_000_000 + x + 1).collect();
        rec.want("zip", &w, Some(Te::C))
      }),
      1 => one!("sequence_equal, one input far ahead", move || {
        for odd in [false, true] {
          let (a, b) = (subjects::Subject::new(), subjects::Subject::new());
          let rec = Rec::default();
          let o = a.observable().sequence_equal(&[b.observable()]);
          let _s = rec.to(&o.map(|x| x as i64));
          v.iter().for_each(|x| a.next(*x));
          v.iter()
            .for_each(|x| b.next(if odd && *x == k as i64 { -1 } else { *x }));
          b.complete();
          a.complete();
          let f = rec.want("sequence_equal", &[!odd as i64], Some(Te::C));
          if f.is_some() {
            return f;
          }
        }
        None
      }),
      2 => one!(format!("concat of {} sources", many), move || {
        let os: Vec<_> = (0..many)
          .map(|i| observables::just(i as i64))
          .collect();
        let rec = Rec::default();
        let _s = rec.to(&cold(v.clone(), Some(Te::C)).concat(&os));
        let mut w = v.clone();
        w.extend(range(0, many));
        rec.want("concat", &w, Some(Te::C))
      }),
      3 => one!(format!("merge of {} hot sources", many), move || {
        let ss: Vec<_> =
          (0..many).map(|_| subjects::Subject::<i64>::new()).collect();
        let os: Vec<_> = ss[1..].iter().map(|s| s.observable()).collect();
        let rec = Rec::default();
        let _s = rec.to(&ss[0].observable().merge(&os));
        let mut w = Vec::new();
        for (i, s) in ss.iter().enumerate() {
          s.next(i as i64);
          w.push(i as i64);
        }
        for s in ss.iter().rev() {
          s.next(-5);
          s.complete();
          w.push(-5);
        }
        rec.want("merge", &w, Some(Te::C))
      }),
      4 => one!("flat_map", move || {
        let rec = Rec::default();
        let o = cold(v.clone(), e.clone()).flat_map(|x| observables::just(-x));
        let _s = rec.to(&o);
        let w: Vec<i64> = v.iter().map(|x| -x).collect();
        rec.want("flat_map", &w, e.clone())
      }),
      5 => one!(format!("combine_latest of {} sources", 2 + many % 7), move || {
        let ss: Vec<_> =
          (0..2 + many % 7).map(|_| subjects::Subject::<i64>::new()).collect();
        let os: Vec<_> = ss[1..].iter().map(|s| s.observable()).collect();
        let rec = Rec::default();
        let o = ss[0].observable().combine_latest(&os, |x| x.iter().sum());
        let _s = rec.to(&o);
        let mut last = vec![None; ss.len()];
        let mut w = Vec::new();
        for x in &v {
          let i = (*x as usize) % ss.len();
          ss[i].next(*x);
          last[i] = Some(*x);
          if last.iter().all(|x| x.is_some()) {
            w.push(last.iter().map(|x| x.unwrap()).sum::<i64>());
          }
        }
        rec.want("combine_latest", &w, None)
      }),
      _ => one!("take_until / skip_until", move || {
        let (a, t) = (subjects::Subject::new(), subjects::Subject::new());
        let (x, y) = (Rec::default(), Rec::default());
        let _s = x.to(&a.observable().take_until(t.observable()));
        let _t = y.to(&a.observable().skip_until(t.observable()));
        for i in &v {
          if *i == k as i64 {
            t.next(0);
          }
          a.next(*i);
        }
        a.complete();
        x.want("take_until", &v[..k - 1], Some(Te::C))
          .or(y.want("skip_until", &v[k - 1..], Some(Te::C)))
      }),
    },
    "C04" if r.chance(150) => one!("payloads of many types", move || {
      macro_rules! through {
        ($($x:expr, $t:ty;)*) => {{
          let mut out: Option<String> = None;
          $(for (i, o) in passers().into_iter().enumerate() {
            let src: Ob<i64> = Observable::create(|s: Observer<'static, i64>| {
              s.next(1);
              s.error($x);
            });
            let n = Arc::new(Mutex::new(Vec::new()));
            let (n1, n2, n3) = (n.clone(), n.clone(), n.clone());
            let want: RxError = $x;
            let _s = o(src).subscribe(
              move |x| n1.lock().unwrap().push(format!("{}", x)),
              move |e| n2.lock().unwrap().push(match e.downcast_ref::<$t>() {
                Some(x) if e.is::<$t>() => format!("{:?}", x),
                _ => format!("{:?}, no longer a {}", e, stringify!($t)),
              }),
              move || n3.lock().unwrap().push("complete".into()),
            );
            let w = ["1".to_string(), format!("{:?}", want.downcast_ref::<$t>().unwrap())];
            let g = n.lock().unwrap().clone();
            if g != w && out.is_none() {
              out = Some(format!("operator {} over [1, error({:?})]: received {:?}", i, want, g));
            }
          })*
          out
        }};
      }
      type Res<E> = Result<i32, E>;
      through!(
        RxError::from_error("text"), &str;
        RxError::from_error(String::new()), String;
        RxError::from_result(Res::<String>::Err("text".to_string())), String;
        RxError::from_error(0i32), i32;
        RxError::from_result(Res::<i64>::Err(-1)), i64;
        RxError::from_error(()), ();
        RxError::from_result(Res::<()>::Err(())), ();
        RxError::from_error(vec![1u8; 3]), Vec<u8>;
        RxError::from_error(Some("x")), Option<&str>;
        RxError::from_error(Box::new(5u64)), Box<u64>;
        RxError::from_error(Arc::new(5u64)), Arc<u64>;
        RxError::from_error(RxError::from_error(3i32).to_string()), String;
        RxError::from_error(std::io::Error::from(std::io::ErrorKind::TimedOut)), std::io::Error;
        RxError::from_result(Res::<std::io::Error>::Err(std::io::Error::from(std::io::ErrorKind::NotFound))), std::io::Error;
        RxError::from_result(Res::<std::num::ParseIntError>::Err("x".parse::<i64>().unwrap_err())), std::num::ParseIntError;
      )
    }),
    "C04" if r.chance(350) => {
      let kind = r.below(6);
      one!(
        format!(
          "an error through {} to {} observers",
          ["Subject", "BehaviorSubject", "ReplaySubject", "AsyncSubject", "publish", "ref_count"][kind],
          many
        ),
        move || {
          let recs: Vec<Rec> = (0..many).map(|_| Rec::default()).collect();
          let ops = passers();
          let err = mk_err(n as i64, None);
          let id = pay_id(&err);
          let mut first = Vec::new();
          macro_rules! all {
            ($o:expr) => {
              for (i, r) in recs.iter().enumerate() {
                let _ = r.to(&ops[i % ops.len()]($o));
              }
            };
          }
          macro_rules! with {
            ($s:expr) => {{
              let s = $s;
              all!(s.observable());
              s.next(1);
              s.error(err.clone());
            }};
          }
          match kind {
            0 => with!(subjects::Subject::<i64>::new()),
            1 => {
              first.push(-1);
              with!(subjects::BehaviorSubject::<i64>::new(-1))
            }
            2 => with!(subjects::ReplaySubject::<i64>::new()),
            3 => with!(subjects::AsyncSubject::<i64>::new()),
            4 => {
              let s = subjects::Subject::<i64>::new();
              let p = s.observable().publish();
              all!(p.observable());
              let _c = p.connect();
              s.next(1);
              s.error(err.clone());
            }
            _ => {
              let s = subjects::Subject::<i64>::new();
              let p = s.observable().ref_count();
              all!(p.observable());
              s.next(1);
              s.error(err.clone());
            }
          }
          if kind != 3 {
            first.push(1);
          }
          recs.iter().enumerate().find_map(|(i, r)| {
            r.failed(&format!("observer {}", i), &first, n as i64, id)
          })
        }
      )
    }
    "C04" if r.chance(300) => {
      let p = 2 + r.below(40);
      let at = r.below(p);
      let kind = r.below(5);
      let s = ["merge", "zip", "combine_latest", "flat_map", "concat"][kind];
      one!(format!("{} of {}, {} fails", s, p, at), move || {
        let ss: Vec<_> =
          (0..p).map(|_| subjects::Subject::<i64>::new()).collect();
        let os: Vec<_> = ss[1..].iter().map(|s| s.observable()).collect();
        let o = ss[0].observable();
        let rec = Rec::default();
        let sum = |x: Vec<i64>| x.iter().sum::<i64>();
        let _s = match kind {
          0 => rec.to(&o.merge(&os)),
          1 => rec.to(&o.zip(&os).map(sum)),
          2 => rec.to(&o.combine_latest(&os, sum)),
          3 => {
            let all = ss.clone();
            rec.to(&cold(range(0, p), Some(Te::C))
              .flat_map(move |i| all[i as usize].observable()))
          }
          _ => rec.to(&o.concat(&os)),
        };
        let mut w = Vec::new();
        if kind == 4 {
          for (i, s) in ss.iter().take(at).enumerate() {
            s.next(i as i64);
            w.push(i as i64);
            s.complete();
          }
          ss[at].next(7);
          w.push(7);
        } else {
          for (i, s) in ss.iter().enumerate() {
            s.next(i as i64);
            if kind % 3 == 0 {
              w.push(i as i64);
            }
          }
          if kind % 3 != 0 {
            w.push((p * (p - 1) / 2) as i64);
          }
        }
        let err = mk_err(k as i64, None);
        let id = pay_id(&err);
        ss[at].error(err);
        ss.iter().for_each(|s| s.next(-5));
        ss[(at + 1) % p].error(mk_err(-6, None));
        rec.failed(s, &w, k as i64, id)
      })
    }
    "C04" if r.chance(200) => one!("one pipeline, failing again and again", move || {
      let src = cold(vec![1, 2], Some(Te::E(k as i64)));
      let os: Vec<_> = passers().iter().map(|o| o(src.clone())).collect();
      (0..many).find_map(|i| {
        os.iter().enumerate().find_map(|(j, o)| {
          let rec = Rec::default();
          let _s = rec.to(o);
          rec.want(
            &format!("operator {}, subscription {}", j, i),
            &[1, 2],
            Some(Te::E(k as i64)),
          )
        })
      })
    }),
    "C04" => match r.below(4) {
      0 | 1 => {
        // (an attempt nests in the one before: not too many)
        let fails = 20 + r.below(80);
        let tries = if r.chance(300) {
          0
        } else if r.chance(300) {
          fails
        } else {
          fails + 1 + r.below(3)
        };
        let when = r.chance(400);
        one!(
          format!(
            "{} attempts fail, {}",
            fails,
            if when { "retry_when".into() } else { format!("retry({})", tries) }
          ),
          move || {
            let n = Arc::new(AtomicUsize::new(0));
            let n2 = n.clone();
            let o: Ob<i64> = Observable::create(move |s: Observer<'static, i64>| {
              let i = n2.fetch_add(1, Relaxed);
              s.next(i as i64);
              if i < fails {
                s.error(mk_err(i as i64, None));
              } else {
                s.complete();
              }
            });
            let rec = Rec::default();
            let _s = if when {
              rec.to(&o.retry_when(|_| true))
            } else {
              rec.to(&o.retry(tries))
            };
            let gives_up = !when && tries != 0 && tries <= fails;
            if gives_up {
              rec.want("retry", &range(0, tries), Some(Te::E(tries as i64 - 1)))
            } else {
              rec.want("retry", &range(0, fails + 1), Some(Te::C))
            }
          }
        )
      }
      2 => one!("materialize + dematerialize", move || {
        let rec = Rec::default();
        let o = cold(v.clone(), e.clone()).materialize().dematerialize();
        let _s = rec.to(&o);
        rec.want("materialize + dematerialize", &v, e.clone())
      }),
      _ => one!("on_error_resume_next", move || {
        let rec = Rec::default();
        let v2 = v.clone();
        let o = cold(v.clone(), Some(Te::E(k as i64)))
          .on_error_resume_next(move |e| {
            cold(v2.iter().map(|x| x + code_of(&e)).collect(), Some(Te::C))
          });
        let _s = rec.to(&o);
        let mut w = v.clone();
        w.extend(v.iter().map(|x| x + k as i64));
        rec.want("on_error_resume_next", &w, Some(Te::C))
      }),
    },
    "C08" if r.chance(300) => {
      let idle: Vec<u64> = (0..1 + r.below(6)).map(|_| far(r)).collect();
      one!(format!("posts after {:?} ms of idleness", idle), move || {
        let s = schedulers::new_thread_scheduler()();
        let log: Arc<Mutex<Vec<i64>>> = Arc::default();
        for (i, d) in idle.iter().enumerate() {
          nap(*d);
          for j in 0..3 {
            let l = log.clone();
            s.post(move || l.lock().unwrap().push(3 * i as i64 + j));
          }
        }
        nap(1000);
        let g = log.lock().unwrap().clone();
        s.abort();
        settle(50);
        let a = rt::others_alive();
        differ("tasks run", &g, &range(0, 3 * idle.len())).or_else(|| {
          if a.is_empty() { None } else { Some(format!("alive after abort: {:?}", a)) }
        })
      })
    }
    "C08" => {
      let posters = 1 + r.below(3);
      let nested = r.chance(300);
      one!(
        format!(
          "{} posters while the worker is busy{}",
          posters,
          if nested { ", from a task" } else { "" }
        ),
        move || {
          let s = schedulers::new_thread_scheduler()();
          let log: Arc<Mutex<Vec<i64>>> = Arc::default();
          let parts: Vec<Vec<i64>> = (0..posters)
            .map(|p| range(1 + (p * 1_000_000) as i64, n))
            .collect();
          if nested {
            let (s2, l, part) = (s.clone(), log.clone(), parts[0].clone());
            s.post(move || {
              for x in part.iter().copied() {
                let l = l.clone();
                s2.post(move || l.lock().unwrap().push(x));
              }
            });
          } else {
            s.post(|| nap(5));
          }
          let hs = parts[nested as usize..]
            .iter()
            .cloned()
            .map(|part| {
              let (s, l) = (s.clone(), log.clone());
              go(move || {
                for x in part {
                  let l = l.clone();
                  s.post(move || l.lock().unwrap().push(x));
                }
              })
            })
            .collect();
          join_all(hs);
          settle(1000);
          s.abort();
          settle(50);
          let g = log.lock().unwrap().clone();
          shuffled("tasks run", &g, &parts)
        }
      )
    }
    "C09" if r.chance(300) => {
      let idle: Vec<u64> = (0..1 + r.below(6)).map(|_| far(r)).collect();
      let busy = if r.chance(300) { far(r) } else { 0 };
      let twice = r.chance(300);
      one!(format!("idle {:?} ms between items, first takes {}", idle, busy), move || {
        let a = subjects::Subject::new();
        let rec = Rec::default();
        let o = a.observable().observe_on(nt());
        let o = if twice { o.observe_on(nt()) } else { o };
        let _s = rec.slow(&o, busy);
        for (i, d) in idle.iter().enumerate() {
          nap(*d);
          a.next(i as i64);
        }
        nap(idle[0]);
        finish(&a, e.as_ref().unwrap());
        settle(busy + 1000);
        rec.want("observe_on", &range(0, idle.len()), e.clone())
      })
    }
    "C09" => {
      let kind = r.below(4);
      let s = ["observe_on", "subscribe_on", "observe_on twice", "hot"][kind];
      let slow = if r.chance(600) { 5 } else { 0 };
      one!(format!("{}, first item takes {} ms", s, slow), move || {
        let rec = Rec::default();
        let _s = match kind {
          0 => rec.slow(&cold(v.clone(), e.clone()).observe_on(nt()), slow),
          1 => rec.slow(&cold(v.clone(), e.clone()).subscribe_on(nt()), slow),
          2 => {
            let o = cold(v.clone(), e.clone()).observe_on(nt());
            rec.slow(&o.map(|x| x).observe_on(nt()), slow)
          }
          _ => {
            let a = subjects::Subject::new();
            let s = rec.slow(&a.observable().observe_on(nt()), slow);
            v.iter().for_each(|x| a.next(*x));
            finish(&a, e.as_ref().unwrap());
            s
          }
        };
        settle(1000);
        rec.want(s, &v, e.clone())
      })
    }
    "C10" => match r.below(5) {
      4 => {
        let kind = r.below(3);
        one!(
          format!("an observer of {} outlives thousands of others", ["Subject", "BehaviorSubject", "ReplaySubject"][kind]),
          move || {
            let rec = Rec::default();
            macro_rules! with {
              ($s:expr) => {{
                let s = $s;
                let _a = rec.to(&s.observable());
                for x in 1..n as i64 {
                  let b = s.observable().subscribe(|_| {}, |_| {}, || {});
                  if x % 1000 == 255 || x + 1 == n as i64 {
                    s.next(x);
                  }
                  b.unsubscribe();
                }
                s.next(-1);
                s.complete();
              }};
            }
            match kind {
              0 => with!(subjects::Subject::<i64>::new()),
              1 => with!(subjects::BehaviorSubject::<i64>::new(-2)),
              _ => with!(subjects::ReplaySubject::<i64>::new()),
            }
            let mut w: Vec<i64> = (1..n as i64)
              .filter(|x| x % 1000 == 255 || x + 1 == n as i64)
              .collect();
            w.push(-1);
            if kind == 1 {
              w.insert(0, -2);
            }
            rec.want("the long one", &w, Some(Te::C))
          }
        )
      }
      0 => one!("ReplaySubject", move || {
        let s = subjects::ReplaySubject::new();
        let recs: Vec<Rec> = (0..3).map(|_| Rec::default()).collect();
        let _a = recs[0].to(&s.observable());
        let mut _b = None;
        for (i, x) in v.iter().enumerate() {
          if i == k - 1 {
            _b = Some(recs[1].to(&s.observable()));
          }
          s.next(*x);
        }
        match &end {
          Te::E(c) => s.error(mk_err(*c, None)),
          _ => s.complete(),
        }
        let _c = recs[2].to(&s.observable());
        recs.iter().find_map(|r| r.want("ReplaySubject", &v, e.clone()))
      }),
      1 => one!("BehaviorSubject", move || {
        let s = subjects::BehaviorSubject::new(0);
        let (a, b) = (Rec::default(), Rec::default());
        let _a = a.to(&s.observable());
        let mut _b = None;
        for x in &v {
          if *x == k as i64 {
            _b = Some(b.to(&s.observable()));
          }
          s.next(*x);
        }
        a.want("BehaviorSubject", &range(0, n + 1), None)
          .or(b.want("BehaviorSubject", &range(k as i64 - 1, n - k + 2), None))
      }),
      2 => one!("AsyncSubject", move || {
        let s = subjects::AsyncSubject::new();
        let (a, b) = (Rec::default(), Rec::default());
        let _a = a.to(&s.observable());
        v.iter().for_each(|x| s.next(*x));
        s.complete();
        let _b = b.to(&s.observable());
        let w = [n as i64];
        a.want("AsyncSubject", &w, Some(Te::C))
          .or(b.want("AsyncSubject", &w, Some(Te::C)))
      }),
      _ => one!(format!("Subject with {} observers", many), move || {
        let s = subjects::Subject::new();
        let recs: Vec<Rec> = (0..many).map(|_| Rec::default()).collect();
        let subs: Vec<Sub> =
          recs.iter().map(|r| r.to(&s.observable())).collect();
        s.next(1);
        for (i, x) in subs.iter().enumerate() {
          if i % 3 == 0 {
            x.unsubscribe();
          }
        }
        s.next(2);
        s.complete();
        s.next(3);
        recs.iter().enumerate().find_map(|(i, r)| {
          if i % 3 == 0 {
            r.want("left", &[1], None)
          } else {
            r.want("stayed", &[1, 2], Some(Te::C))
          }
        })
      }),
    },
    "C11" => match r.below(3) {
      0 => {
        let p = 2 + r.below(4);
        one!(format!("merge of {} threads", p), move || {
          let ss: Vec<_> =
            (0..p).map(|_| subjects::Subject::<i64>::new()).collect();
          let os: Vec<_> = ss[1..].iter().map(|s| s.observable()).collect();
          let rec = Rec::default();
          let _s = rec.to(&ss[0].observable().merge(&os));
          let parts: Vec<Vec<i64>> =
            (0..p).map(|i| range(1 + i as i64 * 1_000_000, n / p + 1)).collect();
          let hs = ss
            .iter()
            .cloned()
            .zip(parts.iter().cloned())
            .map(|(s, part)| {
              go(move || {
                part.iter().for_each(|x| s.next(*x));
                s.complete();
              })
            })
            .collect();
          join_all(hs);
          let e = rec.end.lock().unwrap().clone();
          shuffled("merge", &rec.items(), &parts).or(if e == vec![Te::C] {
            None
          } else {
            Some(format!("merge ended with {:?}", e))
          })
        })
      }
      1 => one!("zip of 2 threads", move || {
        let (a, b) = (subjects::Subject::new(), subjects::Subject::new());
        let rec = Rec::default();
        let o = a.observable().zip(&[b.observable()]);
        let _s = rec.to(&o.map(|x: Vec<i64>| x[0] * 1_000_000 + x[1]));
        let hs = vec![(a, v.clone()), (b, v.clone())]
          .into_iter()
          .map(|(s, v)| {
            go(move || {
              v.iter().for_each(|x| s.next(*x));
              s.complete();
            })
          })
          .collect();
        join_all(hs);
        let mut g = rec.items();
        g.sort();
        let w: Vec<i64> = v.iter().map(|x| x * 1_000_000 + x).collect();
        differ("tuples of zip", &g, &w)
      }),
      _ => one!("take from 3 threads", move || {
        let ss: Vec<_> =
          (0..3).map(|_| subjects::Subject::<i64>::new()).collect();
        let os: Vec<_> = ss[1..].iter().map(|s| s.observable()).collect();
        let rec = Rec::default();
        let _s = rec.to(&ss[0].observable().merge(&os).take(k));
        let hs = ss
          .iter()
          .cloned()
          .map(|s| {
            let v = v.clone();
            go(move || v.iter().for_each(|x| s.next(*x)))
          })
          .collect();
        join_all(hs);
        let g = rec.items();
        // (unserialized: the last one may overtake the one before)
        if g.len() > k || rec.end.lock().unwrap().as_slice() != [Te::C] {
          Some(format!("take({}) delivered {} items", k, g.len()))
        } else {
          None
        }
      }),
    },
    "C12" => {
      let p = 2 + r.below(3);
      let kind = r.below(3);
      one!(
        format!("{} producer threads, {}", p, ["Subject", "ReplaySubject", "BehaviorSubject"][kind]),
        move || {
          let parts: Vec<Vec<i64>> =
            (0..p).map(|i| range(1 + i as i64 * 1_000_000, n / p + 1)).collect();
          let rec = Rec::default();
          let late = Rec::default();
          macro_rules! with {
            ($s:expr) => {{
              let s = $s;
              let _a = rec.to(&s.observable());
              let hs = parts
                .iter()
                .cloned()
                .map(|part| {
                  let s = s.clone();
                  go(move || part.iter().for_each(|x| s.next(*x)))
                })
                .collect();
              join_all(hs);
              let _b = late.to(&s.observable());
              s.complete();
            }};
          }
          match kind {
            0 => with!(subjects::Subject::<i64>::new()),
            1 => with!(subjects::ReplaySubject::<i64>::new()),
            _ => with!(subjects::BehaviorSubject::<i64>::new(0)),
          }
          let mut g = rec.items();
          if kind == 2 && !g.is_empty() {
            g.remove(0);
          }
          // (two threads may hand out at once: only all of them, each once)
          g.sort();
          let all: Vec<i64> = parts.concat();
          let mut l = late.items();
          l.sort();
          differ("observer", &g, &all).or_else(|| match kind {
            1 => differ("late observer", &l, &all),
            _ if l.len() == kind / 2 => None,
            _ => Some(format!("late observer received {:?}", l)),
          })
        }
      )
    }
    "C13" => match r.below(4) {
      0 => one!("replay", move || {
        let a = subjects::Subject::new();
        let rp = a.observable().replay();
        let o = rp.observable();
        let recs: Vec<Rec> = (0..3).map(|_| Rec::default()).collect();
        let _a = recs[0].to(&o);
        let mut _b = None;
        for (i, x) in v.iter().enumerate() {
          if i == k - 1 {
            _b = Some(recs[1].to(&o));
          }
          a.next(*x);
        }
        let _c = recs[2].to(&o);
        finish(&a, &end);
        recs.iter().find_map(|r| r.want("replay", &v, e.clone()))
      }),
      1 => one!(format!("ref_count with {} subscribers", many), move || {
        let a = subjects::Subject::new();
        let n = Arc::new(AtomicUsize::new(0));
        let (n2, a2) = (n.clone(), a.clone());
        let o = observables::defer(move || {
          n2.fetch_add(1, Relaxed);
          a2.observable()
        })
        .ref_count()
        .observable();
        let recs: Vec<Rec> = (0..many).map(|_| Rec::default()).collect();
        let subs: Vec<Sub> = recs.iter().map(|r| r.to(&o)).collect();
        for x in 1..4 {
          a.next(x);
        }
        for s in &subs[1..] {
          s.unsubscribe();
        }
        a.next(4);
        subs[0].unsubscribe();
        a.next(5);
        if n.load(Relaxed) != 1 {
          return Some(format!("connected {} times", n.load(Relaxed)));
        }
        recs.iter().enumerate().find_map(|(i, r)| {
          let w = if i == 0 { vec![1, 2, 3, 4] } else { vec![1, 2, 3] };
          r.want("ref_count", &w, None)
        })
      }),
      2 => one!("ref_count reconnects", move || {
        let a = subjects::Subject::new();
        let n = Arc::new(AtomicUsize::new(0));
        let (n2, a2) = (n.clone(), a.clone());
        let o = observables::defer(move || {
          n2.fetch_add(1, Relaxed);
          a2.observable()
        })
        .ref_count()
        .observable();
        for i in 0..many {
          let rec = Rec::default();
          let s = rec.to(&o);
          a.next(i as i64);
          s.unsubscribe();
          a.next(-1);
          let f = rec.want("ref_count", &[i as i64], None);
          if f.is_some() || n.load(Relaxed) != i + 1 {
            return f.or(Some(format!(
              "{} connections after {} subscribers one after the other",
              n.load(Relaxed),
              i + 1
            )));
          }
        }
        None
      }),
      _ => one!(format!("publish with {} subscribers", many), move || {
        let a = subjects::Subject::new();
        let p = a.observable().publish();
        let recs: Vec<Rec> = (0..many).map(|_| Rec::default()).collect();
        let _s: Vec<Sub> =
          recs.iter().map(|r| r.to(&p.observable())).collect();
        a.next(0);
        let c = p.connect();
        a.next(1);
        a.next(2);
        c.unsubscribe();
        a.next(3);
        recs.iter().find_map(|r| r.want("publish", &[1, 2], None))
      }),
    },
    "C14" => {
      let kind = r.below(4);
      // (a first input that fails leaves zip nothing to pair)
      let e = if kind == 1 { Some(Te::C) } else { e };
      one!(format!("{} subscriptions", many), move || {
        let w: Vec<i64> = v[..20].to_vec();
        let o = cold(w.clone(), e.clone());
        let (o, w) = match kind {
          0 => (o.skip(3).take_last(5).map(|x| x), w[15..].to_vec()),
          1 => (
            o.zip(&[cold(w.clone(), e.clone())]).map(|x: Vec<i64>| x[0] - x[1]),
            vec![0; 20],
          ),
          2 => (o.scan(|(a, b)| a.max(b)).distinct_until_changed(), w),
          _ => (
            o.start_with(vec![0, 0].into_iter()).skip_last(1),
            [vec![0, 0], w[..19].to_vec()].concat(),
          ),
        };
        let w = if kind == 0 && end != Te::C { vec![] } else { w };
        let recs: Vec<Rec> = (0..many).map(|_| Rec::default()).collect();
        let _s: Vec<Sub> = recs.iter().map(|r| r.to(&o)).collect();
        recs.iter().find_map(|r| r.want("one of many", &w, e.clone()))
      })
    }
    "C16" if r.chance(400) => {
      // hours between two items
      let gaps: Vec<u64> = (0..1 + r.below(6)).map(|_| far(r)).collect();
      let d = 1 + far(r);
      let kind = r.below(3);
      let what = ["timeout", "debounce", "sample"][kind];
      one!(format!("{}({}) over gaps {:?}", what, d, gaps), move || {
        let (a, t) = (subjects::Subject::new(), subjects::Subject::new());
        let rec = Rec::default();
        let o = match kind {
          0 => a.observable().timeout(ms(d), nt()),
          1 => a.observable().debounce(ms(d), nt()),
          _ => a.observable().sample(t.observable()),
        };
        let s = rec.to(&o);
        for (i, g) in gaps.iter().enumerate() {
          // (never d after an item)
          nap(if *g == d { *g + 1 } else { *g });
          a.next(i as i64);
          t.next(0);
        }
        let mut w = range(0, gaps.len());
        let mut end = None;
        if kind == 0 {
          settle(2 * d);
          let n = gaps.iter().skip(1).take_while(|g| **g < d).count() + 1;
          w.truncate(n);
          end = Some(Te::E(-1));
        } else {
          settle(d + 1000);
        }
        s.unsubscribe();
        settle(d + 1000);
        if kind == 1 {
          // whichever: in order, none twice
          let g = rec.items();
          return if is_subseq(&g, &w) { None } else { Some(format!("{:?}", g)) };
        }
        rec.want(what, &w, end)
      })
    }
    "C16" => {
      let d = 1 + r.below(40) as u64;
      let kind = r.below(3);
      let far = 1 + r.below(2_000_000) as u64;
      one!(
        [
          format!("interval({})", d),
          format!("timer({})", far),
          format!("delay({})", far)
        ][kind],
        move || {
          let at: Arc<Mutex<Vec<(u64, i64)>>> = Arc::default();
          let l = at.clone();
          let t0 = rt::now();
          let o = match kind {
            0 => observables::interval(ms(d), nt()).map(|x| x as i64).take(n),
            1 => observables::timer(ms(far), nt()).map(|_| 7),
            _ => observables::just(7).delay(ms(far)),
          };
          let rec = Rec::default();
          let _s = rec.to(&o.tap(
            move |x| l.lock().unwrap().push(((rt::now() - t0) / 1_000_000, x)),
            |_| {},
            || {},
          ));
          settle(if kind == 0 { d * n as u64 + 10 } else { far + 10 });
          let g = at.lock().unwrap().clone();
          let w: Vec<(u64, i64)> = match kind {
            0 => (0..n).map(|i| ((i as u64 + 1) * d, i as i64)).collect(),
            _ => vec![(far, 7)],
          };
          if g == w {
            return None;
          }
          let i = g.iter().zip(w.iter()).take_while(|(a, b)| a == b).count();
          Some(format!(
            "{} ticks, {} expected; the {}th (ms, value): {:?} instead of {:?}",
            g.len(),
            w.len(),
            i,
            g.get(i),
            w.get(i)
          ))
        }
      )
    }
    "C17" => {
      let kind = r.below(6);
      let stop = r.chance(500);
      one!(format!("tokens in {} items, pipeline {}", n, kind), move || {
        let live = Arc::new(AtomicI64::new(0));
        {
          let a = subjects::Subject::<Val>::new();
          let b = subjects::Subject::<Val>::new();
          let o = a.observable();
          let o = match kind {
            0 => o.take_last(k),
            1 => o.skip_last(k),
            2 => o.zip(&[b.observable()]).map(|x: Vec<Val>| x[0].clone()),
            3 => o.buffer_with_count(k).map(|x: Vec<Val>| x[0].clone()),
            4 => o.observe_on(nt()),
            _ => o.sequence_equal(&[b.observable()]).map(|_| Val::i(1)),
          };
          let t = Tok::new(&live);
          let s = o.subscribe(
            move |_| {
              let _ = &t;
            },
            |_| {},
            || {},
          );
          drop(o);
          for x in &v {
            a.next(Val { v: V::I(*x), tok: Some(Tok::new(&live)) });
          }
          if stop {
            s.unsubscribe();
          } else {
            a.complete();
            b.complete();
          }
          drop(s);
          settle(1000);
          let l = live.load(Relaxed);
          if l != 0 {
            return Some(format!(
              "{} callbacks / items still owned after the subscription ended and its handles were dropped",
              l
            ));
          }
        }
        None
      })
    }
    "C18" if r.chance(300) => {
      let idle: Vec<u64> = (0..1 + r.below(4)).map(|_| far(r)).collect();
      one!(format!("to_vec, {:?} ms between items", idle), move || {
        let a = subjects::Subject::<i64>::new();
        let o = a.observable();
        let mut f = Box::pin(o.to_vec());
        struct W(AtomicUsize);
        impl std::task::Wake for W {
          fn wake(self: Arc<Self>) {
            self.0.fetch_add(1, Relaxed);
          }
        }
        let w = Arc::new(W(AtomicUsize::new(0)));
        let wk = std::task::Waker::from(w.clone());
        let mut cx = std::task::Context::from_waker(&wk);
        use std::future::Future;
        if f.as_mut().poll(&mut cx).is_ready() {
          return Some("ready before the end".into());
        }
        for (i, d) in idle.iter().enumerate() {
          nap(*d);
          a.next(i as i64);
        }
        nap(idle[0]);
        let before = w.0.load(Relaxed);
        finish(&a, &end);
        settle(100);
        if w.0.load(Relaxed) == before {
          return Some("the end did not wake the task".into());
        }
        match (f.as_mut().poll(&mut cx), &end) {
          (std::task::Poll::Ready(Ok(g)), Te::C) => {
            differ("to_vec", &g.read().unwrap(), &range(0, idle.len()))
          }
          (std::task::Poll::Ready(Err(x)), Te::E(c)) if code_of(&x) == *c => None,
          (std::task::Poll::Pending, _) => Some("pending after the end".into()),
          _ => Some("not the end of the source".into()),
        }
      })
    }
    "C18" => one!("to_vec", move || {
      let o = cold(v.clone(), e.clone());
      let o = if k % 2 == 0 { o.observe_on(nt()) } else { o };
      let mut f = Box::pin(o.to_vec());
      struct W(std::sync::atomic::AtomicBool);
      impl std::task::Wake for W {
        fn wake(self: Arc<Self>) {
          self.0.store(true, Relaxed);
        }
      }
      let w = Arc::new(W(Default::default()));
      let wk = std::task::Waker::from(w.clone());
      let mut cx = std::task::Context::from_waker(&wk);
      use std::future::Future;
      for _ in 0..2 {
        if let std::task::Poll::Ready(g) = f.as_mut().poll(&mut cx) {
          return match (g, &end) {
            (Ok(g), Te::C) => differ("to_vec", &g.read().unwrap(), &v),
            (Err(x), Te::E(c)) if code_of(&x) == *c => None,
            (Ok(g), _) => Some(format!("Ok of {} items, expected an error", g.read().unwrap().len())),
            (Err(_), _) => Some("an error, expected Ok".into()),
          };
        }
        settle(1000);
        if !w.0.load(Relaxed) {
          return Some("pending, and nobody woke the task".into());
        }
      }
      Some("pending although woken and ended".into())
    }),
    _ => one!("nothing", || None),
  }
}
