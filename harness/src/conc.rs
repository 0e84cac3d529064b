//! Concurrent family: schedules of one scenario are explored and every
//! execution is judged by the scenario's monitor.
use crate::checks::{hash_of, Res};
use crate::val::*;
use another_rxrust::prelude::*;
use std::collections::HashMap;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::{Arc, Mutex};
use vrt::rng::Rng;
use vrt::rt::{self, Cfg, Outcome, Report, Strat};

pub type Ob<T> = Observable<'static, T>;
pub type Sub = Subscription<'static>;

/// one judged execution
pub struct Exec {
  pub rep: Report,
  /// what the property's monitor says
  pub verdict: Option<String>,
  pub events: usize,
  pub sample: String,
}

/// how many schedules of each sort a scenario gets
#[derive(Clone)]
pub struct Budget {
  pub bases: usize,
  pub sweep: usize,
  pub two: usize,
  pub random: usize,
  pub lazy: bool,
  pub spurious: bool,
}
pub const NORMAL: Budget = Budget {
  bases: 2,
  sweep: 40,
  two: 20,
  random: 20,
  lazy: false,
  spurious: false,
};

/// few schedules of a large scenario
pub const FEW: Budget = Budget {
  bases: 1,
  sweep: 12,
  two: 6,
  random: 6,
  lazy: false,
  spurious: false,
};
/// now and then: many events, many participants
pub fn large(r: &mut Rng) -> bool {
  r.chance(25)
}

pub struct Scen {
  pub desc: String,
  pub kinds: Vec<String>,
  pub budget: Budget,
  pub max_steps: u64,
  pub patience: u64,
  pub go: Box<dyn FnMut(Cfg) -> Exec>,
}
impl Scen {
  pub fn new(desc: String, kinds: Vec<&str>, go: Box<dyn FnMut(Cfg) -> Exec>) -> Scen {
    Scen {
      desc,
      kinds: kinds.into_iter().map(|s| s.to_string()).collect(),
      budget: NORMAL,
      max_steps: 30_000,
      patience: 0,
      go,
    }
  }
  pub fn large(&mut self) {
    let (lazy, spurious) = (self.budget.lazy, self.budget.spurious);
    self.budget = Budget { lazy, spurious, ..FEW };
    self.max_steps = 600_000;
    self.kinds.push("large".into());
  }
}

pub fn stuck(rep: &Report) -> Option<String> {
  match &rep.outcome {
    Outcome::Deadlock(s) => return Some(format!("deadlock: {}", s)),
    Outcome::Budget(s) => return Some(format!("livelock: {}", s)),
    Outcome::Done => {}
  }
  rep
    .panics
    .first()
    .map(|(t, p)| format!("thread {} panicked: {}", t, p))
}

/// runs `f` under `cfg`; `f` leaves what it observed in the returned value
pub fn run<T: Send + 'static>(
  cfg: Cfg,
  out: Arc<T>,
  f: impl FnOnce(Arc<T>) + 'static,
) -> (Report, Arc<T>) {
  let o = out.clone();
  let rep = rt::run(cfg, move || f(o));
  (rep, out)
}

/// every execution of the scenario within its budget, until one fails
pub fn explore(r: &mut Rng, sc: &mut Scen, only_stuck: bool) -> Res {
  let mut res = Res { kinds: sc.kinds.clone(), ..Res::default() };
  let sh = hash_of(&sc.desc);
  let b = sc.budget.clone();
  let mut cfg = Cfg::seq();
  cfg.max_steps = sc.max_steps;
  cfg.patience = sc.patience;
  let mut once = |cfg: &Cfg, res: &mut Res| -> (bool, Report) {
    let e = (sc.go)(cfg.clone());
    res.evals += 1;
    res.events += e.events as u64;
    res.steps += e.rep.steps;
    res.switches += e.rep.switches;
    if e.events > 0 {
      res.seen.push(vrt::rng::mix(sh, e.rep.hash));
    }
    let bad = stuck(&e.rep)
      .or(if only_stuck { None } else { e.verdict.clone() });
    if res.sample.is_none() && e.events > 0 && e.rep.threads > 1 {
      res.sample = Some(format!(
        "{} -> {} ({} switches)",
        sc.desc, e.sample, e.rep.switches
      ));
    }
    if let Some(f) = bad {
      res.fail = Some(format!(
        "{}\n{}\nobserved {}\nschedule {:?} (execution {} of this case), {} switches",
        f, sc.desc, e.sample, cfg, res.evals, e.rep.switches
      ));
      (false, e.rep)
    } else {
      (true, e.rep)
    }
  };
  for _ in 0..b.bases {
    let seed = r.next();
    cfg.seed = seed;
    cfg.strat = Strat::Pct(Vec::new());
    cfg.lazy_time = 0;
    cfg.spurious = 0;
    let (ok, base) = once(&cfg, &mut res);
    if !ok {
      return res;
    }
    let m = &base.multi;
    if m.is_empty() {
      continue;
    }
    let pts: Vec<u64> = if m.len() <= b.sweep {
      m.clone()
    } else {
      // an even spread with a random phase
      let st = m.len() as f64 / b.sweep as f64;
      let ph = r.below(1000) as f64 / 1000.0;
      (0..b.sweep)
        .map(|i| m[(((i as f64 + ph) * st) as usize).min(m.len() - 1)])
        .collect()
    };
    for p in pts {
      cfg.strat = Strat::Pct(vec![p]);
      if !once(&cfg, &mut res).0 {
        return res;
      }
    }
    for i in 0..b.two {
      let k = 2 + i % 3;
      let mut v: Vec<u64> = (0..k).map(|_| m[r.below(m.len())]).collect();
      // half of them close together: races need two nearby switches
      if i % 2 == 0 {
        let j = r.below(m.len());
        for (n, x) in v.iter_mut().enumerate() {
          *x = m[(j + n * (1 + r.below(4))).min(m.len() - 1)];
        }
      }
      v.sort();
      cfg.strat = Strat::Pct(v);
      if !once(&cfg, &mut res).0 {
        return res;
      }
    }
  }
  for i in 0..b.random {
    cfg.seed = r.next();
    cfg.strat = Strat::Random([50, 200, 400, 700][i % 4]);
    cfg.spurious = if b.spurious && r.chance(500) { 20 } else { 0 };
    cfg.lazy_time = if b.lazy && r.chance(300) { 10 } else { 0 };
    if !once(&cfg, &mut res).0 {
      return res;
    }
  }
  res
}

// ---------------------------------------------------------------- monitor

/// one callback as the subscriber saw it
#[derive(Clone, Debug)]
pub struct Call {
  pub who: usize,
  pub te: Te,
  pub tid: usize,
  /// logical clock at entry and return (MAX: did not return)
  pub b: u64,
  pub e: u64,
  /// virtual time (ns)
  pub vt: u64,
  /// begin of the emission call this callback runs inside of (0: none)
  pub em: u64,
}

#[derive(Default)]
pub struct Mon {
  clock: AtomicU64,
  pub ev: Mutex<Vec<Call>>,
  pub notes: Mutex<Vec<String>>,
  em: Mutex<HashMap<usize, Vec<u64>>>,
  /// emissions by the sources of the workload
  pub ems: Mutex<Vec<Em>>,
}
/// one emission call of a source: what, when, from where
#[derive(Clone, Debug)]
pub struct Em {
  pub src: usize,
  pub te: Te,
  pub b: u64,
  pub e: u64,
  pub tid: usize,
  pub vt: u64,
}
pub type M = Arc<Mon>;

impl Mon {
  pub fn new() -> M {
    Arc::new(Mon::default())
  }
  pub fn tick(&self) -> u64 {
    self.clock.fetch_add(1, Relaxed) + 1
  }
  pub fn note(&self, s: String) {
    self.notes.lock().unwrap().push(s);
  }
  pub fn emit(&self, f: impl FnOnce()) -> (u64, u64) {
    let b = self.tick();
    let t = rt::tid();
    self.em.lock().unwrap().entry(t).or_default().push(b);
    f();
    if let Some(v) = self.em.lock().unwrap().get_mut(&t) {
      v.pop();
    }
    (b, self.tick())
  }
  /// an emission that is also logged
  pub fn put(&self, src: usize, te: Te, f: impl FnOnce()) {
    let vt = rt::now();
    let i = {
      let mut l = self.ems.lock().unwrap();
      l.push(Em { src, te, b: 0, e: u64::MAX, tid: rt::tid(), vt });
      l.len() - 1
    };
    let (b, e) = self.emit(|| {
      // the begin must be known to whoever looks before the call returns
      self.ems.lock().unwrap()[i].b = self.clock.load(Relaxed);
      f()
    });
    let mut l = self.ems.lock().unwrap();
    l[i].b = b;
    l[i].e = e;
  }
  pub fn emissions(&self) -> Vec<Em> {
    self.ems.lock().unwrap().clone()
  }
  pub fn call(&self, who: usize, te: Te, body: impl FnOnce()) {
    let b = self.tick();
    let tid = rt::tid();
    let em = self
      .em
      .lock()
      .unwrap()
      .get(&tid)
      .and_then(|v| v.last().copied())
      .unwrap_or(0);
    let i = {
      let mut ev = self.ev.lock().unwrap();
      ev.push(Call { who, te, tid, b, e: u64::MAX, vt: rt::now(), em });
      ev.len() - 1
    };
    rt::point("callback", who as u64);
    body();
    let e = self.tick();
    self.ev.lock().unwrap()[i].e = e;
  }
  pub fn of(&self, who: usize) -> Vec<Call> {
    let ev = self.ev.lock().unwrap();
    ev.iter().filter(|c| c.who == who).cloned().collect()
  }
  pub fn len(&self) -> usize {
    self.ev.lock().unwrap().len()
  }
  pub fn show(&self) -> String {
    let ev = self.ev.lock().unwrap();
    let n = ev.len();
    let mut s: Vec<String> = ev
      .iter()
      .take(40)
      .map(|c| {
        let e = match &c.te {
          Te::N(t) => format!("{:?}", t),
          Te::E(c) => format!("error({})", c),
          Te::C => "complete".into(),
        };
        format!(
          "{}:{}[{}..{} t{} {}ms]",
          c.who,
          e,
          c.b,
          if c.e == u64::MAX { "?".to_string() } else { c.e.to_string() },
          c.tid,
          c.vt / 1_000_000
        )
      })
      .collect();
    if n > 40 {
      s.push(format!("(+{} more)", n - 40));
    }
    s.join(" ")
  }
  pub fn first_note(&self) -> Option<String> {
    self.notes.lock().unwrap().first().cloned()
  }
}

/// subscribes a recording observer; `react` runs inside its callbacks
pub fn watch<T: Clone + Send + Sync + 'static>(
  m: &M,
  o: &Ob<T>,
  who: usize,
  tv: impl Fn(T) -> Tv + Send + Sync + 'static,
  react: impl Fn(usize, &Te) + Clone + Send + Sync + 'static,
) -> Sub {
  let (m0, m1, m2) = (m.clone(), m.clone(), m.clone());
  let n = Arc::new(AtomicU64::new(0));
  let (n0, n1, n2) = (n.clone(), n.clone(), n);
  let (r0, r1, r2) = (react.clone(), react.clone(), react);
  o.subscribe(
    move |x| {
      let te = Te::N(tv(x));
      let k = n0.fetch_add(1, Relaxed) as usize + 1;
      m0.call(who, te.clone(), || r0(k, &te));
    },
    move |e| {
      let te = Te::E(code_of(&e));
      let k = n1.fetch_add(1, Relaxed) as usize + 1;
      m1.call(who, te.clone(), || r1(k, &te));
    },
    move || {
      let k = n2.fetch_add(1, Relaxed) as usize + 1;
      m2.call(who, Te::C, || r2(k, &Te::C));
    },
  )
}
pub fn idle(_: usize, _: &Te) {}
pub fn vtv(x: Val) -> Tv {
  x.tv()
}
pub fn itv(x: i64) -> Tv {
  Tv::I(x)
}

pub fn items(v: &[Call]) -> Vec<i64> {
  v.iter()
    .filter_map(|c| match &c.te {
      Te::N(t) => Some(t.key()),
      _ => None,
    })
    .collect()
}
pub fn ends(v: &[Call]) -> Vec<&Call> {
  v.iter().filter(|c| c.te.terminal()).collect()
}

/// at most one terminal, nothing that began after it returned: what holds
/// whatever the threads do
pub fn mt_contract(v: &[Call]) -> Option<String> {
  let t = ends(v);
  if t.len() > 1 {
    return Some(format!(
      "subscriber {} observed {} terminals: {:?}",
      v[0].who, t.len(), t.iter().map(|c| &c.te).collect::<Vec<_>>()
    ));
  }
  if let Some(t) = t.first() {
    for c in v {
      if c.b > t.e && (c.em > t.e || c.tid == t.tid) {
        return Some(format!(
          "subscriber {} received {:?} (callback {}..{}) although its delivery began after the terminal callback had returned ({}..{})",
          c.who, c.te, c.b, c.e, t.b, t.e
        ));
      }
    }
  }
  None
}

/// callbacks of one subscriber never overlap
pub fn overlap(v: &[Call]) -> Option<String> {
  let mut s = v.to_vec();
  s.sort_by_key(|c| c.b);
  for w in s.windows(2) {
    if w[1].b < w[0].e {
      return Some(format!(
        "two callbacks at once: {:?} and {:?}",
        w[0], w[1]
      ));
    }
  }
  None
}

pub fn is_subseq(a: &[i64], b: &[i64]) -> bool {
  let mut it = b.iter();
  a.iter().all(|x| it.any(|y| y == x))
}

/// unique item for producer p, number n
pub fn uid(p: usize, n: usize) -> i64 {
  (p as i64 + 1) * 1000 + n as i64
}
pub fn producer(x: i64) -> usize {
  (x / 1000) as usize - 1
}

/// virtual sleep
pub fn nap(ms: u64) {
  vrt::stdx::thread::sleep(std::time::Duration::from_millis(ms));
}
pub fn settle(ms: u64) {
  rt::settle(ms * 1_000_000)
}
pub fn ms(x: u64) -> std::time::Duration {
  std::time::Duration::from_millis(x)
}
pub use vrt::stdx::thread::spawn as go;
pub fn join_all(v: Vec<vrt::stdx::thread::JoinHandle<()>>) {
  for h in v {
    let _ = h.join();
  }
}
