//! The controlled runtime: logical threads of one run, a seeded scheduler, a
//! virtual clock, deadlock / livelock detection.
use crate::coro::*;
use crate::rng::Rng;
use std::any::Any;
use std::cell::{Cell, RefCell, UnsafeCell};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub type Tid = usize;

#[derive(Clone, Debug)]
pub enum Strat {
  /// never preempt; switch only when the current thread blocks
  Seq,
  /// at every scheduling point switch with this probability (permille)
  Random(u32),
  /// highest priority runs; at each of these steps the current thread drops
  /// to the lowest priority
  Pct(Vec<u64>),
}

#[derive(Clone, Debug)]
pub struct Cfg {
  pub seed: u64,
  pub strat: Strat,
  pub max_steps: u64,
  /// permille per point: let the clock run to the next sleeper although
  /// threads are runnable (a slow CPU)
  pub lazy_time: u32,
  /// permille per point: spurious condvar wake-up
  pub spurious: u32,
  /// steps after which the clock moves although threads are runnable, so
  /// that nobody spins for ever; 0: 400 steps of one thread
  pub patience: u64,
}
impl Cfg {
  pub fn seq() -> Cfg {
    Cfg {
      seed: 1,
      strat: Strat::Seq,
      max_steps: 60_000,
      lazy_time: 0,
      spurious: 0,
      patience: 0,
    }
  }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Outcome {
  Done,
  Deadlock(String),
  Budget(String),
}

#[derive(Clone, Debug)]
pub struct Report {
  pub outcome: Outcome,
  pub steps: u64,
  pub switches: u64,
  pub preemptions: u64,
  pub hash: u64,
  pub threads: usize,
  /// threads that never finished (tid, what they wait for)
  pub leftover: Vec<(Tid, String)>,
  /// (tid, message) of panics that ended a logical thread
  pub panics: Vec<(Tid, String)>,
  pub vtime: u64,
  /// steps at which more than one thread could have run (a prefix)
  pub multi: Vec<u64>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Mode {
  Read,
  Write,
}

#[derive(Clone, Debug)]
pub enum St {
  Runnable,
  Lock(*const LockState, Mode),
  Cond(usize),
  Join(Tid),
  Park,
  Sleep(u64),
  /// sleeps at least until then, and until nobody else can run
  Settle(u64),
  Finished,
}

struct Thr {
  sp: usize,
  stack: usize,
  st: St,
  prio: i64,
  /// deadline for a timed wait
  deadline: Option<u64>,
  timed_out: bool,
  token: bool,
  body: Option<Box<dyn FnOnce()>>,
  name: Option<String>,
  /// this thread's `thread_local!` values: key, type-erased box
  tls: Vec<(usize, *mut (), unsafe fn(*mut ()))>,
}

pub struct Rt {
  cfg: Cfg,
  rng: Rng,
  thr: Vec<Thr>,
  cur: Tid,
  main_sp: usize,
  pub clock: u64,
  steps: u64,
  switches: u64,
  preempt: u64,
  hash: u64,
  streak: u64,
  /// the step at which the clock moved last
  moved: u64,
  min_prio: i64,
  change_at: usize,
  outcome: Option<Outcome>,
  panics: Vec<(Tid, String)>,
  next_lock: u64,
  epoch: u64,
  cond_waiters: Vec<(usize, Tid)>,
  trace: bool,
  multi: Vec<u64>,
}

thread_local! {
  static RT: Cell<*mut Rt> = const { Cell::new(std::ptr::null_mut()) };
  static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}
static EPOCH: std::sync::atomic::AtomicU64 =
  std::sync::atomic::AtomicU64::new(1);

pub fn install_panic_hook() {
  std::panic::set_hook(Box::new(|info| {
    let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
      s.to_string()
    } else if let Some(s) = info.payload().downcast_ref::<String>() {
      s.clone()
    } else {
      "panic".to_string()
    };
    let loc = info
      .location()
      .map(|l| {
        let f = l.file();
        let f = f.rsplit("inst/src/").next().unwrap_or(f);
        format!("{}:{}", f, l.line())
      })
      .unwrap_or_default();
    if RT.with(|r| r.get().is_null()) {
      eprintln!("harness panic: {} at {}", msg, loc);
    }
    LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("{} at {}", msg, loc)));
  }));
}

pub fn active() -> bool {
  RT.with(|r| !r.get().is_null())
}
#[inline]
fn rt() -> *mut Rt {
  RT.with(|r| r.get())
}

pub fn now() -> u64 {
  let r = rt();
  if r.is_null() {
    0
  } else {
    unsafe { (*r).clock }
  }
}
/// logical time: number of scheduling points passed
pub fn step() -> u64 {
  let r = rt();
  if r.is_null() {
    0
  } else {
    unsafe { (*r).steps }
  }
}
pub fn tid() -> Tid {
  let r = rt();
  if r.is_null() {
    usize::MAX
  } else {
    unsafe { (*r).cur }
  }
}
pub fn cur_name() -> Option<String> {
  let r = rt();
  if r.is_null() {
    None
  } else {
    unsafe { (&(*r).thr)[(*r).cur].name.clone() }
  }
}
/// logical threads not finished, excluding the calling one
pub fn others_alive() -> Vec<(Tid, String)> {
  let r = rt();
  if r.is_null() {
    return Vec::new();
  }
  unsafe {
    (&(*r).thr)
      .iter()
      .enumerate()
      .filter(|(i, t)| *i != (*r).cur && !matches!(t.st, St::Finished))
      .map(|(i, t)| (i, (*r).describe(&t.st)))
      .collect()
  }
}
pub fn spawned() -> usize {
  let r = rt();
  if r.is_null() {
    0
  } else {
    unsafe { (&(*r).thr).len() }
  }
}
pub fn alive(t: Tid) -> bool {
  let r = rt();
  !r.is_null()
    && unsafe {
      t < (&(*r).thr).len() && !matches!((&(*r).thr)[t].st, St::Finished)
    }
}

impl Rt {
  fn describe(&self, st: &St) -> String {
    match st {
      St::Runnable => "runnable".into(),
      St::Lock(p, m) => {
        let l = unsafe { &**p };
        format!(
          "blocked in {:?} of lock #{} (writer {:?}, readers {:?}, waiting writers {})",
          m, l.id.get() & 0xffff_ffff, l.writer, l.readers, l.waiting_writers
        )
      }
      St::Cond(_) => "waiting on a condition variable".into(),
      St::Join(t) => format!("joining thread {}", t),
      St::Park => "parked".into(),
      St::Sleep(t) => format!("sleeping until t={}us", t / 1000),
      St::Settle(t) => format!("waiting for quiet until t={}us", t / 1000),
      St::Finished => "finished".into(),
    }
  }

  fn edges(&self, t: Tid) -> Vec<Tid> {
    match &self.thr[t].st {
      St::Lock(p, m) => {
        let l = unsafe { &**p };
        let mut v = Vec::new();
        if let Some(w) = l.writer {
          v.push(w);
        }
        match m {
          Mode::Write => v.extend(l.readers.iter().copied()),
          Mode::Read => {
            if l.writer.is_none() {
              for (i, th) in self.thr.iter().enumerate() {
                if let St::Lock(q, Mode::Write) = th.st {
                  if q == *p && i != t {
                    v.push(i);
                  }
                }
              }
            }
          }
        }
        v
      }
      St::Join(u) => vec![*u],
      _ => Vec::new(),
    }
  }

  /// is `t` on a cycle of the wait-for graph?
  fn find_cycle(&self, t: Tid) -> Option<Vec<Tid>> {
    let mut stack = vec![(t, vec![t])];
    let mut seen = vec![false; self.thr.len()];
    while let Some((x, path)) = stack.pop() {
      for y in self.edges(x) {
        if y == t {
          return Some(path);
        }
        if !seen[y] {
          seen[y] = true;
          let mut p = path.clone();
          p.push(y);
          stack.push((y, p));
        }
      }
    }
    None
  }

  fn wake_due(&mut self, quiet: bool) {
    for t in self.thr.iter_mut() {
      match t.st {
        St::Sleep(at) if at <= self.clock => t.st = St::Runnable,
        St::Settle(at) if quiet && at <= self.clock => t.st = St::Runnable,
        St::Cond(_) | St::Park => {
          if let Some(d) = t.deadline {
            if d <= self.clock {
              t.timed_out = true;
              t.deadline = None;
              t.st = St::Runnable;
            }
          }
        }
        _ => {}
      }
    }
  }

  fn next_deadline(&self, quiet: bool) -> Option<u64> {
    self
      .thr
      .iter()
      .filter_map(|t| match t.st {
        St::Sleep(at) => Some(at),
        St::Settle(at) if quiet => Some(at),
        St::Cond(_) | St::Park => t.deadline,
        _ => None,
      })
      .min()
  }

  /// next thread to run, or None when nothing can ever run again
  fn choose(&mut self, cur_ok: bool, force_other: bool) -> Option<Tid> {
    loop {
      let n = self.thr.len();
      let mut cand = [0usize; 128];
      let mut k = 0;
      for i in 0..n {
        if matches!(self.thr[i].st, St::Runnable) && k < 128 {
          cand[k] = i;
          k += 1;
        }
      }
      if k == 0 {
        match self.next_deadline(true) {
          Some(d) => {
            self.clock = self.clock.max(d);
            self.moved = self.steps;
            self.wake_due(true);
            continue;
          }
          None => return None,
        }
      }
      let cand = &cand[..k];
      if k == 1 {
        return Some(cand[0]);
      }
      if cur_ok && self.multi.len() < 4096 {
        let s = self.steps;
        self.multi.push(s);
      }
      let cur = self.cur;
      let others = |v: &[Tid]| -> Vec<Tid> {
        v.iter().copied().filter(|x| *x != cur).collect()
      };
      if force_other && cur_ok {
        let o = others(cand);
        let i = self.rng.below(o.len());
        return Some(o[i]);
      }
      return Some(match &self.cfg.strat {
        Strat::Seq => {
          if cur_ok {
            cur
          } else {
            cand[0]
          }
        }
        Strat::Random(p) => {
          if cur_ok && !self.rng.chance(*p) {
            cur
          } else if cur_ok {
            let o = others(cand);
            let i = self.rng.below(o.len());
            o[i]
          } else {
            let i = self.rng.below(k);
            cand[i]
          }
        }
        Strat::Pct(_) => {
          let mut b = cand[0];
          for c in cand {
            if self.thr[*c].prio > self.thr[b].prio {
              b = *c;
            }
          }
          b
        }
      });
    }
  }
}

unsafe fn switch_to(r: *mut Rt, next: Tid) {
  let cur = (*r).cur;
  if next == cur {
    return;
  }
  (*r).switches += 1;
  (*r).streak = 0;
  (*r).hash =
    ((*r).hash.rotate_left(5) ^ (next as u64 + 1)).wrapping_mul(0x100000001b3);
  (*r).hash = ((*r).hash ^ (*r).steps).wrapping_mul(0x100000001b3);
  if (*r).trace {
    eprintln!("    -- switch {} -> {} (step {})", cur, next, (*r).steps);
  }
  (*r).cur = next;
  let save = &mut (&mut (*r).thr)[cur].sp as *mut usize;
  let to = (&(*r).thr)[next].sp;
  // `save` stays valid: Thr entries are boxed below by capacity reservation
  vrt_switch(save, to);
}

unsafe fn finish_run(r: *mut Rt, o: Outcome) -> ! {
  (*r).outcome = Some(o);
  let cur = (*r).cur;
  let save = &mut (&mut (*r).thr)[cur].sp as *mut usize;
  vrt_switch(save, (*r).main_sp);
  unreachable!()
}

/// gives up the CPU because the current thread just became not runnable
unsafe fn away(r: *mut Rt) {
  // whoever blocks or sleeps lets time pass: it starves nobody
  (*r).streak = 0;
  match (*r).choose(false, false) {
    Some(n) => switch_to(r, n),
    None => {
      let bad: Vec<String> = (&(*r).thr)
        .iter()
        .enumerate()
        .filter(|(i, t)| {
          matches!(t.st, St::Lock(..))
            || (*i == 0 && !matches!(t.st, St::Finished))
        })
        .map(|(i, t)| format!("thread {} {}", i, (*r).describe(&t.st)))
        .collect();
      if bad.is_empty() {
        finish_run(r, Outcome::Done)
      } else {
        finish_run(
          r,
          Outcome::Deadlock(format!(
            "no thread can run: {}",
            bad.join("; ")
          )),
        )
      }
    }
  }
}

/// A scheduling point.
pub fn point(what: &str, obj: u64) {
  let r = rt();
  if r.is_null() {
    return;
  }
  unsafe {
    (*r).steps += 1;
    if (*r).trace {
      eprintln!(
        "    [{}] thread {} {} #{}",
        (*r).steps,
        (*r).cur,
        what,
        obj & 0xffff_ffff
      );
    }
    if (*r).steps > (*r).cfg.max_steps {
      if std::thread::panicking() {
        return;
      }
      let d: Vec<String> = (&(*r).thr)
        .iter()
        .enumerate()
        .filter(|(_, t)| !matches!(t.st, St::Finished))
        .map(|(i, t)| format!("thread {} {}", i, (*r).describe(&t.st)))
        .collect();
      finish_run(
        r,
        Outcome::Budget(format!(
          "step budget {} exhausted, current thread {} at {}: {}",
          (*r).cfg.max_steps,
          (*r).cur,
          what,
          d.join("; ")
        )),
      );
    }
    if (&(*r).thr).len() == 1 {
      return;
    }
    if std::thread::panicking() {
      return;
    }
    (*r).streak += 1;
    if (*r).cfg.spurious > 0 && !(&(*r).cond_waiters).is_empty() {
      let p = (*r).cfg.spurious;
      if (&mut (*r).rng).chance(p) {
        let n = (&(*r).cond_waiters).len();
        let i = (&mut (*r).rng).below(n);
        let (_, t) = (&mut (*r).cond_waiters).remove(i);
        (&mut (*r).thr)[t].st = St::Runnable;
        (&mut (*r).thr)[t].deadline = None;
      }
    }
    let lazy = (*r).cfg.lazy_time;
    let starving = (*r).streak > 400;
    let tired = match (*r).cfg.patience {
      0 => starving,
      p => (*r).steps - (*r).moved > p,
    };
    if tired || (lazy > 0 && (&mut (*r).rng).chance(lazy)) {
      if let Some(d) = (*r).next_deadline(false) {
        (*r).clock = (*r).clock.max(d);
        (*r).moved = (*r).steps;
        (*r).wake_due(false);
      }
    }
    if let Strat::Pct(ch) = &(*r).cfg.strat {
      while (*r).change_at < ch.len() && ch[(*r).change_at] <= (*r).steps {
        (*r).change_at += 1;
        (*r).min_prio -= 1;
        let (c, m) = ((*r).cur, (*r).min_prio);
        (&mut (*r).thr)[c].prio = m;
      }
    }
    let next = (*r).choose(true, starving).unwrap();
    if next != (*r).cur {
      (*r).preempt += 1;
      if starving {
        let (c, m) = ((*r).cur, (*r).min_prio - 1);
        (*r).min_prio = m;
        (&mut (*r).thr)[c].prio = m;
      }
      switch_to(r, next);
    }
  }
}

extern "C" fn entry(arg: usize) -> ! {
  unsafe {
    let r = arg as *mut Rt;
    let me = (*r).cur;
    let body = (&mut (*r).thr)[me].body.take().unwrap();
    let res = catch_unwind(AssertUnwindSafe(move || {
      body();
      while let Some((_, p, d)) = (&mut (*r).thr)[me].tls.pop() {
        d(p);
      }
    }));
    if let Err(p) = res {
      drop_payload(p);
      let m = LAST_PANIC
        .with(|p| p.borrow_mut().take())
        .unwrap_or_else(|| "panic".into());
      (&mut (*r).panics).push((me, m));
    }
    (&mut (*r).thr)[me].st = St::Finished;
    for t in (&mut (*r).thr).iter_mut() {
      if let St::Join(u) = t.st {
        if u == me {
          t.st = St::Runnable;
        }
      }
    }
    away(r);
    unreachable!()
  }
}
fn drop_payload(p: Box<dyn Any + Send>) {
  std::mem::forget(p);
}

pub const MAX_THREADS: usize = 120; // alive at once
const ALL_THREADS: usize = 800;

/// Where the current thread keeps the value of `key`, if it has one yet.
pub fn tls_get(key: usize) -> Option<*mut ()> {
  let r = rt();
  if r.is_null() {
    return BARE_TLS
      .with(|b| b.borrow().iter().find(|x| x.0 == key).map(|x| x.1));
  }
  unsafe {
    let c = (*r).cur;
    (&(*r).thr)[c].tls.iter().find(|x| x.0 == key).map(|x| x.1)
  }
}
pub fn tls_put(key: usize, p: *mut (), d: unsafe fn(*mut ())) {
  let r = rt();
  if r.is_null() {
    BARE_TLS.with(|b| b.borrow_mut().push((key, p)));
    return;
  }
  unsafe {
    let c = (*r).cur;
    (&mut (*r).thr)[c].tls.push((key, p, d));
  }
}
thread_local! {
  static BARE_TLS: std::cell::RefCell<Vec<(usize, *mut ())>> =
    const { std::cell::RefCell::new(Vec::new()) };
}

/// Spawns a logical thread; returns its id.
pub fn spawn(name: Option<String>, body: Box<dyn FnOnce()>) -> Tid {
  let r = rt();
  assert!(!r.is_null(), "vrt: spawn outside a run");
  unsafe {
    let n = (&(*r).thr).len();
    // counting the living takes time: only once there may be many
    let many = n >= MAX_THREADS
      && (&(*r).thr).iter().filter(|t| !matches!(t.st, St::Finished)).count()
        >= MAX_THREADS;
    if many || n >= ALL_THREADS {
      if std::thread::panicking() {
        panic!("vrt: too many threads");
      }
      finish_run(
        r,
        Outcome::Budget(format!("more than {} threads were started", n)),
      );
    }
    (*r).new_thread(name, body, r);
    point("spawn", n as u64);
    n
  }
}

impl Rt {
  unsafe fn new_thread(
    &mut self,
    name: Option<String>,
    body: Box<dyn FnOnce()>,
    me: *mut Rt,
  ) {
    let stack = take_stack();
    let sp = prepare(stack, entry, me as usize);
    let prio = (self.rng.next() >> 34) as i64 + 1;
    self.thr.push(Thr {
      sp,
      stack,
      st: St::Runnable,
      prio,
      deadline: None,
      timed_out: false,
      token: false,
      body: Some(body),
      name,
      tls: Vec::new(),
    });
  }
}

pub fn join(t: Tid) {
  let r = rt();
  if r.is_null() {
    return;
  }
  point("join", t as u64);
  unsafe {
    while !matches!((&(*r).thr)[t].st, St::Finished) {
      let c = (*r).cur;
      (&mut (*r).thr)[c].st = St::Join(t);
      check_cycle(r);
      away(r);
    }
  }
}

unsafe fn check_cycle(r: *mut Rt) {
  if let Some(c) = (*r).find_cycle((*r).cur) {
    let d: Vec<String> = c
      .iter()
      .map(|t| {
        format!("thread {} {}", t, (*r).describe(&(&(*r).thr)[*t].st))
      })
      .collect();
    finish_run(r, Outcome::Deadlock(d.join("; ")));
  }
}

pub fn sleep_ns(ns: u64) {
  let r = rt();
  if r.is_null() {
    return;
  }
  point("sleep", 0);
  unsafe {
    if ns > 0 {
      let c = (*r).cur;
      let at = (*r).clock.saturating_add(ns);
      (&mut (*r).thr)[c].st = St::Sleep(at);
      away(r);
    }
  }
}

/// Lets every other thread run until all of them are blocked or asleep
/// beyond now + ns.
pub fn settle(ns: u64) {
  let r = rt();
  if r.is_null() {
    return;
  }
  point("settle", 0);
  unsafe {
    let c = (*r).cur;
    let at = (*r).clock.saturating_add(ns);
    (&mut (*r).thr)[c].st = St::Settle(at);
    away(r);
  }
}

pub fn park(timeout: Option<u64>) {
  let r = rt();
  if r.is_null() {
    return;
  }
  point("park", 0);
  unsafe {
    let c = (*r).cur;
    if (&(*r).thr)[c].token {
      (&mut (*r).thr)[c].token = false;
      return;
    }
    (&mut (*r).thr)[c].st = St::Park;
    (&mut (*r).thr)[c].deadline = timeout.map(|t| (*r).clock + t);
    away(r);
    (&mut (*r).thr)[c].token = false;
    (&mut (*r).thr)[c].deadline = None;
  }
}
pub fn unpark(t: Tid) {
  let r = rt();
  if r.is_null() {
    return;
  }
  unsafe {
    if t < (&(*r).thr).len() {
      let th = &mut (&mut (*r).thr)[t];
      if matches!(th.st, St::Park) {
        th.st = St::Runnable;
        th.deadline = None;
      } else {
        th.token = true;
      }
    }
  }
  point("unpark", t as u64);
}

// ---------------------------------------------------------------- locks

pub struct LockState {
  pub id: Cell<u64>,
  pub writer: Option<Tid>,
  pub readers: Vec<Tid>,
  pub waiting_writers: u32,
}
impl LockState {
  pub const fn new() -> LockState {
    LockState {
      id: Cell::new(0),
      writer: None,
      readers: Vec::new(),
      waiting_writers: 0,
    }
  }
}

pub struct RawLock(UnsafeCell<LockState>);
unsafe impl Send for RawLock {}
unsafe impl Sync for RawLock {}

impl RawLock {
  pub const fn new() -> RawLock {
    RawLock(UnsafeCell::new(LockState::new()))
  }
  fn s(&self) -> *mut LockState {
    self.0.get()
  }
  pub fn id(&self) -> u64 {
    let r = rt();
    unsafe {
      let l = &*self.s();
      if r.is_null() {
        return l.id.get();
      }
      if l.id.get() >> 32 != (*r).epoch & 0xffff_ffff {
        (*r).next_lock += 1;
        l.id
          .set((((*r).epoch & 0xffff_ffff) << 32) | (*r).next_lock);
      }
      l.id.get()
    }
  }
  fn can(&self, m: Mode) -> bool {
    unsafe {
      let l = &*self.s();
      match m {
        Mode::Read => l.writer.is_none() && l.waiting_writers == 0,
        Mode::Write => l.writer.is_none() && l.readers.is_empty(),
      }
    }
  }
  fn grant(&self, m: Mode) {
    unsafe {
      let l = &mut *self.s();
      match m {
        Mode::Read => l.readers.push(tid()),
        Mode::Write => l.writer = Some(tid()),
      }
    }
  }
  pub fn try_acquire(&self, m: Mode) -> bool {
    point("try_lock", self.id());
    // like std: try_read does not wait for waiting writers but fails on them
    if self.can(m) {
      self.grant(m);
      true
    } else {
      false
    }
  }
  pub fn acquire(&self, m: Mode) {
    point(
      match m {
        Mode::Read => "read",
        Mode::Write => "write",
      },
      self.id(),
    );
    self.acquire_nopoint(m);
  }
  pub fn acquire_nopoint(&self, m: Mode) {
    if self.can(m) {
      self.grant(m);
      return;
    }
    let r = rt();
    if r.is_null() {
      panic!("vrt: lock would block outside a run");
    }
    unsafe {
      if m == Mode::Write {
        (*self.s()).waiting_writers += 1;
      }
      loop {
        let c = (*r).cur;
        (&mut (*r).thr)[c].st = St::Lock(self.s(), m);
        check_cycle(r);
        away(r);
        let ok = {
          let l = &*self.s();
          match m {
            Mode::Read => l.writer.is_none() && l.waiting_writers == 0,
            Mode::Write => l.writer.is_none() && l.readers.is_empty(),
          }
        };
        if ok {
          break;
        }
      }
      if m == Mode::Write {
        (*self.s()).waiting_writers -= 1;
      }
      self.grant(m);
    }
  }
  /// Write -> Read in one step: no other writer can come in between.
  pub fn downgrade(&self) {
    unsafe {
      (&mut *self.s()).readers.push(tid());
    }
    self.release(Mode::Write);
  }
  pub fn release(&self, m: Mode) {
    unsafe {
      let l = &mut *self.s();
      match m {
        Mode::Write => l.writer = None,
        Mode::Read => {
          let me = tid();
          if let Some(i) = l.readers.iter().rposition(|x| *x == me) {
            l.readers.swap_remove(i);
          } else {
            l.readers.pop();
          }
        }
      }
      let r = rt();
      if r.is_null() {
        return;
      }
      let p = self.s() as *const LockState;
      for t in (&mut (*r).thr).iter_mut() {
        if let St::Lock(q, _) = t.st {
          if q == p {
            t.st = St::Runnable;
          }
        }
      }
    }
  }
}

// ---------------------------------------------------------------- condvars

/// Waits on condition variable `key`; the mutex `l` is released and
/// re-acquired. Returns true when the wait timed out.
pub fn cond_wait(key: usize, l: &RawLock, timeout: Option<u64>) -> bool {
  let r = rt();
  if r.is_null() {
    panic!("vrt: condvar wait outside a run");
  }
  point("cond_wait", key as u64 & 0xfff);
  unsafe {
    let c = (*r).cur;
    (&mut (*r).cond_waiters).push((key, c));
    l.release(Mode::Write);
    {
      let t = &mut (&mut (*r).thr)[c];
      t.st = St::Cond(key);
      t.timed_out = false;
      t.deadline = timeout.map(|d| (*r).clock.saturating_add(d));
    }
    away(r);
    (&mut (*r).cond_waiters).retain(|(_, t)| *t != c);
    let to = {
      let t = &mut (&mut (*r).thr)[c];
      t.deadline = None;
      std::mem::replace(&mut t.timed_out, false)
    };
    l.acquire_nopoint(Mode::Write);
    to
  }
}

pub fn cond_notify(key: usize, all: bool) {
  let r = rt();
  if r.is_null() {
    return;
  }
  point("notify", key as u64 & 0xfff);
  unsafe {
    loop {
      let idx: Vec<usize> = (&(*r).cond_waiters)
        .iter()
        .enumerate()
        .filter(|(_, w)| w.0 == key)
        .map(|(i, _)| i)
        .collect();
      if idx.is_empty() {
        break;
      }
      let i = idx[(&mut (*r).rng).below(idx.len())];
      let (_, t) = (&mut (*r).cond_waiters).remove(i);
      let th = &mut (&mut (*r).thr)[t];
      if matches!(th.st, St::Cond(_)) {
        th.st = St::Runnable;
        th.deadline = None;
      }
      if !all {
        break;
      }
    }
  }
  point("notified", key as u64 & 0xfff);
}

// ---------------------------------------------------------------- run

/// Runs `f` as logical thread 0 and every thread it spawns, to quiescence.
pub fn run<F: FnOnce() + 'static>(cfg: Cfg, f: F) -> Report {
  assert!(!active(), "vrt: nested run");
  let epoch = EPOCH.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
  let trace = std::env::var_os("VRT_TRACE").is_some();
  let mut b = Box::new(Rt {
    rng: Rng::new(cfg.seed),
    cfg,
    thr: Vec::with_capacity(ALL_THREADS),
    cur: 0,
    main_sp: 0,
    clock: 0,
    steps: 0,
    switches: 0,
    preempt: 0,
    hash: 0xcbf29ce484222325,
    streak: 0,
    moved: 0,
    min_prio: 0,
    change_at: 0,
    outcome: None,
    panics: Vec::new(),
    next_lock: 0,
    epoch,
    cond_waiters: Vec::new(),
    trace,
    multi: Vec::new(),
  });
  let r: *mut Rt = &mut *b;
  unsafe {
    (*r).new_thread(Some("main".into()), Box::new(f), r);
    RT.with(|c| c.set(r));
    let save = &mut (*r).main_sp as *mut usize;
    let to = (&(*r).thr)[0].sp;
    vrt_switch(save, to);
    RT.with(|c| c.set(std::ptr::null_mut()));
  }
  let leftover = b
    .thr
    .iter()
    .enumerate()
    .filter(|(_, t)| !matches!(t.st, St::Finished))
    .map(|(i, t)| (i, b.describe(&t.st)))
    .collect();
  for t in b.thr.iter() {
    give_stack(t.stack);
  }
  // bodies that never started are leaked together with unfinished stacks
  for t in b.thr.iter_mut() {
    if let Some(x) = t.body.take() {
      std::mem::forget(x);
    }
  }
  Report {
    outcome: b.outcome.clone().unwrap_or(Outcome::Done),
    steps: b.steps,
    switches: b.switches,
    preemptions: b.preempt,
    hash: b.hash,
    threads: b.thr.len(),
    leftover,
    panics: b.panics.clone(),
    vtime: b.clock,
    multi: std::mem::take(&mut b.multi),
  }
}
