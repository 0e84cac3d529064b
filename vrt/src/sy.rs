use crate::rt::{self, Mode, RawLock};
use std::cell::{Cell, UnsafeCell};
use std::fmt;
use std::ops::{Deref, DerefMut};
use std::sync::{LockResult, PoisonError, TryLockError, TryLockResult};
use std::time::Duration;

struct Flag(Cell<bool>);
unsafe impl Sync for Flag {}
unsafe impl Send for Flag {}

// ------------------------------------------------------------- RwLock
pub struct RwLock<T: ?Sized> {
  raw: RawLock,
  poison: Flag,
  v: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send> Send for RwLock<T> {}
unsafe impl<T: ?Sized + Send + Sync> Sync for RwLock<T> {}
impl<T: ?Sized> std::panic::UnwindSafe for RwLock<T> {}
impl<T: ?Sized> std::panic::RefUnwindSafe for RwLock<T> {}

pub struct RwLockReadGuard<'a, T: ?Sized> {
  l: &'a RwLock<T>,
  _p: std::marker::PhantomData<*const ()>,
}
pub struct RwLockWriteGuard<'a, T: ?Sized> {
  l: &'a RwLock<T>,
  panicking: bool,
  _p: std::marker::PhantomData<*const ()>,
}
unsafe impl<T: ?Sized + Sync> Sync for RwLockReadGuard<'_, T> {}
unsafe impl<T: ?Sized + Sync> Sync for RwLockWriteGuard<'_, T> {}

impl<T> RwLock<T> {
  pub const fn new(v: T) -> RwLock<T> {
    RwLock {
      raw: RawLock::new(),
      poison: Flag(Cell::new(false)),
      v: UnsafeCell::new(v),
    }
  }
  pub fn into_inner(self) -> LockResult<T> {
    let p = self.poison.0.get();
    let v = self.v.into_inner();
    if p {
      Err(PoisonError::new(v))
    } else {
      Ok(v)
    }
  }
}
impl<T: ?Sized> RwLock<T> {
  pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
    self.raw.acquire(Mode::Read);
    let g = RwLockReadGuard { l: self, _p: std::marker::PhantomData };
    if self.poison.0.get() {
      Err(PoisonError::new(g))
    } else {
      Ok(g)
    }
  }
  fn wguard(&self) -> RwLockWriteGuard<'_, T> {
    RwLockWriteGuard {
      l: self,
      panicking: std::thread::panicking(),
      _p: std::marker::PhantomData,
    }
  }
  pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
    self.raw.acquire(Mode::Write);
    let g = self.wguard();
    if self.poison.0.get() {
      Err(PoisonError::new(g))
    } else {
      Ok(g)
    }
  }
  pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
    if !self.raw.try_acquire(Mode::Read) {
      return Err(TryLockError::WouldBlock);
    }
    let g = RwLockReadGuard { l: self, _p: std::marker::PhantomData };
    if self.poison.0.get() {
      Err(TryLockError::Poisoned(PoisonError::new(g)))
    } else {
      Ok(g)
    }
  }
  pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
    if !self.raw.try_acquire(Mode::Write) {
      return Err(TryLockError::WouldBlock);
    }
    let g = self.wguard();
    if self.poison.0.get() {
      Err(TryLockError::Poisoned(PoisonError::new(g)))
    } else {
      Ok(g)
    }
  }
  pub fn is_poisoned(&self) -> bool {
    self.poison.0.get()
  }
  pub fn clear_poison(&self) {
    self.poison.0.set(false)
  }
  pub fn get_mut(&mut self) -> LockResult<&mut T> {
    let p = self.poison.0.get();
    let v = self.v.get_mut();
    if p {
      Err(PoisonError::new(v))
    } else {
      Ok(v)
    }
  }
}
impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
  type Target = T;
  fn deref(&self) -> &T {
    unsafe { &*self.l.v.get() }
  }
}
impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
  fn drop(&mut self) {
    self.l.raw.release(Mode::Read)
  }
}
impl<'a, T: ?Sized> RwLockWriteGuard<'a, T> {
  pub fn downgrade(s: Self) -> RwLockReadGuard<'a, T> {
    let l = s.l;
    std::mem::forget(s);
    l.raw.downgrade();
    RwLockReadGuard { l, _p: std::marker::PhantomData }
  }
}
impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
  type Target = T;
  fn deref(&self) -> &T {
    unsafe { &*self.l.v.get() }
  }
}
impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
  fn deref_mut(&mut self) -> &mut T {
    unsafe { &mut *self.l.v.get() }
  }
}
impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
  fn drop(&mut self) {
    if !self.panicking && std::thread::panicking() {
      self.l.poison.0.set(true);
    }
    self.l.raw.release(Mode::Write)
  }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLock<T> {
  fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    f.write_str("RwLock{..}")
  }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLockReadGuard<'_, T> {
  fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    (**self).fmt(f)
  }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLockWriteGuard<'_, T> {
  fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    (**self).fmt(f)
  }
}
impl<T: Default> Default for RwLock<T> {
  fn default() -> Self {
    RwLock::new(T::default())
  }
}
impl<T> From<T> for RwLock<T> {
  fn from(v: T) -> Self {
    RwLock::new(v)
  }
}

// ------------------------------------------------------------- Mutex
pub struct Mutex<T: ?Sized> {
  raw: RawLock,
  poison: Flag,
  v: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send> Send for Mutex<T> {}
unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {}
impl<T: ?Sized> std::panic::UnwindSafe for Mutex<T> {}
impl<T: ?Sized> std::panic::RefUnwindSafe for Mutex<T> {}
pub struct MutexGuard<'a, T: ?Sized> {
  l: &'a Mutex<T>,
  panicking: bool,
  _p: std::marker::PhantomData<*const ()>,
}
unsafe impl<T: ?Sized + Sync> Sync for MutexGuard<'_, T> {}
impl<T> Mutex<T> {
  pub const fn new(v: T) -> Mutex<T> {
    Mutex {
      raw: RawLock::new(),
      poison: Flag(Cell::new(false)),
      v: UnsafeCell::new(v),
    }
  }
  pub fn into_inner(self) -> LockResult<T> {
    let p = self.poison.0.get();
    let v = self.v.into_inner();
    if p {
      Err(PoisonError::new(v))
    } else {
      Ok(v)
    }
  }
}
impl<T: ?Sized> Mutex<T> {
  fn guard(&self) -> LockResult<MutexGuard<'_, T>> {
    let g = MutexGuard {
      l: self,
      panicking: std::thread::panicking(),
      _p: std::marker::PhantomData,
    };
    if self.poison.0.get() {
      Err(PoisonError::new(g))
    } else {
      Ok(g)
    }
  }
  pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
    self.raw.acquire(Mode::Write);
    self.guard()
  }
  pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
    if !self.raw.try_acquire(Mode::Write) {
      return Err(TryLockError::WouldBlock);
    }
    self.guard().map_err(TryLockError::Poisoned)
  }
  pub fn is_poisoned(&self) -> bool {
    self.poison.0.get()
  }
  pub fn clear_poison(&self) {
    self.poison.0.set(false)
  }
  pub fn get_mut(&mut self) -> LockResult<&mut T> {
    let p = self.poison.0.get();
    let v = self.v.get_mut();
    if p {
      Err(PoisonError::new(v))
    } else {
      Ok(v)
    }
  }
}
impl<T: ?Sized> Deref for MutexGuard<'_, T> {
  type Target = T;
  fn deref(&self) -> &T {
    unsafe { &*self.l.v.get() }
  }
}
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
  fn deref_mut(&mut self) -> &mut T {
    unsafe { &mut *self.l.v.get() }
  }
}
impl<T: ?Sized> Drop for MutexGuard<'_, T> {
  fn drop(&mut self) {
    if !self.panicking && std::thread::panicking() {
      self.l.poison.0.set(true);
    }
    self.l.raw.release(Mode::Write)
  }
}
impl<T: ?Sized> fmt::Debug for Mutex<T> {
  fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    f.write_str("Mutex{..}")
  }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for MutexGuard<'_, T> {
  fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    (**self).fmt(f)
  }
}
impl<T: Default> Default for Mutex<T> {
  fn default() -> Self {
    Mutex::new(T::default())
  }
}
impl<T> From<T> for Mutex<T> {
  fn from(v: T) -> Self {
    Mutex::new(v)
  }
}

// ------------------------------------------------------------- Condvar
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct WaitTimeoutResult(bool);
impl WaitTimeoutResult {
  pub fn timed_out(&self) -> bool {
    self.0
  }
}
#[derive(Debug, Default)]
pub struct Condvar {
  _k: u8,
}
impl Condvar {
  pub const fn new() -> Condvar {
    Condvar { _k: 0 }
  }
  fn key(&self) -> usize {
    self as *const _ as usize
  }
  fn w<'a, T>(
    &self,
    g: MutexGuard<'a, T>,
    d: Option<Duration>,
  ) -> (LockResult<MutexGuard<'a, T>>, bool) {
    let l = g.l;
    std::mem::forget(g);
    let to = rt::cond_wait(
      self.key(),
      &l.raw,
      d.map(|d| d.as_nanos().min(u64::MAX as u128 / 4) as u64),
    );
    (l.guard(), to)
  }
  pub fn wait<'a, T>(
    &self,
    g: MutexGuard<'a, T>,
  ) -> LockResult<MutexGuard<'a, T>> {
    self.w(g, None).0
  }
  pub fn wait_while<'a, T, F>(
    &self,
    mut g: MutexGuard<'a, T>,
    mut f: F,
  ) -> LockResult<MutexGuard<'a, T>>
  where
    F: FnMut(&mut T) -> bool,
  {
    while f(&mut *g) {
      g = self.wait(g)?;
    }
    Ok(g)
  }
  pub fn wait_timeout<'a, T>(
    &self,
    g: MutexGuard<'a, T>,
    d: Duration,
  ) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
    let (g, t) = self.w(g, Some(d));
    match g {
      Ok(g) => Ok((g, WaitTimeoutResult(t))),
      Err(e) => {
        Err(PoisonError::new((e.into_inner(), WaitTimeoutResult(t))))
      }
    }
  }
  pub fn wait_timeout_while<'a, T, F>(
    &self,
    mut g: MutexGuard<'a, T>,
    d: Duration,
    mut f: F,
  ) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)>
  where
    F: FnMut(&mut T) -> bool,
  {
    let start = rt::now();
    loop {
      if !f(&mut *g) {
        return Ok((g, WaitTimeoutResult(false)));
      }
      let left =
        d.checked_sub(Duration::from_nanos(rt::now() - start));
      match left {
        Some(l) if !l.is_zero() => g = self.wait_timeout(g, l)?.0,
        _ => return Ok((g, WaitTimeoutResult(true))),
      }
    }
  }
  pub fn notify_one(&self) {
    rt::cond_notify(self.key(), false)
  }
  pub fn notify_all(&self) {
    rt::cond_notify(self.key(), true)
  }
}

// ------------------------------------------------------------- Barrier
impl<T: ?Sized + fmt::Display> fmt::Display for RwLockReadGuard<'_, T> {
  fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    (**self).fmt(f)
  }
}
impl<T: ?Sized + fmt::Display> fmt::Display for RwLockWriteGuard<'_, T> {
  fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    (**self).fmt(f)
  }
}
impl<T: ?Sized + fmt::Display> fmt::Display for MutexGuard<'_, T> {
  fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    (**self).fmt(f)
  }
}
pub struct Barrier {
  m: Mutex<(usize, usize)>,
  c: Condvar,
  n: usize,
}
pub struct BarrierWaitResult(bool);
impl BarrierWaitResult {
  pub fn is_leader(&self) -> bool {
    self.0
  }
}
impl Barrier {
  pub const fn new(n: usize) -> Barrier {
    Barrier { m: Mutex::new((0, 0)), c: Condvar::new(), n }
  }
  pub fn wait(&self) -> BarrierWaitResult {
    let mut g = self.m.lock().unwrap();
    let gen = g.1;
    g.0 += 1;
    if g.0 < self.n {
      let _g = self.c.wait_while(g, |s| s.1 == gen).unwrap();
      BarrierWaitResult(false)
    } else {
      g.0 = 0;
      g.1 += 1;
      self.c.notify_all();
      BarrierWaitResult(true)
    }
  }
}

// ------------------------------------------------------------- OnceLock & co
#[derive(Debug)]
pub struct OnceState(());
pub struct Once {
  m: Mutex<bool>,
}
impl Once {
  pub const fn new() -> Once {
    Once { m: Mutex::new(false) }
  }
  pub fn call_once<F: FnOnce()>(&self, f: F) {
    let mut g = self.m.lock().unwrap();
    if !*g {
      f();
      *g = true;
    }
  }
  pub fn is_completed(&self) -> bool {
    *self.m.lock().unwrap()
  }
}
pub struct OnceLock<T> {
  o: RawLock,
  v: UnsafeCell<Option<T>>,
}
unsafe impl<T: Send> Send for OnceLock<T> {}
unsafe impl<T: Send + Sync> Sync for OnceLock<T> {}
impl<T> OnceLock<T> {
  pub const fn new() -> OnceLock<T> {
    OnceLock { o: RawLock::new(), v: UnsafeCell::new(None) }
  }
  pub fn get(&self) -> Option<&T> {
    rt::point("once_get", self.o.id());
    unsafe { (*self.v.get()).as_ref() }
  }
  pub fn set(&self, v: T) -> Result<(), T> {
    rt::point("once_set", self.o.id());
    unsafe {
      if (*self.v.get()).is_some() {
        Err(v)
      } else {
        *self.v.get() = Some(v);
        Ok(())
      }
    }
  }
  pub fn get_or_init<F: FnOnce() -> T>(&self, f: F) -> &T {
    if let Some(v) = self.get() {
      return v;
    }
    self.o.acquire(Mode::Write);
    unsafe {
      if (*self.v.get()).is_none() {
        let x = f();
        *self.v.get() = Some(x);
      }
    }
    self.o.release(Mode::Write);
    unsafe { (*self.v.get()).as_ref().unwrap() }
  }
  pub fn into_inner(self) -> Option<T> {
    self.v.into_inner()
  }
  pub fn take(&mut self) -> Option<T> {
    self.v.get_mut().take()
  }
}
impl<T> OnceLock<T> {
  pub fn get_mut(&mut self) -> Option<&mut T> {
    self.v.get_mut().as_mut()
  }
}
impl<T: Clone> Clone for OnceLock<T> {
  fn clone(&self) -> Self {
    match self.get() {
      Some(v) => OnceLock::from(v.clone()),
      None => OnceLock::new(),
    }
  }
}
impl<T> From<T> for OnceLock<T> {
  fn from(v: T) -> Self {
    OnceLock { o: RawLock::new(), v: UnsafeCell::new(Some(v)) }
  }
}
impl<T: fmt::Debug> fmt::Debug for OnceLock<T> {
  fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    f.write_str("OnceLock{..}")
  }
}
impl<T> std::panic::UnwindSafe for OnceLock<T> {}
impl<T> std::panic::RefUnwindSafe for OnceLock<T> {}
impl<T> Default for OnceLock<T> {
  fn default() -> Self {
    OnceLock::new()
  }
}
pub struct LazyLock<T, F = fn() -> T> {
  c: OnceLock<T>,
  f: Cell<Option<F>>,
}
unsafe impl<T: Send + Sync, F: Send> Sync for LazyLock<T, F> {}
impl<T, F: FnOnce() -> T> LazyLock<T, F> {
  pub const fn new(f: F) -> LazyLock<T, F> {
    LazyLock { c: OnceLock::new(), f: Cell::new(Some(f)) }
  }
  pub fn force(t: &LazyLock<T, F>) -> &T {
    t.c.get_or_init(|| (t.f.take().unwrap())())
  }
}
impl<T, F: FnOnce() -> T> Deref for LazyLock<T, F> {
  type Target = T;
  fn deref(&self) -> &T {
    LazyLock::force(self)
  }
}

// ------------------------------------------------------------- atomics
pub mod atomic {
  use crate::rt;
  use std::cell::UnsafeCell;
  pub use std::sync::atomic::Ordering;

  pub fn fence(_: Ordering) {
    rt::point("fence", 0)
  }
  pub fn compiler_fence(_: Ordering) {}

  macro_rules! common {
    ($n:ident, $t:ty) => {
      pub struct $n(UnsafeCell<$t>);
      unsafe impl Sync for $n {}
      unsafe impl Send for $n {}
      impl std::panic::RefUnwindSafe for $n {}
      impl $n {
        pub const fn new(v: $t) -> Self {
          $n(UnsafeCell::new(v))
        }
        fn p(&self) -> &mut $t {
          rt::point("atomic", 0);
          unsafe { &mut *self.0.get() }
        }
        pub fn load(&self, _: Ordering) -> $t {
          *self.p()
        }
        pub fn store(&self, v: $t, _: Ordering) {
          *self.p() = v;
        }
        pub fn swap(&self, v: $t, _: Ordering) -> $t {
          std::mem::replace(self.p(), v)
        }
        pub fn compare_exchange(
          &self,
          a: $t,
          b: $t,
          _: Ordering,
          _: Ordering,
        ) -> Result<$t, $t> {
          let p = self.p();
          if *p == a {
            *p = b;
            Ok(a)
          } else {
            Err(*p)
          }
        }
        pub fn compare_exchange_weak(
          &self,
          a: $t,
          b: $t,
          x: Ordering,
          y: Ordering,
        ) -> Result<$t, $t> {
          self.compare_exchange(a, b, x, y)
        }
        pub fn fetch_update<F: FnMut($t) -> Option<$t>>(
          &self,
          _: Ordering,
          _: Ordering,
          mut f: F,
        ) -> Result<$t, $t> {
          let p = self.p();
          let o = *p;
          match f(o) {
            Some(n) => {
              *p = n;
              Ok(o)
            }
            None => Err(o),
          }
        }
        pub fn into_inner(self) -> $t {
          self.0.into_inner()
        }
        pub fn get_mut(&mut self) -> &mut $t {
          self.0.get_mut()
        }
      }
      impl From<$t> for $n {
        fn from(v: $t) -> Self {
          $n::new(v)
        }
      }
      impl Default for $n {
        fn default() -> Self {
          $n::new(Default::default())
        }
      }
      impl std::fmt::Debug for $n {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
          unsafe { (*self.0.get()).fmt(f) }
        }
      }
    };
  }
  macro_rules! int {
    ($n:ident, $t:ty) => {
      common!($n, $t);
      impl $n {
        pub fn fetch_add(&self, v: $t, _: Ordering) -> $t {
          let p = self.p();
          let o = *p;
          *p = o.wrapping_add(v);
          o
        }
        pub fn fetch_sub(&self, v: $t, _: Ordering) -> $t {
          let p = self.p();
          let o = *p;
          *p = o.wrapping_sub(v);
          o
        }
        pub fn fetch_max(&self, v: $t, _: Ordering) -> $t {
          let p = self.p();
          let o = *p;
          *p = o.max(v);
          o
        }
        pub fn fetch_min(&self, v: $t, _: Ordering) -> $t {
          let p = self.p();
          let o = *p;
          *p = o.min(v);
          o
        }
        pub fn fetch_or(&self, v: $t, _: Ordering) -> $t {
          let p = self.p();
          let o = *p;
          *p = o | v;
          o
        }
        pub fn fetch_and(&self, v: $t, _: Ordering) -> $t {
          let p = self.p();
          let o = *p;
          *p = o & v;
          o
        }
        pub fn fetch_xor(&self, v: $t, _: Ordering) -> $t {
          let p = self.p();
          let o = *p;
          *p = o ^ v;
          o
        }
        pub fn fetch_nand(&self, v: $t, _: Ordering) -> $t {
          let p = self.p();
          let o = *p;
          *p = !(o & v);
          o
        }
      }
    };
  }
  int!(AtomicI8, i8);
  int!(AtomicU8, u8);
  int!(AtomicI16, i16);
  int!(AtomicU16, u16);
  int!(AtomicI32, i32);
  int!(AtomicU32, u32);
  int!(AtomicI64, i64);
  int!(AtomicU64, u64);
  int!(AtomicIsize, isize);
  int!(AtomicUsize, usize);
  common!(AtomicBool, bool);
  impl AtomicBool {
    pub fn fetch_or(&self, v: bool, _: Ordering) -> bool {
      let p = self.p();
      std::mem::replace(p, *p | v)
    }
    pub fn fetch_and(&self, v: bool, _: Ordering) -> bool {
      let p = self.p();
      std::mem::replace(p, *p & v)
    }
    pub fn fetch_xor(&self, v: bool, _: Ordering) -> bool {
      let p = self.p();
      std::mem::replace(p, *p ^ v)
    }
    pub fn fetch_not(&self, _: Ordering) -> bool {
      let p = self.p();
      std::mem::replace(p, !*p)
    }
    pub fn fetch_nand(&self, v: bool, _: Ordering) -> bool {
      let p = self.p();
      std::mem::replace(p, !(*p & v))
    }
  }

  pub struct AtomicPtr<T>(UnsafeCell<*mut T>);
  unsafe impl<T> Sync for AtomicPtr<T> {}
  unsafe impl<T> Send for AtomicPtr<T> {}
  impl<T> std::panic::RefUnwindSafe for AtomicPtr<T> {}
  impl<T> AtomicPtr<T> {
    pub const fn new(v: *mut T) -> Self {
      AtomicPtr(UnsafeCell::new(v))
    }
    fn p(&self) -> &mut *mut T {
      rt::point("atomic", 0);
      unsafe { &mut *self.0.get() }
    }
    pub fn load(&self, _: Ordering) -> *mut T {
      *self.p()
    }
    pub fn store(&self, v: *mut T, _: Ordering) {
      *self.p() = v;
    }
    pub fn swap(&self, v: *mut T, _: Ordering) -> *mut T {
      std::mem::replace(self.p(), v)
    }
    pub fn compare_exchange(
      &self,
      a: *mut T,
      b: *mut T,
      _: Ordering,
      _: Ordering,
    ) -> Result<*mut T, *mut T> {
      let p = self.p();
      if *p == a {
        *p = b;
        Ok(a)
      } else {
        Err(*p)
      }
    }
    pub fn compare_exchange_weak(
      &self,
      a: *mut T,
      b: *mut T,
      x: Ordering,
      y: Ordering,
    ) -> Result<*mut T, *mut T> {
      self.compare_exchange(a, b, x, y)
    }
    pub fn into_inner(self) -> *mut T {
      self.0.into_inner()
    }
    pub fn get_mut(&mut self) -> &mut *mut T {
      self.0.get_mut()
    }
  }
  impl<T> Default for AtomicPtr<T> {
    fn default() -> Self {
      AtomicPtr::new(std::ptr::null_mut())
    }
  }
  impl<T> std::fmt::Debug for AtomicPtr<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
      unsafe { (*self.0.get()).fmt(f) }
    }
  }
}

// ------------------------------------------------------------- mpsc
pub mod mpsc {
  use super::{Condvar, Mutex};
  use std::collections::VecDeque;
  use std::sync::Arc;
  pub use std::sync::mpsc::{
    RecvError, RecvTimeoutError, SendError, TryRecvError, TrySendError,
  };
  use std::time::Duration;
  struct St<T> {
    q: VecDeque<T>,
    tx: usize,
    rx: bool,
    cap: Option<usize>,
  }
  struct Ch<T> {
    m: Mutex<St<T>>,
    c: Condvar,
  }
  pub struct Sender<T>(Arc<Ch<T>>);
  pub struct SyncSender<T>(Arc<Ch<T>>);
  pub struct Receiver<T>(Arc<Ch<T>>);
  fn mk<T>(cap: Option<usize>) -> Arc<Ch<T>> {
    Arc::new(Ch {
      m: Mutex::new(St { q: VecDeque::new(), tx: 1, rx: true, cap }),
      c: Condvar::new(),
    })
  }
  pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
    let c = mk(None);
    (Sender(c.clone()), Receiver(c))
  }
  pub fn sync_channel<T>(n: usize) -> (SyncSender<T>, Receiver<T>) {
    let c = mk(Some(n.max(1)));
    (SyncSender(c.clone()), Receiver(c))
  }
  impl<T> Ch<T> {
    fn send(&self, v: T) -> Result<(), SendError<T>> {
      let g = self.m.lock().unwrap();
      let mut g = self
        .c
        .wait_while(g, |s| {
          s.rx && s.cap.map(|c| s.q.len() >= c).unwrap_or(false)
        })
        .unwrap();
      if !g.rx {
        return Err(SendError(v));
      }
      g.q.push_back(v);
      drop(g);
      self.c.notify_all();
      Ok(())
    }
    fn add(&self) {
      self.m.lock().unwrap().tx += 1;
    }
    fn sub(&self) {
      self.m.lock().unwrap().tx -= 1;
      self.c.notify_all();
    }
  }
  impl<T> Sender<T> {
    pub fn send(&self, v: T) -> Result<(), SendError<T>> {
      self.0.send(v)
    }
  }
  impl<T> Clone for Sender<T> {
    fn clone(&self) -> Self {
      self.0.add();
      Sender(self.0.clone())
    }
  }
  impl<T> Drop for Sender<T> {
    fn drop(&mut self) {
      self.0.sub()
    }
  }
  unsafe impl<T: Send> Sync for Sender<T> {}
  impl<T> SyncSender<T> {
    pub fn send(&self, v: T) -> Result<(), SendError<T>> {
      self.0.send(v)
    }
  }
  impl<T> SyncSender<T> {
    pub fn try_send(&self, v: T) -> Result<(), TrySendError<T>> {
      let mut g = self.0.m.lock().unwrap();
      if !g.rx {
        return Err(TrySendError::Disconnected(v));
      }
      if g.cap.map(|c| g.q.len() >= c).unwrap_or(false) {
        return Err(TrySendError::Full(v));
      }
      g.q.push_back(v);
      drop(g);
      self.0.c.notify_all();
      Ok(())
    }
  }
  macro_rules! dbg_as {
    ($($n:ident)*) => {$(
      impl<T> std::fmt::Debug for $n<T> {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
          f.write_str(concat!(stringify!($n), "{..}"))
        }
      }
    )*};
  }
  dbg_as!(Sender SyncSender Receiver);
  impl<T> Clone for SyncSender<T> {
    fn clone(&self) -> Self {
      self.0.add();
      SyncSender(self.0.clone())
    }
  }
  impl<T> Drop for SyncSender<T> {
    fn drop(&mut self) {
      self.0.sub()
    }
  }
  impl<T> Receiver<T> {
    pub fn recv(&self) -> Result<T, RecvError> {
      let g = self.0.m.lock().unwrap();
      let mut g = self
        .0
        .c
        .wait_while(g, |s| s.q.is_empty() && s.tx > 0)
        .unwrap();
      let r = g.q.pop_front().ok_or(RecvError);
      drop(g);
      self.0.c.notify_all();
      r
    }
    pub fn try_recv(&self) -> Result<T, TryRecvError> {
      let mut g = self.0.m.lock().unwrap();
      let r = match g.q.pop_front() {
        Some(v) => Ok(v),
        None if g.tx == 0 => Err(TryRecvError::Disconnected),
        None => Err(TryRecvError::Empty),
      };
      drop(g);
      self.0.c.notify_all();
      r
    }
    pub fn recv_timeout(&self, d: Duration) -> Result<T, RecvTimeoutError> {
      let g = self.0.m.lock().unwrap();
      let (mut g, _) = self
        .0
        .c
        .wait_timeout_while(g, d, |s| s.q.is_empty() && s.tx > 0)
        .unwrap();
      let r = match g.q.pop_front() {
        Some(v) => Ok(v),
        None if g.tx == 0 => Err(RecvTimeoutError::Disconnected),
        None => Err(RecvTimeoutError::Timeout),
      };
      drop(g);
      self.0.c.notify_all();
      r
    }
    pub fn iter(&self) -> Iter<'_, T> {
      Iter(self)
    }
    pub fn try_iter(&self) -> TryIter<'_, T> {
      TryIter(self)
    }
  }
  impl<T> Drop for Receiver<T> {
    fn drop(&mut self) {
      let q = {
        let mut g = self.0.m.lock().unwrap();
        g.rx = false;
        std::mem::take(&mut g.q)
      };
      drop(q);
      self.0.c.notify_all();
    }
  }
  pub struct Iter<'a, T>(&'a Receiver<T>);
  impl<T> Iterator for Iter<'_, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
      self.0.recv().ok()
    }
  }
  pub struct TryIter<'a, T>(&'a Receiver<T>);
  impl<T> Iterator for TryIter<'_, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
      self.0.try_recv().ok()
    }
  }
  pub struct IntoIter<T>(Receiver<T>);
  impl<T> Iterator for IntoIter<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
      self.0.recv().ok()
    }
  }
  impl<T> IntoIterator for Receiver<T> {
    type Item = T;
    type IntoIter = IntoIter<T>;
    fn into_iter(self) -> IntoIter<T> {
      IntoIter(self)
    }
  }
}
