use crate::rt;
use std::any::Any;
use std::cell::UnsafeCell;
use std::marker::PhantomData;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::Arc;
use std::time::Duration;

pub use std::thread::{panicking, AccessError};
pub type Result<T> = std::result::Result<T, Box<dyn Any + Send + 'static>>;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct ThreadId(u64);

#[derive(Clone, Debug)]
pub struct Thread {
  id: usize,
  name: Option<String>,
}
impl Thread {
  pub fn id(&self) -> ThreadId {
    ThreadId(self.id as u64)
  }
  pub fn name(&self) -> Option<&str> {
    self.name.as_deref()
  }
  pub fn unpark(&self) {
    rt::unpark(self.id)
  }
}

pub fn current() -> Thread {
  Thread { id: rt::tid(), name: rt::cur_name() }
}
pub fn yield_now() {
  rt::point("yield", 0)
}
pub fn sleep(d: Duration) {
  rt::sleep_ns(d.as_nanos().min(u64::MAX as u128 / 4) as u64)
}
pub fn park() {
  rt::park(None)
}
pub fn park_timeout(d: Duration) {
  rt::park(Some(d.as_nanos() as u64))
}
pub fn available_parallelism() -> std::io::Result<std::num::NonZeroUsize> {
  Ok(std::num::NonZeroUsize::new(4).unwrap())
}

struct Packet<T>(UnsafeCell<Option<Result<T>>>);
unsafe impl<T: Send> Send for Packet<T> {}
unsafe impl<T: Send> Sync for Packet<T> {}

pub struct JoinHandle<T> {
  t: Thread,
  p: Arc<Packet<T>>,
}
impl<T> JoinHandle<T> {
  pub fn thread(&self) -> &Thread {
    &self.t
  }
  pub fn is_finished(&self) -> bool {
    !rt::alive(self.t.id)
  }
  pub fn join(self) -> Result<T> {
    rt::join(self.t.id);
    unsafe {
      (*self.p.0.get())
        .take()
        .unwrap_or_else(|| Err(Box::new("no result")))
    }
  }
}
impl<T> std::fmt::Debug for JoinHandle<T> {
  fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    write!(f, "JoinHandle({})", self.t.id)
  }
}

unsafe fn spawn_raw<'a, F, T>(name: Option<String>, f: F) -> JoinHandle<T>
where
  F: FnOnce() -> T + 'a,
  T: 'a,
{
  let p = Arc::new(Packet(UnsafeCell::new(None)));
  let p2 = p.clone();
  let body = move || {
    let r = catch_unwind(AssertUnwindSafe(f));
    match r {
      Ok(v) => unsafe { *p2.0.get() = Some(Ok(v)) },
      Err(e) => {
        unsafe { *p2.0.get() = Some(Err(Box::new("thread panicked"))) };
        resume_unwind(e)
      }
    }
  };
  let b: Box<dyn FnOnce() + 'a> = Box::new(body);
  let b: Box<dyn FnOnce() + 'static> = std::mem::transmute(b);
  let id = rt::spawn(name.clone(), b);
  JoinHandle { t: Thread { id, name }, p }
}

pub fn spawn<F, T>(f: F) -> JoinHandle<T>
where
  F: FnOnce() -> T + Send + 'static,
  T: Send + 'static,
{
  unsafe { spawn_raw(None, f) }
}

#[derive(Debug)]
pub struct Builder {
  name: Option<String>,
}
impl Builder {
  pub fn new() -> Builder {
    Builder { name: None }
  }
  pub fn name(mut self, n: String) -> Builder {
    self.name = Some(n);
    self
  }
  pub fn stack_size(self, _: usize) -> Builder {
    self
  }
  pub fn spawn<F, T>(self, f: F) -> std::io::Result<JoinHandle<T>>
  where
    F: FnOnce() -> T + Send + 'static,
    T: Send + 'static,
  {
    Ok(unsafe { spawn_raw(self.name, f) })
  }
  pub fn spawn_scoped<'scope, 'env, F, T>(
    self,
    s: &'scope Scope<'scope, 'env>,
    f: F,
  ) -> std::io::Result<ScopedJoinHandle<'scope, T>>
  where
    F: FnOnce() -> T + Send + 'scope,
    T: Send + 'scope,
  {
    Ok(s.start(self.name, f))
  }
}

pub struct Scope<'scope, 'env: 'scope> {
  ids: UnsafeCell<Vec<usize>>,
  _a: PhantomData<&'scope mut &'scope ()>,
  _b: PhantomData<&'env mut &'env ()>,
}
unsafe impl Sync for Scope<'_, '_> {}
pub struct ScopedJoinHandle<'scope, T> {
  h: JoinHandle<T>,
  _a: PhantomData<&'scope ()>,
}
impl<'scope, T> ScopedJoinHandle<'scope, T> {
  pub fn join(self) -> Result<T> {
    self.h.join()
  }
  pub fn thread(&self) -> &Thread {
    self.h.thread()
  }
  pub fn is_finished(&self) -> bool {
    self.h.is_finished()
  }
}
impl<'scope, 'env> Scope<'scope, 'env> {
  pub fn spawn<F, T>(&'scope self, f: F) -> ScopedJoinHandle<'scope, T>
  where
    F: FnOnce() -> T + Send + 'scope,
    T: Send + 'scope,
  {
    self.start(None, f)
  }
  fn start<F, T>(
    &'scope self,
    name: Option<String>,
    f: F,
  ) -> ScopedJoinHandle<'scope, T>
  where
    F: FnOnce() -> T + Send + 'scope,
    T: Send + 'scope,
  {
    let h = unsafe { spawn_raw(name, f) };
    unsafe { (*self.ids.get()).push(h.t.id) };
    ScopedJoinHandle { h, _a: PhantomData }
  }
}
pub fn scope<'env, F, T>(f: F) -> T
where
  F: for<'scope> FnOnce(&'scope Scope<'scope, 'env>) -> T,
{
  let s = Scope {
    ids: UnsafeCell::new(Vec::new()),
    _a: PhantomData,
    _b: PhantomData,
  };
  let r = catch_unwind(AssertUnwindSafe(|| f(&s)));
  for t in unsafe { (*s.ids.get()).clone() } {
    rt::join(t);
  }
  match r {
    Ok(v) => v,
    Err(e) => resume_unwind(e),
  }
}

// ------------------------------------------------------------ thread_local!
// Logical threads share one OS thread, so the values live with them.
pub struct LocalKey<T: 'static> {
  init: fn() -> T,
}
impl<T: 'static> LocalKey<T> {
  pub const fn __new(init: fn() -> T) -> LocalKey<T> {
    LocalKey { init }
  }
  fn ptr(&'static self) -> *mut T {
    let key = self as *const _ as usize;
    if let Some(p) = rt::tls_get(key) {
      return p as *mut T;
    }
    let v = Box::into_raw(Box::new((self.init)()));
    unsafe fn del<T>(p: *mut ()) {
      drop(Box::from_raw(p as *mut T));
    }
    rt::tls_put(key, v as *mut (), del::<T>);
    v
  }
  pub fn with<R, F: FnOnce(&T) -> R>(&'static self, f: F) -> R {
    f(unsafe { &*self.ptr() })
  }
  pub fn try_with<R, F: FnOnce(&T) -> R>(
    &'static self,
    f: F,
  ) -> std::result::Result<R, AccessError> {
    Ok(self.with(f))
  }
}
impl<T: 'static> LocalKey<std::cell::Cell<T>> {
  pub fn set(&'static self, v: T) {
    self.with(|c| c.set(v))
  }
  pub fn get(&'static self) -> T
  where
    T: Copy,
  {
    self.with(|c| c.get())
  }
  pub fn take(&'static self) -> T
  where
    T: Default,
  {
    self.with(|c| c.take())
  }
  pub fn replace(&'static self, v: T) -> T {
    self.with(|c| c.replace(v))
  }
}
impl<T: 'static> LocalKey<std::cell::RefCell<T>> {
  pub fn with_borrow<R, F: FnOnce(&T) -> R>(&'static self, f: F) -> R {
    self.with(|c| f(&c.borrow()))
  }
  pub fn with_borrow_mut<R, F: FnOnce(&mut T) -> R>(
    &'static self,
    f: F,
  ) -> R {
    self.with(|c| f(&mut c.borrow_mut()))
  }
  pub fn set(&'static self, v: T) {
    self.with(|c| *c.borrow_mut() = v)
  }
  pub fn take(&'static self) -> T
  where
    T: Default,
  {
    self.with(|c| c.take())
  }
  pub fn replace(&'static self, v: T) -> T {
    self.with(|c| c.replace(v))
  }
}
impl<T> std::fmt::Debug for LocalKey<T> {
  fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    f.write_str("LocalKey{..}")
  }
}

#[macro_export]
macro_rules! vrt_thread_local {
  () => {};
  ($(#[$a:meta])* $v:vis static $n:ident : $t:ty = const $e:block; $($r:tt)*) => {
    $(#[$a])* $v static $n: $crate::th::LocalKey<$t> = $crate::th::LocalKey::__new(|| $e);
    $crate::vrt_thread_local!($($r)*);
  };
  ($(#[$a:meta])* $v:vis static $n:ident : $t:ty = const $e:block) => {
    $(#[$a])* $v static $n: $crate::th::LocalKey<$t> = $crate::th::LocalKey::__new(|| $e);
  };
  ($(#[$a:meta])* $v:vis static $n:ident : $t:ty = $e:expr; $($r:tt)*) => {
    $(#[$a])* $v static $n: $crate::th::LocalKey<$t> = $crate::th::LocalKey::__new(|| $e);
    $crate::vrt_thread_local!($($r)*);
  };
  ($(#[$a:meta])* $v:vis static $n:ident : $t:ty = $e:expr) => {
    $(#[$a])* $v static $n: $crate::th::LocalKey<$t> = $crate::th::LocalKey::__new(|| $e);
  };
}
