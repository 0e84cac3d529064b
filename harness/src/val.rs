//! The one item type every generated pipeline works on.
use another_rxrust::prelude::*;
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering};
use std::sync::Arc;

/// Drop token: counts live owners of things the library was handed.
pub struct Tok {
  pub live: Arc<AtomicI64>,
}
impl Tok {
  pub fn new(live: &Arc<AtomicI64>) -> Arc<Tok> {
    live.fetch_add(1, Ordering::Relaxed);
    Arc::new(Tok { live: live.clone() })
  }
}
impl Drop for Tok {
  fn drop(&mut self) {
    self.live.fetch_sub(1, Ordering::Relaxed);
  }
}

#[derive(Clone)]
pub enum V {
  I(i64),
  B(bool),
  U(usize),
  L(Vec<Val>),
  P(Box<Val>, usize),
  MN(Box<Val>),
  ME(RxError),
  MC,
  Unit,
  Obs(Observable<'static, Val>),
}
#[derive(Clone)]
pub struct Val {
  pub v: V,
  pub tok: Option<Arc<Tok>>,
}

/// comparable form of an item
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Tv {
  I(i64),
  B(bool),
  U(usize),
  L(Vec<Tv>),
  P(Box<Tv>, usize),
  MN(Box<Tv>),
  ME(i64),
  MC,
  Unit,
  /// an inner observable, numbered per subscriber in order of arrival
  O(usize),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Te {
  N(Tv),
  E(i64),
  C,
}
impl Te {
  pub fn terminal(&self) -> bool {
    !matches!(self, Te::N(_))
  }
}

/// error payload
pub struct Pay {
  pub code: i64,
  pub id: u64,
  pub tok: Option<Arc<Tok>>,
}
impl std::fmt::Debug for Pay {
  fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    write!(f, "Pay({})", self.code)
  }
}
static PAY_ID: AtomicU64 = AtomicU64::new(1);
pub fn mk_err(code: i64, tok: Option<Arc<Tok>>) -> RxError {
  RxError::from_error(mk_pay(code, tok))
}
pub fn mk_pay(code: i64, tok: Option<Arc<Tok>>) -> Pay {
  Pay {
    code,
    id: PAY_ID.fetch_add(1, Ordering::Relaxed),
    tok,
  }
}
/// code of an error: the payload's, -1 for a timeout, -99 for anything else
pub fn code_of(e: &RxError) -> i64 {
  if let Some(p) = e.downcast_ref::<Pay>() {
    p.code
  } else if let Some(p) = e.downcast_ref::<Arc<Pay>>() {
    p.code
  } else if let Some(p) = e.downcast_ref::<std::io::Error>() {
    if p.kind() == std::io::ErrorKind::TimedOut {
      -1
    } else {
      -98
    }
  } else {
    -99
  }
}
/// address of the payload: identity of "the very same payload"
pub fn pay_id(e: &RxError) -> u64 {
  e.downcast_ref::<Pay>().map(|p| p.id).unwrap_or(0)
}

impl Val {
  pub fn i(x: i64) -> Val {
    Val { v: V::I(x), tok: None }
  }
  pub fn key(&self) -> i64 {
    match &self.v {
      V::I(x) => *x,
      V::B(b) => *b as i64,
      V::U(u) => *u as i64,
      V::L(l) => l.iter().fold(7 + l.len() as i64, |a, x| {
        a.wrapping_mul(31).wrapping_add(x.key()) % 100_003
      }),
      V::P(a, b) => (a.key().wrapping_mul(17) + *b as i64) % 100_003,
      V::MN(x) => x.key().wrapping_mul(3) + 1,
      V::ME(e) => code_of(e) * 3 + 2,
      V::MC => -5,
      V::Unit => -6,
      V::Obs(_) => -7,
    }
  }
  pub fn tv(&self) -> Tv {
    match &self.v {
      V::I(x) => Tv::I(*x),
      V::B(b) => Tv::B(*b),
      V::U(u) => Tv::U(*u),
      V::L(l) => Tv::L(l.iter().map(|x| x.tv()).collect()),
      V::P(a, b) => Tv::P(Box::new(a.tv()), *b),
      V::MN(x) => Tv::MN(Box::new(x.tv())),
      V::ME(e) => Tv::ME(code_of(e)),
      V::MC => Tv::MC,
      V::Unit => Tv::Unit,
      V::Obs(_) => Tv::O(usize::MAX),
    }
  }
  pub fn with(&self, v: V) -> Val {
    Val { v, tok: self.tok.clone() }
  }
}
impl Tv {
  pub fn key(&self) -> i64 {
    match self {
      Tv::I(x) => *x,
      Tv::B(b) => *b as i64,
      Tv::U(u) => *u as i64,
      Tv::L(l) => l.iter().fold(7 + l.len() as i64, |a, x| {
        a.wrapping_mul(31).wrapping_add(x.key()) % 100_003
      }),
      Tv::P(a, b) => (a.key().wrapping_mul(17) + *b as i64) % 100_003,
      Tv::MN(x) => x.key().wrapping_mul(3) + 1,
      Tv::ME(e) => e * 3 + 2,
      Tv::MC => -5,
      Tv::Unit => -6,
      Tv::O(_) => -7,
    }
  }
}
impl PartialEq for Val {
  fn eq(&self, o: &Val) -> bool {
    self.tv() == o.tv()
  }
}
impl Eq for Val {}
impl PartialOrd for Val {
  fn partial_cmp(&self, o: &Val) -> Option<std::cmp::Ordering> {
    self.key().partial_cmp(&o.key())
  }
}
impl std::hash::Hash for Val {
  fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
    self.tv().hash(h)
  }
}
impl std::ops::Add for Val {
  type Output = Val;
  fn add(self, o: Val) -> Val {
    Val::i(add_keys(self.key(), o.key()))
  }
}
/// (like string concatenation, not commutative: sums are taken in order)
pub fn add_keys(a: i64, b: i64) -> i64 {
  a.wrapping_mul(3).wrapping_add(b) % 1_000_003
}
impl std::fmt::Debug for Val {
  fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    write!(f, "{:?}", self.tv())
  }
}

// -------------------------------------------------- function families
pub fn map_key(f: u8, x: i64) -> i64 {
  match f % 4 {
    0 => x.wrapping_add(1) % 1_000_003,
    1 => x.wrapping_mul(2) % 1_000_003,
    2 => x.rem_euclid(3),
    _ => -x,
  }
}
pub fn pred_key(p: u8, x: i64) -> bool {
  match p % 8 {
    0 => x % 2 == 0,
    1 => x < 2,
    2 => x >= 2,
    3 => true,
    4 => false,
    5 => x != 1,
    6 => x == 2,
    _ => x > 0,
  }
}
pub fn red_key(f: u8, a: i64, b: i64) -> i64 {
  match f % 4 {
    0 => add_keys(a, b),
    1 => (a.wrapping_mul(10).wrapping_add(b)) % 1_000_003,
    2 => a.max(b),
    _ => a,
  }
}
pub fn group_key(f: u8, x: i64) -> i64 {
  match f % 3 {
    0 => x.rem_euclid(2),
    1 => x.rem_euclid(3),
    _ => 0,
  }
}
