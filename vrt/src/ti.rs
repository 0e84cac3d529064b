use crate::rt;
use std::ops::{Add, AddAssign, Sub, SubAssign};
use std::time::Duration;
pub use std::time::SystemTimeError;

fn ns(d: Duration) -> u64 {
  d.as_nanos() as u64
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct Instant(u64);
impl Instant {
  pub fn now() -> Instant {
    Instant(rt::now())
  }
  pub fn elapsed(&self) -> Duration {
    Duration::from_nanos(rt::now() - self.0)
  }
  pub fn duration_since(&self, o: Instant) -> Duration {
    Duration::from_nanos(self.0.saturating_sub(o.0))
  }
  pub fn saturating_duration_since(&self, o: Instant) -> Duration {
    self.duration_since(o)
  }
  pub fn checked_duration_since(&self, o: Instant) -> Option<Duration> {
    self.0.checked_sub(o.0).map(Duration::from_nanos)
  }
  pub fn checked_add(&self, d: Duration) -> Option<Instant> {
    self.0.checked_add(ns(d)).map(Instant)
  }
  pub fn checked_sub(&self, d: Duration) -> Option<Instant> {
    self.0.checked_sub(ns(d)).map(Instant)
  }
}
impl Add<Duration> for Instant {
  type Output = Instant;
  fn add(self, d: Duration) -> Instant {
    Instant(self.0 + ns(d))
  }
}
impl AddAssign<Duration> for Instant {
  fn add_assign(&mut self, d: Duration) {
    self.0 += ns(d);
  }
}
impl Sub<Duration> for Instant {
  type Output = Instant;
  fn sub(self, d: Duration) -> Instant {
    Instant(self.0 - ns(d))
  }
}
impl SubAssign<Duration> for Instant {
  fn sub_assign(&mut self, d: Duration) {
    self.0 -= ns(d);
  }
}
impl Sub<Instant> for Instant {
  type Output = Duration;
  fn sub(self, o: Instant) -> Duration {
    self.duration_since(o)
  }
}

/// virtual wall clock: one fixed epoch plus the virtual time
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct SystemTime(std::time::SystemTime);
pub const UNIX_EPOCH: SystemTime = SystemTime(std::time::UNIX_EPOCH);
const BASE: u64 = 1_700_000_000;
impl SystemTime {
  pub const UNIX_EPOCH: SystemTime = UNIX_EPOCH;
  pub fn now() -> SystemTime {
    SystemTime(
      std::time::UNIX_EPOCH
        + Duration::from_secs(BASE)
        + Duration::from_nanos(rt::now()),
    )
  }
  pub fn duration_since(
    &self,
    o: SystemTime,
  ) -> Result<Duration, SystemTimeError> {
    self.0.duration_since(o.0)
  }
  pub fn elapsed(&self) -> Result<Duration, SystemTimeError> {
    SystemTime::now().0.duration_since(self.0)
  }
  pub fn checked_add(&self, d: Duration) -> Option<SystemTime> {
    self.0.checked_add(d).map(SystemTime)
  }
  pub fn checked_sub(&self, d: Duration) -> Option<SystemTime> {
    self.0.checked_sub(d).map(SystemTime)
  }
  /// harness helper: virtual nanoseconds since the start of the run
  pub fn virtual_ns(&self) -> u64 {
    self
      .0
      .duration_since(std::time::UNIX_EPOCH + Duration::from_secs(BASE))
      .map(|d| d.as_nanos() as u64)
      .unwrap_or(0)
  }
}
impl Add<Duration> for SystemTime {
  type Output = SystemTime;
  fn add(self, d: Duration) -> SystemTime {
    SystemTime(self.0 + d)
  }
}
impl Sub<Duration> for SystemTime {
  type Output = SystemTime;
  fn sub(self, d: Duration) -> SystemTime {
    SystemTime(self.0 - d)
  }
}
