//! Runtime monitoring facade: everything of `std`, with the synchronisation,
//! thread and time parts replaced by versions that report every operation to
//! the controlled runtime in [`rt`].
#![allow(clippy::all)]
#![allow(
  static_mut_refs,
  dangerous_implicit_autorefs,
  ambiguous_glob_reexports,
  hidden_glob_reexports
)]
pub mod coro;
pub mod rng;
pub mod rt;
pub mod sy;
pub mod th;
pub mod ti;

pub mod stdx {
  pub use ::std::*;
  pub mod sync {
    pub use crate::sy::*;
    pub use ::std::sync::{
      Arc, LockResult, PoisonError, TryLockError, TryLockResult, Weak,
    };
    pub mod atomic {
      pub use crate::sy::atomic::*;
    }
    pub mod mpsc {
      pub use crate::sy::mpsc::*;
    }
  }
  pub mod thread {
    pub use crate::th::*;
  }
  pub use crate::vrt_thread_local as thread_local;
  pub mod hint {
    pub use ::std::hint::*;
    pub fn spin_loop() {
      crate::rt::point("yield", 0)
    }
  }
  pub mod time {
    pub use crate::ti::*;
    pub use ::std::time::Duration;
  }
}
