//! `std`, with the synchronisation types under the control of a scheduler.
//!
//! The code under test is compiled with this crate in the place of `std`: the same
//! source, unchanged, whose lock, atomic and initialiser operations become points at
//! which `verif` decides which thread goes on. Threads that were not started by `verif`
//! use the types as ordinary (spinning) locks.
#![allow(clippy::all)]
pub use ::std::*;

pub mod verif;
pub mod sync;

pub mod thread {
    pub use ::std::thread::*;
    pub fn yield_now() { if !crate::verif::pause() { ::std::thread::yield_now() } }
    pub fn sleep(d: ::std::time::Duration) { if !crate::verif::pause() { ::std::thread::sleep(d) } }
}
pub mod hint {
    pub use ::std::hint::*;
    pub fn spin_loop() { if !crate::verif::pause() { ::std::hint::spin_loop() } }
}
