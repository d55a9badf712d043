//! Drop-in versions of the std locks, cells and atomics.
pub use ::std::sync::*;
pub mod atomic;
mod once;
pub use once::{LazyLock, Once, OnceLock, OnceState};

use crate::verif;
use ::std::cell::UnsafeCell;
use ::std::fmt;
use ::std::ops::{Deref, DerefMut};
use ::std::sync::Mutex as RealMutex;
use ::std::time::Duration;

#[derive(Clone, Copy)]
struct State { writer: bool, readers: u32, waiting: u32, poisoned: bool }

/// Like std's lock on Linux: readers that arrive while a writer waits stay behind it.
pub struct RwLock<T: ?Sized> { st: RealMutex<State>, v: UnsafeCell<T> }
unsafe impl<T: ?Sized + Send> Send for RwLock<T> {}
unsafe impl<T: ?Sized + Send + Sync> Sync for RwLock<T> {}
impl<T: ?Sized> ::std::panic::UnwindSafe for RwLock<T> {}
impl<T: ?Sized> ::std::panic::RefUnwindSafe for RwLock<T> {}

pub struct RwLockReadGuard<'a, T: ?Sized + 'a> { l: &'a RwLock<T>, not_send: ::std::marker::PhantomData<*const ()> }
pub struct RwLockWriteGuard<'a, T: ?Sized + 'a> { l: &'a RwLock<T>, panicking: bool, not_send: ::std::marker::PhantomData<*const ()> }
unsafe impl<T: ?Sized + Sync> Sync for RwLockReadGuard<'_, T> {}
unsafe impl<T: ?Sized + Sync> Sync for RwLockWriteGuard<'_, T> {}

impl<T> RwLock<T> {
    pub const fn new(v: T) -> Self { RwLock { st: RealMutex::new(State { writer: false, readers: 0, waiting: 0, poisoned: false }), v: UnsafeCell::new(v) } }
    pub fn into_inner(self) -> LockResult<T> { let p = self.is_poisoned(); let v = self.v.into_inner(); if p { Err(PoisonError::new(v)) } else { Ok(v) } }
}
impl<T: ?Sized> RwLock<T> {
    fn s(&self) -> ::std::sync::MutexGuard<'_, State> { self.st.lock().unwrap_or_else(|e| e.into_inner()) }
    fn can_read(&self) -> bool { let s = self.s(); !s.writer && s.waiting == 0 }
    fn can_write(&self) -> bool { let s = self.s(); !s.writer && s.readers == 0 }
    fn take_read(&self) -> bool { let mut s = self.s(); if !s.writer && s.waiting == 0 { s.readers += 1; true } else { false } }
    fn take_write(&self) -> bool { let mut s = self.s(); if !s.writer && s.readers == 0 { s.writer = true; true } else { false } }
    fn rguard(&self) -> LockResult<RwLockReadGuard<'_, T>> {
        let p = self.is_poisoned();
        let g = RwLockReadGuard { l: self, not_send: ::std::marker::PhantomData };
        if p { Err(PoisonError::new(g)) } else { Ok(g) }
    }
    fn wguard(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
        let p = self.is_poisoned();
        let g = RwLockWriteGuard { l: self, panicking: ::std::thread::panicking(), not_send: ::std::marker::PhantomData };
        if p { Err(PoisonError::new(g)) } else { Ok(g) }
    }
    pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
        verif::step();
        while !self.take_read() { verif::block_until(&|| self.can_read()) }
        self.rguard()
    }
    pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
        verif::step();
        if !self.take_write() {
            self.s().waiting += 1;
            loop {
                verif::block_until(&|| self.can_write());
                if self.take_write() { break }
            }
            self.s().waiting -= 1;
        }
        self.wguard()
    }
    pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> { verif::tries(); self.try_read_now() }
    fn try_read_now(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
        verif::step();
        if self.take_read() { self.rguard().map_err(TryLockError::Poisoned) } else { Err(TryLockError::WouldBlock) }
    }
    pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
        verif::tries();
        verif::step();
        if self.take_write() { self.wguard().map_err(TryLockError::Poisoned) } else { Err(TryLockError::WouldBlock) }
    }
    pub fn is_poisoned(&self) -> bool { self.s().poisoned }
    pub fn clear_poison(&self) { self.s().poisoned = false }
    pub fn get_mut(&mut self) -> LockResult<&mut T> { let p = self.is_poisoned(); let v = self.v.get_mut(); if p { Err(PoisonError::new(v)) } else { Ok(v) } }
}
impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> { type Target = T; fn deref(&self) -> &T { unsafe { &*self.l.v.get() } } }
impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> { type Target = T; fn deref(&self) -> &T { unsafe { &*self.l.v.get() } } }
impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> { fn deref_mut(&mut self) -> &mut T { unsafe { &mut *self.l.v.get() } } }
impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> { fn drop(&mut self) { verif::before_release(); self.l.s().readers -= 1 } }
impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
    fn drop(&mut self) {
        verif::before_release();
        let mut s = self.l.s();
        s.writer = false;
        if !self.panicking && ::std::thread::panicking() { s.poisoned = true }
    }
}
impl<'a, T: ?Sized> RwLockWriteGuard<'a, T> {
    pub fn downgrade(s: Self) -> RwLockReadGuard<'a, T> {
        let l = s.l;
        ::std::mem::forget(s);
        { let mut st = l.s(); st.writer = false; st.readers += 1; }
        RwLockReadGuard { l, not_send: ::std::marker::PhantomData }
    }
}
impl<T: Default> Default for RwLock<T> { fn default() -> Self { RwLock::new(T::default()) } }
impl<T> From<T> for RwLock<T> { fn from(v: T) -> Self { RwLock::new(v) } }
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let mut d = f.debug_struct("RwLock");
        match self.try_read_now() {
            Ok(g) => { d.field("data", &&*g); }
            Err(TryLockError::Poisoned(e)) => { d.field("data", &&**e.get_ref()); }
            Err(TryLockError::WouldBlock) => { d.field("data", &format_args!("<locked>")); }
        }
        d.field("poisoned", &self.is_poisoned());
        d.finish_non_exhaustive()
    }
}
macro_rules! guard_fmt { ($($g:ident),*) => { $(
    impl<T: ?Sized + fmt::Debug> fmt::Debug for $g<'_, T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { (**self).fmt(f) } }
    impl<T: ?Sized + fmt::Display> fmt::Display for $g<'_, T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { (**self).fmt(f) } }
)* } }
guard_fmt!(RwLockReadGuard, RwLockWriteGuard, MutexGuard);

pub struct Mutex<T: ?Sized> { st: RealMutex<State>, v: UnsafeCell<T> }
unsafe impl<T: ?Sized + Send> Send for Mutex<T> {}
unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {}
impl<T: ?Sized> ::std::panic::UnwindSafe for Mutex<T> {}
impl<T: ?Sized> ::std::panic::RefUnwindSafe for Mutex<T> {}
pub struct MutexGuard<'a, T: ?Sized + 'a> { l: &'a Mutex<T>, panicking: bool, not_send: ::std::marker::PhantomData<*const ()> }
unsafe impl<T: ?Sized + Sync> Sync for MutexGuard<'_, T> {}

impl<T> Mutex<T> {
    pub const fn new(v: T) -> Self { Mutex { st: RealMutex::new(State { writer: false, readers: 0, waiting: 0, poisoned: false }), v: UnsafeCell::new(v) } }
    pub fn into_inner(self) -> LockResult<T> { let p = self.is_poisoned(); let v = self.v.into_inner(); if p { Err(PoisonError::new(v)) } else { Ok(v) } }
}
impl<T: ?Sized> Mutex<T> {
    fn s(&self) -> ::std::sync::MutexGuard<'_, State> { self.st.lock().unwrap_or_else(|e| e.into_inner()) }
    fn take(&self) -> bool { let mut s = self.s(); if s.writer { false } else { s.writer = true; true } }
    fn guard(&self) -> LockResult<MutexGuard<'_, T>> {
        let p = self.is_poisoned();
        let g = MutexGuard { l: self, panicking: ::std::thread::panicking(), not_send: ::std::marker::PhantomData };
        if p { Err(PoisonError::new(g)) } else { Ok(g) }
    }
    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
        verif::step();
        while !self.take() { verif::block_until(&|| !self.s().writer) }
        self.guard()
    }
    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> { verif::tries(); self.try_lock_now() }
    fn try_lock_now(&self) -> TryLockResult<MutexGuard<'_, T>> {
        verif::step();
        if self.take() { self.guard().map_err(TryLockError::Poisoned) } else { Err(TryLockError::WouldBlock) }
    }
    pub fn is_poisoned(&self) -> bool { self.s().poisoned }
    pub fn clear_poison(&self) { self.s().poisoned = false }
    pub fn get_mut(&mut self) -> LockResult<&mut T> { let p = self.is_poisoned(); let v = self.v.get_mut(); if p { Err(PoisonError::new(v)) } else { Ok(v) } }
}
impl<T: ?Sized> Deref for MutexGuard<'_, T> { type Target = T; fn deref(&self) -> &T { unsafe { &*self.l.v.get() } } }
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> { fn deref_mut(&mut self) -> &mut T { unsafe { &mut *self.l.v.get() } } }
impl<T: ?Sized> Drop for MutexGuard<'_, T> {
    fn drop(&mut self) {
        verif::before_release();
        let mut s = self.l.s();
        s.writer = false;
        if !self.panicking && ::std::thread::panicking() { s.poisoned = true }
    }
}
impl<T: Default> Default for Mutex<T> { fn default() -> Self { Mutex::new(T::default()) } }
impl<T> From<T> for Mutex<T> { fn from(v: T) -> Self { Mutex::new(v) } }
impl<T: ?Sized + fmt::Debug> fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let mut d = f.debug_struct("Mutex");
        match self.try_lock_now() {
            Ok(g) => { d.field("data", &&*g); }
            Err(TryLockError::Poisoned(e)) => { d.field("data", &&**e.get_ref()); }
            Err(TryLockError::WouldBlock) => { d.field("data", &format_args!("<locked>")); }
        }
        d.field("poisoned", &self.is_poisoned());
        d.finish_non_exhaustive()
    }
}

/// A waiting thread is a ticket; tickets below `woken` have been notified.
#[derive(Default)]
pub struct Condvar { st: RealMutex<(Vec<u64>, u64)> }
pub struct WaitTimeoutResult(bool);
impl WaitTimeoutResult { pub fn timed_out(&self) -> bool { self.0 } }
impl Condvar {
    pub const fn new() -> Self { Condvar { st: RealMutex::new((Vec::new(), 0)) } }
    fn s(&self) -> ::std::sync::MutexGuard<'_, (Vec<u64>, u64)> { self.st.lock().unwrap_or_else(|e| e.into_inner()) }
    pub fn wait<'a, T>(&self, g: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
        let ticket = { let mut s = self.s(); s.1 += 1; let t = s.1; s.0.push(t); t };
        let l = g.l;
        drop(g);
        verif::block_until(&|| !self.s().0.contains(&ticket));
        l.lock()
    }
    pub fn wait_while<'a, T, F: FnMut(&mut T) -> bool>(&self, mut g: MutexGuard<'a, T>, mut c: F) -> LockResult<MutexGuard<'a, T>> {
        while c(&mut *g) { g = self.wait(g)? }
        Ok(g)
    }
    /// Gives the other threads a turn; has timed out if nothing was notified by then.
    pub fn wait_timeout<'a, T>(&self, g: MutexGuard<'a, T>, _: Duration) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
        let ticket = { let mut s = self.s(); s.1 += 1; let t = s.1; s.0.push(t); t };
        let l = g.l;
        drop(g);
        if !verif::pause() { ::std::thread::yield_now() }
        let late = { let mut s = self.s(); let n = s.0.len(); s.0.retain(|t| *t != ticket); s.0.len() != n };
        match l.lock() { Ok(g) => Ok((g, WaitTimeoutResult(late))), Err(e) => Err(PoisonError::new((e.into_inner(), WaitTimeoutResult(late)))) }
    }
    pub fn notify_one(&self) { verif::step(); let mut s = self.s(); if !s.0.is_empty() { s.0.remove(0); } }
    pub fn notify_all(&self) { verif::step(); self.s().0.clear() }
}
impl fmt::Debug for Condvar { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("Condvar { .. }") } }
