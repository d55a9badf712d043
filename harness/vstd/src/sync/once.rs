use crate::verif;
use ::std::cell::Cell;
use ::std::fmt;
use ::std::ops::Deref;
use ::std::sync::atomic::{AtomicU8, Ordering::SeqCst};
use ::std::sync::OnceLock as Real;

/// 0 empty, 1 an initialiser is running, 2 full.
pub struct OnceLock<T> { st: AtomicU8, v: Real<T> }
impl<T> ::std::panic::UnwindSafe for OnceLock<T> {}
impl<T> ::std::panic::RefUnwindSafe for OnceLock<T> {}
struct Undo<'a>(&'a AtomicU8);
impl Drop for Undo<'_> { fn drop(&mut self) { self.0.store(0, SeqCst) } }

impl<T> OnceLock<T> {
    pub const fn new() -> Self { OnceLock { st: AtomicU8::new(0), v: Real::new() } }
    pub fn get(&self) -> Option<&T> { verif::step(); self.v.get() }
    pub fn get_mut(&mut self) -> Option<&mut T> { self.v.get_mut() }
    pub fn into_inner(self) -> Option<T> { self.v.into_inner() }
    pub fn take(&mut self) -> Option<T> { self.st.store(0, SeqCst); self.v.take() }
    pub fn set(&self, value: T) -> Result<(), T> {
        let mut v = Some(value);
        self.get_or_init(|| v.take().unwrap());
        match v { None => Ok(()), Some(v) => Err(v) }
    }
    pub fn get_or_init<F: FnOnce() -> T>(&self, f: F) -> &T {
        verif::step();
        loop {
            if let Some(v) = self.v.get() { return v }
            match self.st.compare_exchange(0, 1, SeqCst, SeqCst) {
                Ok(_) => break,
                Err(_) => verif::block_until(&|| self.st.load(SeqCst) != 1 || self.v.get().is_some()),
            }
        }
        let undo = Undo(&self.st);
        let v = f();
        verif::step();
        let _ = self.v.set(v);
        ::std::mem::forget(undo);
        self.st.store(2, SeqCst);
        self.v.get().unwrap()
    }
    pub fn wait(&self) -> &T { verif::step(); verif::block_until(&|| self.v.get().is_some()); self.v.get().unwrap() }
}
impl<T> Default for OnceLock<T> { fn default() -> Self { OnceLock::new() } }
impl<T> From<T> for OnceLock<T> { fn from(v: T) -> Self { let c = OnceLock::new(); let _ = c.set(v); c } }
impl<T: Clone> Clone for OnceLock<T> { fn clone(&self) -> Self { match self.get() { Some(v) => OnceLock::from(v.clone()), None => OnceLock::new() } } }
impl<T: fmt::Debug> fmt::Debug for OnceLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let mut d = f.debug_tuple("OnceLock");
        match self.v.get() { Some(v) => d.field(v), None => d.field(&format_args!("<uninit>")) };
        d.finish()
    }
}
impl<T: PartialEq> PartialEq for OnceLock<T> { fn eq(&self, o: &Self) -> bool { self.get() == o.get() } }
impl<T: Eq> Eq for OnceLock<T> {}

pub struct LazyLock<T, F = fn() -> T> { cell: OnceLock<T>, f: Cell<Option<F>> }
unsafe impl<T: Sync + Send, F: Send> Sync for LazyLock<T, F> {}
impl<T, F> ::std::panic::RefUnwindSafe for LazyLock<T, F> {}
impl<T, F: FnOnce() -> T> LazyLock<T, F> {
    pub const fn new(f: F) -> Self { LazyLock { cell: OnceLock::new(), f: Cell::new(Some(f)) } }
    pub fn force(l: &LazyLock<T, F>) -> &T { l.cell.get_or_init(|| (l.f.take().expect("LazyLock instance has previously been poisoned"))()) }
}
impl<T, F: FnOnce() -> T> Deref for LazyLock<T, F> { type Target = T; fn deref(&self) -> &T { LazyLock::force(self) } }
impl<T: fmt::Debug, F> fmt::Debug for LazyLock<T, F> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { self.cell.fmt(f) } }
impl<T: Default> Default for LazyLock<T> { fn default() -> Self { LazyLock::new(T::default) } }

pub struct OnceState(());
impl OnceState { pub fn is_poisoned(&self) -> bool { false } }
pub struct Once(OnceLock<()>);
impl Once {
    pub const fn new() -> Self { Once(OnceLock::new()) }
    pub fn call_once<F: FnOnce()>(&self, f: F) { self.0.get_or_init(f); }
    pub fn call_once_force<F: FnOnce(&OnceState)>(&self, f: F) { self.0.get_or_init(|| f(&OnceState(()))); }
    pub fn is_completed(&self) -> bool { self.0.get().is_some() }
}
