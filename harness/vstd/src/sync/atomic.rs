//! Each operation is a step point; the memory model is sequentially consistent.
pub use ::std::sync::atomic::*;
use crate::verif::step;
use ::std::sync::atomic as real;

macro_rules! common { ($n:ident, $t:ty) => {
    #[derive(Default)]
    #[repr(transparent)]
    pub struct $n(real::$n);
    impl $n {
        pub const fn new(v: $t) -> Self { $n(real::$n::new(v)) }
        pub fn get_mut(&mut self) -> &mut $t { self.0.get_mut() }
        pub fn into_inner(self) -> $t { self.0.into_inner() }
        pub const fn as_ptr(&self) -> *mut $t { self.0.as_ptr() }
        pub fn load(&self, o: Ordering) -> $t { step(); self.0.load(o) }
        pub fn store(&self, v: $t, o: Ordering) { step(); self.0.store(v, o) }
        pub fn swap(&self, v: $t, o: Ordering) -> $t { step(); self.0.swap(v, o) }
        pub fn compare_exchange(&self, c: $t, n: $t, s: Ordering, f: Ordering) -> Result<$t, $t> { step(); self.0.compare_exchange(c, n, s, f) }
        pub fn compare_exchange_weak(&self, c: $t, n: $t, s: Ordering, f: Ordering) -> Result<$t, $t> { step(); self.0.compare_exchange(c, n, s, f) }
        pub fn fetch_and(&self, v: $t, o: Ordering) -> $t { step(); self.0.fetch_and(v, o) }
        pub fn fetch_or(&self, v: $t, o: Ordering) -> $t { step(); self.0.fetch_or(v, o) }
        pub fn fetch_xor(&self, v: $t, o: Ordering) -> $t { step(); self.0.fetch_xor(v, o) }
        pub fn fetch_nand(&self, v: $t, o: Ordering) -> $t { step(); self.0.fetch_nand(v, o) }
        pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, s: Ordering, f: Ordering, g: F) -> Result<$t, $t> {
            let mut g = g;
            let mut cur = self.load(f);
            while let Some(n) = g(cur) { match self.compare_exchange(cur, n, s, f) { Ok(x) => return Ok(x), Err(x) => cur = x } }
            Err(cur)
        }
    }
    impl From<$t> for $n { fn from(v: $t) -> Self { $n::new(v) } }
    impl ::std::fmt::Debug for $n { fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result { self.0.fmt(f) } }
} }
macro_rules! ints { ($($n:ident $t:ty),*) => { $(
    common!($n, $t);
    impl $n {
        pub fn fetch_add(&self, v: $t, o: Ordering) -> $t { step(); self.0.fetch_add(v, o) }
        pub fn fetch_sub(&self, v: $t, o: Ordering) -> $t { step(); self.0.fetch_sub(v, o) }
        pub fn fetch_max(&self, v: $t, o: Ordering) -> $t { step(); self.0.fetch_max(v, o) }
        pub fn fetch_min(&self, v: $t, o: Ordering) -> $t { step(); self.0.fetch_min(v, o) }
    }
)* } }
ints!(AtomicU8 u8, AtomicU16 u16, AtomicU32 u32, AtomicU64 u64, AtomicUsize usize, AtomicI8 i8, AtomicI16 i16, AtomicI32 i32, AtomicI64 i64, AtomicIsize isize);
common!(AtomicBool, bool);
impl AtomicBool { pub fn fetch_not(&self, o: Ordering) -> bool { step(); self.0.fetch_xor(true, o) } }
