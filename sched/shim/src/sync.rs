//! Locks and atomics whose operations are scheduling points.
use crate::sched;
pub use real::sync::*;
use real::fmt;
use real::ops::{Deref, DerefMut};
use real::sync as r;

macro_rules! rw_guard {
    ($name:ident, $inner:ident, $($mutable:tt)?) => {
        pub struct $name<'a, T: ?Sized + 'a> { g: Option<r::$inner<'a, T>>, addr: usize }
        impl<'a, T: ?Sized> $name<'a, T> { fn new(g: r::$inner<'a, T>, addr: usize) -> Self { sched::held(1); Self { g: Some(g), addr } } }
        impl<T: ?Sized> Deref for $name<'_, T> { type Target = T; fn deref(&self) -> &T { self.g.as_ref().unwrap() } }
        $(impl<T: ?Sized> DerefMut for $name<'_, T> { fn deref_mut(&$mutable self) -> &mut T { self.g.as_mut().unwrap() } })?
        impl<T: ?Sized> Drop for $name<'_, T> { fn drop(&mut self) { self.g = None; sched::held(-1); sched::unblock(self.addr) } }
        impl<T: ?Sized + fmt::Debug> fmt::Debug for $name<'_, T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { (**self).fmt(f) } }
    };
}
use real::option::Option::{self, None, Some};
use real::prelude::v1::*;
rw_guard!(MutexGuard, MutexGuard, mut);
rw_guard!(RwLockReadGuard, RwLockReadGuard,);
rw_guard!(RwLockWriteGuard, RwLockWriteGuard, mut);

macro_rules! acquire {
    ($self:ident, $try:ident, $guard:ident) => {{
        sched::point();
        let addr = &$self.0 as *const _ as *const () as usize;
        loop {
            match $self.0.$try() {
                Ok(g) => return Ok($guard::new(g, addr)),
                Err(r::TryLockError::Poisoned(p)) => return Err(r::PoisonError::new($guard::new(p.into_inner(), addr))),
                Err(r::TryLockError::WouldBlock) => sched::block(addr),
            }
        }
    }};
}
macro_rules! try_acquire {
    ($self:ident, $try:ident, $guard:ident) => {{
        sched::point();
        let addr = &$self.0 as *const _ as *const () as usize;
        match $self.0.$try() {
            Ok(g) => Ok($guard::new(g, addr)),
            Err(r::TryLockError::Poisoned(p)) => Err(r::TryLockError::Poisoned(r::PoisonError::new($guard::new(p.into_inner(), addr)))),
            Err(r::TryLockError::WouldBlock) => Err(r::TryLockError::WouldBlock),
        }
    }};
}
#[derive(Debug, Default)]
pub struct Mutex<T: ?Sized>(r::Mutex<T>);
impl<T> Mutex<T> {
    pub const fn new(t: T) -> Self { Mutex(r::Mutex::new(t)) }
    pub fn into_inner(self) -> LockResult<T> { self.0.into_inner() }
}
impl<T: ?Sized> Mutex<T> {
    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> { acquire!(self, try_lock, MutexGuard) }
    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> { try_acquire!(self, try_lock, MutexGuard) }
    pub fn is_poisoned(&self) -> bool { self.0.is_poisoned() }
    pub fn clear_poison(&self) { self.0.clear_poison() }
    pub fn get_mut(&mut self) -> LockResult<&mut T> { self.0.get_mut() }
}
impl<T> From<T> for Mutex<T> { fn from(t: T) -> Self { Mutex::new(t) } }
#[derive(Debug, Default)]
pub struct RwLock<T: ?Sized>(r::RwLock<T>);
impl<T> RwLock<T> {
    pub const fn new(t: T) -> Self { RwLock(r::RwLock::new(t)) }
    pub fn into_inner(self) -> LockResult<T> { self.0.into_inner() }
}
impl<T: ?Sized> RwLock<T> {
    pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> { acquire!(self, try_read, RwLockReadGuard) }
    pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> { acquire!(self, try_write, RwLockWriteGuard) }
    pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> { try_acquire!(self, try_read, RwLockReadGuard) }
    pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> { try_acquire!(self, try_write, RwLockWriteGuard) }
    pub fn is_poisoned(&self) -> bool { self.0.is_poisoned() }
    pub fn clear_poison(&self) { self.0.clear_poison() }
    pub fn get_mut(&mut self) -> LockResult<&mut T> { self.0.get_mut() }
}
impl<T> From<T> for RwLock<T> { fn from(t: T) -> Self { RwLock::new(t) } }

pub mod atomic {
    use crate::sched::point;
    pub use real::sync::atomic::*;
    use real::sync::atomic as r;
    use real::prelude::v1::*;
    macro_rules! common {
        ($name:ident, $t:ty) => {
            #[derive(Debug, Default)]
            pub struct $name(r::$name);
            impl $name {
                pub const fn new(v: $t) -> Self { $name(r::$name::new(v)) }
                pub fn load(&self, o: Ordering) -> $t { point(); self.0.load(o) }
                pub fn store(&self, v: $t, o: Ordering) { point(); self.0.store(v, o) }
                pub fn swap(&self, v: $t, o: Ordering) -> $t { point(); self.0.swap(v, o) }
                pub fn compare_exchange(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> { point(); self.0.compare_exchange(a, b, s, f) }
                pub fn compare_exchange_weak(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> { point(); self.0.compare_exchange(a, b, s, f) }
                pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, s: Ordering, l: Ordering, mut f: F) -> Result<$t, $t> {
                    let mut prev = self.load(l);
                    while let Some(next) = f(prev) {
                        match self.compare_exchange_weak(prev, next, s, l) { x @ Ok(_) => return x, Err(p) => prev = p }
                    }
                    Err(prev)
                }
                pub fn fetch_and(&self, v: $t, o: Ordering) -> $t { point(); self.0.fetch_and(v, o) }
                pub fn fetch_or(&self, v: $t, o: Ordering) -> $t { point(); self.0.fetch_or(v, o) }
                pub fn fetch_xor(&self, v: $t, o: Ordering) -> $t { point(); self.0.fetch_xor(v, o) }
                pub fn get_mut(&mut self) -> &mut $t { self.0.get_mut() }
                pub fn into_inner(self) -> $t { self.0.into_inner() }
            }
            impl From<$t> for $name { fn from(v: $t) -> Self { $name::new(v) } }
        };
    }
    macro_rules! ints { ($($name:ident $t:ty),*) => { $(common!($name, $t); impl $name {
        pub fn fetch_add(&self, v: $t, o: Ordering) -> $t { point(); self.0.fetch_add(v, o) }
        pub fn fetch_sub(&self, v: $t, o: Ordering) -> $t { point(); self.0.fetch_sub(v, o) }
        pub fn fetch_max(&self, v: $t, o: Ordering) -> $t { point(); self.0.fetch_max(v, o) }
        pub fn fetch_min(&self, v: $t, o: Ordering) -> $t { point(); self.0.fetch_min(v, o) }
    })* } }
    ints!(AtomicUsize usize, AtomicIsize isize, AtomicU64 u64, AtomicI64 i64, AtomicU32 u32, AtomicI32 i32, AtomicU16 u16, AtomicU8 u8);
    common!(AtomicBool, bool);
}
