//! std, except that Mutex and the atomics are interpreted by the scheduler of the harness: every operation on
//! them is a point at which another thread may run.  Memory is sequentially consistent.
pub use ::std::*;
pub mod sync {
    pub use ::std::sync::*;
    use ::std::cell::UnsafeCell;
    use ::std::ops::{Deref, DerefMut};

    pub struct Mutex<T: ?Sized> {
        locked: UnsafeCell<u64>,
        v: UnsafeCell<T>,
    }
    unsafe impl<T: ?Sized + Send> Send for Mutex<T> {}
    unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {}
    pub struct MutexGuard<'a, T: ?Sized>(&'a Mutex<T>);
    impl<T> Mutex<T> {
        pub const fn new(t: T) -> Self { Mutex { locked: UnsafeCell::new(0), v: UnsafeCell::new(t) } }
        pub fn into_inner(self) -> LockResult<T> { Ok(self.v.into_inner()) }
    }
    impl<T: ?Sized> Mutex<T> {
        pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
            symrt::yield_now();
            loop {
                unsafe {
                    if *self.locked.get() == 0 {
                        *self.locked.get() = 1;
                        return Ok(MutexGuard(self));
                    }
                    symrt::wait_eq(self.locked.get(), 0);
                }
            }
        }
        pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
            symrt::yield_now();
            unsafe {
                if *self.locked.get() == 0 {
                    *self.locked.get() = 1;
                    return Ok(MutexGuard(self));
                }
            }
            Err(TryLockError::WouldBlock)
        }
        pub fn get_mut(&mut self) -> LockResult<&mut T> { Ok(self.v.get_mut()) }
        pub fn is_poisoned(&self) -> bool { false }
    }
    impl<T: Default> Default for Mutex<T> {
        fn default() -> Self { Mutex::new(T::default()) }
    }
    impl<T: ?Sized> ::std::fmt::Debug for Mutex<T> {
        fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result { f.write_str("Mutex") }
    }
    impl<T: ?Sized> Deref for MutexGuard<'_, T> {
        type Target = T;
        fn deref(&self) -> &T { unsafe { &*self.0.v.get() } }
    }
    impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
        fn deref_mut(&mut self) -> &mut T { unsafe { &mut *self.0.v.get() } }
    }
    impl<T: ?Sized> Drop for MutexGuard<'_, T> {
        fn drop(&mut self) { unsafe { *self.0.locked.get() = 0 } }
    }

    pub mod atomic {
        pub use ::std::sync::atomic::*;
        use ::std::cell::UnsafeCell;
        pub fn fence(_: Ordering) { symrt::yield_now() }
        macro_rules! at {
            ($($n:ident $t:ty;)*) => { $(
                #[derive(Default)]
                pub struct $n(UnsafeCell<$t>);
                unsafe impl Sync for $n {}
                unsafe impl Send for $n {}
                impl ::std::fmt::Debug for $n {
                    fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result { unsafe { ::std::fmt::Debug::fmt(&*self.0.get(), f) } }
                }
                impl From<$t> for $n {
                    fn from(v: $t) -> Self { $n::new(v) }
                }
                impl serde::Serialize for $n {
                    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { unsafe { (*self.0.get()).serialize(s) } }
                }
                impl<'de> serde::Deserialize<'de> for $n {
                    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> { <$t>::deserialize(d).map($n::new) }
                }
                #[allow(clippy::missing_errors_doc)]
                impl $n {
                    pub const fn new(v: $t) -> Self { $n(UnsafeCell::new(v)) }
                    fn rmw(&self, f: impl FnOnce($t) -> $t) -> $t {
                        symrt::yield_now();
                        unsafe {
                            let o = *self.0.get();
                            *self.0.get() = f(o);
                            o
                        }
                    }
                    pub fn load(&self, _: Ordering) -> $t { self.rmw(|x| x) }
                    pub fn store(&self, v: $t, _: Ordering) { self.rmw(|_| v); }
                    pub fn swap(&self, v: $t, _: Ordering) -> $t { self.rmw(|_| v) }
                    pub fn get_mut(&mut self) -> &mut $t { self.0.get_mut() }
                    pub fn into_inner(self) -> $t { self.0.into_inner() }
                    pub fn fetch_and(&self, v: $t, _: Ordering) -> $t { self.rmw(|x| x & v) }
                    pub fn fetch_or(&self, v: $t, _: Ordering) -> $t { self.rmw(|x| x | v) }
                    pub fn fetch_xor(&self, v: $t, _: Ordering) -> $t { self.rmw(|x| x ^ v) }
                    pub fn fetch_nand(&self, v: $t, _: Ordering) -> $t { self.rmw(|x| !(x & v)) }
                    pub fn compare_exchange(&self, old: $t, new: $t, _: Ordering, _: Ordering) -> Result<$t, $t> {
                        symrt::yield_now();
                        unsafe {
                            let o = *self.0.get();
                            if o == old {
                                *self.0.get() = new;
                                Ok(o)
                            } else {
                                Err(o)
                            }
                        }
                    }
                    pub fn compare_exchange_weak(&self, old: $t, new: $t, a: Ordering, b: Ordering) -> Result<$t, $t> { self.compare_exchange(old, new, a, b) }
                    pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, a: Ordering, b: Ordering, f: F) -> Result<$t, $t> { self.try_update(a, b, f) }
                    // a loop around compare_exchange; whoever disturbs it has run before the load
                    pub fn try_update<F: FnMut($t) -> Option<$t>>(&self, _: Ordering, _: Ordering, mut f: F) -> Result<$t, $t> {
                        symrt::yield_now();
                        unsafe {
                            let o = *self.0.get();
                            match f(o) {
                                Some(n) => {
                                    *self.0.get() = n;
                                    Ok(o)
                                }
                                None => Err(o),
                            }
                        }
                    }
                    pub fn update<F: FnMut($t) -> $t>(&self, a: Ordering, b: Ordering, mut f: F) -> $t { self.try_update(a, b, |x| Some(f(x))).unwrap() }
                }
            )* };
        }
        at! { AtomicIsize isize; AtomicUsize usize; AtomicI64 i64; AtomicU64 u64; AtomicI32 i32; AtomicU32 u32; AtomicI16 i16; AtomicU16 u16; AtomicI8 i8; AtomicU8 u8; AtomicBool bool; }
        macro_rules! arith {
            ($($n:ident $t:ty;)*) => { $( impl $n {
                pub fn fetch_add(&self, v: $t, _: Ordering) -> $t { self.rmw(|x| x.wrapping_add(v)) }
                pub fn fetch_sub(&self, v: $t, _: Ordering) -> $t { self.rmw(|x| x.wrapping_sub(v)) }
                pub fn fetch_max(&self, v: $t, _: Ordering) -> $t { self.rmw(|x| x.max(v)) }
                pub fn fetch_min(&self, v: $t, _: Ordering) -> $t { self.rmw(|x| x.min(v)) }
            } )* };
        }
        arith! { AtomicIsize isize; AtomicUsize usize; AtomicI64 i64; AtomicU64 u64; AtomicI32 i32; AtomicU32 u32; AtomicI16 i16; AtomicU16 u16; AtomicI8 i8; AtomicU8 u8; }
    }
}
