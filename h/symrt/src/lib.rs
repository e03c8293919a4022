//! Runtime seen by the harnesses.  Symbolic build: the functions are externs interpreted by symex.
//! Native build (feature "native"): they pop the values of a recorded counterexample, so that the
//! same harness replays it on the really compiled code.
#[cfg(not(feature = "native"))]
mod ffi {
    extern "C" {
        pub fn sym_u8() -> u8;
        pub fn sym_u16() -> u16;
        pub fn sym_u32() -> u32;
        pub fn sym_u64() -> u64;
        pub fn sym_bool() -> bool;
        pub fn sym_u128(p: *mut u128);
        pub fn sym_range(lo: u64, hi: u64) -> u64;
        pub fn sym_choice(n: u64) -> u64;
        pub fn sym_concretize(v: u64) -> u64;
        pub fn sym_assume(c: bool);
        pub fn sym_check(c: bool, p: *const u8, n: usize);
        pub fn sym_reach(id: u32);
        pub fn sym_expect_panic(id: u32);
        pub fn sym_kill() -> !;
        pub fn sym_bytes(p: *mut u8, n: usize);
        pub fn sym_param(i: u64) -> u64;
        pub fn sym_yield();
        pub fn sym_spawn(f: extern "C" fn(u64), arg: u64) -> u64;
        pub fn sym_wait_eq(p: *const u64, v: u64);
        pub fn sym_wait_ne(p: *const u64, v: u64);
        pub fn sym_tid() -> u64;
        pub fn sym_note(label: u64, v: u64);
        pub fn sym_is_symbolic(v: u64) -> bool;
    }
}
#[cfg(feature = "native")]
mod native;
#[cfg(feature = "native")]
use native as ffi;
#[cfg(feature = "native")]
pub use native::replay_main;

macro_rules! wrap {
    ($($n:ident, $f:ident, $t:ty;)*) => { $( #[inline(always)] pub fn $n() -> $t { unsafe { ffi::$f() } } )* };
}
wrap! { u8, sym_u8, u8; u16, sym_u16, u16; u32, sym_u32, u32; u64, sym_u64, u64; bool, sym_bool, bool; }
#[inline(always)]
pub fn u128() -> u128 {
    let mut x = 0u128;
    unsafe { ffi::sym_u128(&mut x) };
    x
}
/// symbolic value in lo..=hi
#[inline(always)]
pub fn range(lo: u64, hi: u64) -> u64 { unsafe { ffi::sym_range(lo, hi) } }
/// value in 0..n, one path per value
#[inline(always)]
pub fn choice(n: u64) -> u64 { unsafe { ffi::sym_choice(n) } }
/// value in lo..=hi, one path per value
#[inline(always)]
pub fn pick(lo: u64, hi: u64) -> u64 { lo + choice(hi - lo + 1) }
#[inline(always)]
pub fn concretize(v: u64) -> u64 { unsafe { ffi::sym_concretize(v) } }
#[inline(always)]
pub fn assume(c: bool) { unsafe { ffi::sym_assume(c) } }
#[inline(always)]
pub fn check(c: bool, msg: &'static str) { unsafe { ffi::sym_check(c, msg.as_ptr(), msg.len()) } }
/// path marker: this point was reached on a completed path
#[inline(always)]
pub fn reach(id: u32) { unsafe { ffi::sym_reach(id) } }
/// from here to `no_panic` a panic ends the path as reach(id), not as a violation
#[inline(always)]
pub fn expect_panic(id: u32) { unsafe { ffi::sym_expect_panic(id) } }
#[inline(always)]
pub fn no_panic() { unsafe { ffi::sym_expect_panic(u32::MAX) } }
/// silently ends the path
#[inline(always)]
pub fn kill() -> ! { unsafe { ffi::sym_kill() } }
#[inline(always)]
pub fn bytes(b: &mut [u8]) { unsafe { ffi::sym_bytes(b.as_mut_ptr(), b.len()) } }
#[inline(always)]
pub fn param(i: u64) -> u64 { unsafe { ffi::sym_param(i) } }
#[inline(always)]
pub fn yield_now() { unsafe { ffi::sym_yield() } }
#[inline(always)]
pub fn spawn(f: extern "C" fn(u64), arg: u64) -> u64 { unsafe { ffi::sym_spawn(f, arg) } }
#[inline(always)]
pub fn wait_eq(p: *const u64, v: u64) { unsafe { ffi::sym_wait_eq(p, v) } }
#[inline(always)]
pub fn wait_ne(p: *const u64, v: u64) { unsafe { ffi::sym_wait_ne(p, v) } }
#[inline(always)]
pub fn tid() -> u64 { unsafe { ffi::sym_tid() } }
#[inline(always)]
pub fn note(label: u64, v: u64) { unsafe { ffi::sym_note(label, v) } }
#[inline(always)]
pub fn is_symbolic(v: u64) -> bool { unsafe { ffi::sym_is_symbolic(v) } }

/// Declares the entry points of a harness crate:  entries! { h_a => a(), ... }
#[macro_export]
macro_rules! entries {
    ($($n:ident => $e:expr;)*) => {
        $( #[no_mangle] pub extern "C" fn $n() { $e } )*
        pub const ENTRIES: &[(&str, extern "C" fn())] = &[ $( (stringify!($n), $n) ),* ];
    };
}
