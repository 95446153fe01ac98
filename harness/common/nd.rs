//! Nondeterminism shim shared by all harness crates.
//!
//! * `cfg(rsx)`  – the crate is compiled to LLVM IR and executed symbolically by /verif/engine; `any()` is a symbolic value.
//! * `cfg(kani)` – the harness is a Kani proof; `any()` is a symbolic value.
//! * otherwise   – native replay: `any()` reads the next bytes of the counterexample given on the command line, so that the very
//!   same harness body runs against the ordinary build of the code under test.
#![allow(dead_code, unused_imports, unused_macros)]

#[cfg(rsx)]
mod imp {
    extern "C" {
        fn rsym_u8() -> u8; fn rsym_u16() -> u16; fn rsym_u32() -> u32; fn rsym_u64() -> u64;
        fn rsym_assume(c: bool); fn rsym_assert(c: bool, id: u64); fn rsym_cover(id: u32, c: bool);
        fn rsym_real_fmt(on: bool); fn rsym_alloc_limit(n: u64); fn rsym_param(k: u64) -> u64; fn rsym_trace(v: u64); fn rsym_concretize(v: u64) -> u64;
    }
    pub trait Arb: Sized { fn arb() -> Self; }
    macro_rules! ints { ($($t:ty, $f:ident);*) => { $(impl Arb for $t { #[inline(always)] fn arb() -> Self { unsafe { $f() as $t } } })* } }
    ints!(u8, rsym_u8; i8, rsym_u8; u16, rsym_u16; i16, rsym_u16; u32, rsym_u32; i32, rsym_u32; u64, rsym_u64; i64, rsym_u64; usize, rsym_u64; isize, rsym_u64);
    impl Arb for bool { fn arb() -> Self { unsafe { rsym_u8() != 0 } } }
    impl Arb for f32 { fn arb() -> Self { f32::from_bits(unsafe { rsym_u32() }) } }
    impl Arb for f64 { fn arb() -> Self { f64::from_bits(unsafe { rsym_u64() }) } }
    impl<T: Arb, const N: usize> Arb for [T; N] { fn arb() -> Self { std::array::from_fn(|_| T::arb()) } }
    pub fn any<T: Arb>() -> T { T::arb() }
    pub fn assume(c: bool) { unsafe { rsym_assume(c) } }
    pub fn check_at(c: bool, line: u32) { unsafe { rsym_assert(c, line as u64) } }
    pub fn cover_at(id: u32, c: bool) { unsafe { rsym_cover(id, c) } }
    pub fn real_fmt(on: bool) { unsafe { rsym_real_fmt(on) } }
    pub fn alloc_limit(n: usize) { unsafe { rsym_alloc_limit(n as u64) } }
    pub fn tier() -> u64 { unsafe { rsym_param(0) } }
    pub fn trace(v: u64) { unsafe { rsym_trace(v) } }
    /// Split the execution on the values of `v`.
    pub fn split(v: usize) -> usize { unsafe { rsym_concretize(v as u64) as usize } }
    #[no_mangle] pub extern "C" fn rsym_empty_string(out: *mut String) { unsafe { core::ptr::write(out, String::new()) } }
}

#[cfg(kani)]
mod imp {
    pub fn any<T: kani::Arbitrary>() -> T { kani::any() }
    pub fn assume(c: bool) { kani::assume(c) }
    pub fn fmt_stub(_: std::fmt::Arguments<'_>) -> String { String::new() }
    pub fn check_at(c: bool, _line: u32) { assert!(c) }
    pub fn cover_at(_id: u32, c: bool) { kani::cover!(c) }
    pub fn real_fmt(_: bool) {}
    pub fn alloc_limit(_: usize) {}
    pub fn tier() -> u64 { 0 }
    pub fn trace(_: u64) {}
    pub fn split(v: usize) -> usize { v }
}

#[cfg(not(any(kani, rsx)))]
mod imp {
    use std::cell::RefCell;
    use std::alloc::{GlobalAlloc, Layout, System};
    use std::sync::atomic::{AtomicUsize, Ordering};
    pub struct Limited;
    static LIMIT: AtomicUsize = AtomicUsize::new(1 << 28);
    fn guard(n: usize) { if n > LIMIT.load(Ordering::Relaxed) { LIMIT.store(usize::MAX, Ordering::Relaxed); eprintln!("EXCESSIVE-ALLOCATION of {n} bytes"); std::process::abort() } }
    unsafe impl GlobalAlloc for Limited {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 { guard(l.size()); System.alloc(l) }
        unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { guard(l.size()); System.alloc_zeroed(l) }
        unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { guard(n); System.realloc(p, l, n) }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
    }
    #[global_allocator] static A: Limited = Limited;
    thread_local! { static INPUT: RefCell<(Vec<u8>, usize)> = const { RefCell::new((Vec::new(), 0)) }; static TIER: RefCell<u64> = const { RefCell::new(0) }; }
    fn take(n: usize) -> Vec<u8> {
        INPUT.with(|i| { let mut i = i.borrow_mut(); let at = i.1; i.1 += n; (at..at + n).map(|k| i.0.get(k).copied().unwrap_or(0)).collect() })
    }
    pub trait Arb: Sized { fn arb() -> Self; }
    macro_rules! ints { ($($t:ty),*) => { $(impl Arb for $t { fn arb() -> Self { <$t>::from_le_bytes(take(std::mem::size_of::<$t>()).try_into().unwrap()) } })* } }
    ints!(u8, i8, u16, i16, u32, i32, u64, i64, usize, isize, f32, f64);
    impl Arb for bool { fn arb() -> Self { u8::arb() != 0 } }
    impl<T: Arb, const N: usize> Arb for [T; N] { fn arb() -> Self { std::array::from_fn(|_| T::arb()) } }
    pub fn any<T: Arb>() -> T { T::arb() }
    /// Exit status 77: the values do not satisfy the harness's own assumptions.
    pub fn assume(c: bool) { if !c { eprintln!("ASSUMPTION-NOT-MET"); std::process::exit(77) } }
    pub fn check_at(c: bool, line: u32) { if !c { eprintln!("CHECK-FAILED at harness line {line}"); std::process::exit(99) } }
    pub fn cover_at(_: u32, _: bool) {}
    pub fn real_fmt(_: bool) {}
    pub fn alloc_limit(n: usize) { LIMIT.store(n, Ordering::Relaxed) }
    pub fn tier() -> u64 { TIER.with(|t| *t.borrow()) }
    pub fn trace(v: u64) { if std::env::var_os("RSX_TRACE").is_some() { println!("TRACE {v}") } }
    pub fn split(v: usize) -> usize { v }
    /// `replay <harness> <tier 0|1> <hex bytes>`
    pub fn replay(lists: &[&[(&str, fn())]]) {
        let a: Vec<String> = std::env::args().collect();
        let f = lists.iter().flat_map(|l| l.iter()).find(|(n, _)| *n == a[1]).unwrap_or_else(|| { eprintln!("NO-SUCH-HARNESS"); std::process::exit(78) }).1;
        let hex = a.get(3).cloned().unwrap_or_default();
        let bytes = (0..hex.len() / 2).map(|i| u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).unwrap()).collect();
        TIER.with(|t| *t.borrow_mut() = a.get(2).and_then(|x| x.parse().ok()).unwrap_or(0));
        INPUT.with(|i| *i.borrow_mut() = (bytes, 0));
        f();
        println!("HARNESS-PASSED");
    }
}

pub use imp::*;

/// Discard the error without running its (recursive) drop glue.
pub fn ok<T, E>(r: Result<T, E>) -> Option<T> {
    match r { Ok(v) => Some(v), Err(e) => { core::mem::forget(e); None } }
}
/// Quick / thorough bound.
pub fn bound(quick: usize, thorough: usize) -> usize { if tier() == 0 { quick } else { thorough } }
/// A length in 0..=max, split into one path per value.
pub fn len(max: usize) -> usize { let n: u8 = any(); assume(n as usize <= max); split(n as usize) }
pub fn bytes(n: usize) -> Vec<u8> { let mut v = Vec::with_capacity(n); for _ in 0..n { v.push(any::<u8>()) } v }
/// An arbitrary valid UTF-8 string of exactly n bytes.
pub fn utf8(n: usize) -> String { let b = bytes(n); match String::from_utf8(b) { Ok(s) => s, Err(_) => { assume(false); unreachable!() } } }
/// An arbitrary ASCII string (any of the 128 values) of exactly n bytes.
pub fn ascii(n: usize) -> String { let b = bytes(n); for x in &b { assume(*x < 128); } unsafe { String::from_utf8_unchecked(b) } }

/// The property assertion.
#[macro_export]
macro_rules! check { ($c:expr) => { $crate::nd::check_at($c, line!()) }; }
/// Vacuity witness: the check fails unless some execution makes the condition true.
#[macro_export]
macro_rules! cover { ($id:expr, $c:expr) => { $crate::nd::cover_at($id, $c) }; }

/// Harnesses executed by /verif/engine.
#[macro_export]
macro_rules! harnesses {
    ($( $(#[$m:meta])* fn $name:ident() $body:block )*) => {
        $( $(#[$m])* #[cfg_attr(rsx, no_mangle)] #[allow(improper_ctypes_definitions)] pub extern "C" fn $name() { (|| $body)() } )*
        #[allow(dead_code)] pub const LIST_S: &[(&str, fn())] = &[ $( (stringify!($name), || $name()) ),* ];
    };
}
/// Kani proof harnesses.
#[macro_export]
macro_rules! kani_harnesses {
    ($( $(#[$m:meta])* fn $name:ident() $body:block )*) => {
        $( $(#[$m])* #[cfg_attr(kani, kani::proof)] #[cfg_attr(kani, kani::stub(alloc::fmt::format, crate::nd::fmt_stub))] pub fn $name() $body )*
        #[allow(dead_code)] pub const LIST_K: &[(&str, fn())] = &[ $( (stringify!($name), $name as fn()) ),* ];
    };
}
