//! Harness runtime.
//!
//! In the symbolic build every primitive is an extern the `symex` engine
//! implements.  In the `native` build the same harness runs on real hardware
//! against the unmodified dependencies, consuming the byte stream of a model the
//! solver produced.

#[cfg(not(feature = "native"))]
mod imp {
    extern "C" {
        pub fn __sym_bytes(p: *mut u8, n: usize);
        pub fn __sym_assume(c: bool);
        pub fn __sym_assert(c: bool, id: *const u8, n: usize);
        pub fn __sym_cover(id: *const u8, n: usize);
        pub fn __sym_known(id: *const u8, n: usize);
        pub fn __sym_log(p: *const u8, n: usize);
        pub fn __sym_expect_panic(e: bool);
        pub fn __sym_concretize(x: u64) -> u64;
        pub fn __sym_choice(n: u32) -> u32;
    }
}

#[cfg(feature = "native")]
mod imp {
    #![allow(non_snake_case)]
    use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
    pub static INPUT: std::sync::OnceLock<Vec<u8>> = std::sync::OnceLock::new();
    pub static POS: AtomicUsize = AtomicUsize::new(0);
    pub static LOG: AtomicU64 = AtomicU64::new(0xcbf29ce484222325);
    pub static EXPECT: AtomicBool = AtomicBool::new(false);
    pub fn finish(status: &str) -> ! {
        #[cfg(feature = "sys")]
        crate::sys::stdout_end();
        println!("\nREPLAY {} LOG {:016x}", status.replace('\n', " "), LOG.load(Relaxed));
        std::process::exit(0)
    }
    unsafe fn s<'a>(p: *const u8, n: usize) -> &'a str {
        std::str::from_utf8_unchecked(std::slice::from_raw_parts(p, n))
    }
    pub unsafe fn __sym_bytes(p: *mut u8, n: usize) {
        let i = INPUT.get().unwrap();
        let at = POS.fetch_add(n, Relaxed);
        for k in 0..n {
            // Inputs past the end of the model are unconstrained
            *p.add(k) = i.get(at + k).copied().unwrap_or(0);
        }
    }
    pub unsafe fn __sym_assume(c: bool) {
        if !c {
            finish("assume")
        }
    }
    pub unsafe fn __sym_assert(c: bool, id: *const u8, n: usize) {
        if !c {
            finish(&format!("assert {}", s(id, n)))
        }
    }
    pub unsafe fn __sym_cover(_: *const u8, _: usize) {}
    pub unsafe fn __sym_known(_: *const u8, _: usize) {}
    pub unsafe fn __sym_log(p: *const u8, n: usize) {
        let mut h = LOG.load(Relaxed);
        for b in std::slice::from_raw_parts(p, n) {
            h = (h ^ *b as u64).wrapping_mul(0x100000001b3);
        }
        LOG.store(h, Relaxed);
        if std::env::var_os("SYM_SHOW").is_some() {
            println!("  log {:?}", String::from_utf8_lossy(std::slice::from_raw_parts(p, n)));
        }
    }
    pub unsafe fn __sym_expect_panic(e: bool) {
        EXPECT.store(e, Relaxed)
    }
    pub unsafe fn __sym_concretize(x: u64) -> u64 {
        x
    }
    pub unsafe fn __sym_choice(n: u32) -> u32 {
        let mut b = 0u8;
        __sym_bytes(&mut b, 1);
        __sym_assume((b as u32) < n);
        b as u32
    }
}
use imp::*;

/// N arbitrary bytes
#[inline(always)]
pub fn bytes<const N: usize>() -> [u8; N] {
    let mut b = [0u8; N];
    unsafe { __sym_bytes(b.as_mut_ptr(), N) };
    b
}
/// Fill a buffer with arbitrary bytes
pub fn fill(b: &mut [u8]) {
    unsafe { __sym_bytes(b.as_mut_ptr(), b.len()) }
}
pub fn u8() -> u8 {
    bytes::<1>()[0]
}
pub fn u16() -> u16 {
    u16::from_le_bytes(bytes())
}
pub fn u32() -> u32 {
    u32::from_le_bytes(bytes())
}
pub fn u64() -> u64 {
    u64::from_le_bytes(bytes())
}
pub fn i64() -> i64 {
    i64::from_le_bytes(bytes())
}
pub fn u128() -> u128 {
    u128::from_le_bytes(bytes())
}
pub fn usize() -> usize {
    u64() as usize
}
pub fn f64() -> f64 {
    f64::from_bits(u64())
}
pub fn f32() -> f32 {
    f32::from_bits(u32())
}
/// Arbitrary boolean (one bit of one byte)
pub fn bool() -> bool {
    u8() & 1 == 1
}
/// Restrict the rest of the path to inputs satisfying `c`
pub fn assume(c: bool) {
    unsafe { __sym_assume(c) }
}
/// The property: decided by the solver for every input of the path
pub fn check(c: bool, id: &str) {
    unsafe { __sym_assert(c, id.as_ptr(), id.len()) }
}
/// Witness that a situation of interest is reached
pub fn cover(id: &str) {
    unsafe { __sym_cover(id.as_ptr(), id.len()) }
}
/// Tag the rest of the path with the id of a known finding
pub fn known(id: &str) {
    unsafe { __sym_known(id.as_ptr(), id.len()) }
}
/// Observable output, compared between the symbolic and the native execution
pub fn log(b: &[u8]) {
    unsafe { __sym_log(b.as_ptr(), b.len()) }
}
pub fn log_u64(x: u64) {
    log(&x.to_le_bytes())
}
/// From here on a panic is the specified behaviour (or no longer is)
pub fn expect_panic(e: bool) {
    unsafe { __sym_expect_panic(e) }
}
/// Fork over the feasible values of x
pub fn concretize(x: u64) -> u64 {
    unsafe { __sym_concretize(x) }
}
/// Fork over 0..n
pub fn choice(n: u32) -> u32 {
    unsafe { __sym_choice(n) }
}

#[cfg(feature = "sys")]
pub mod sys;
#[cfg(feature = "os")]
pub mod os;

/// Is this the native (replay) build?
pub const NATIVE: bool = cfg!(feature = "native");

/// Entry point: keeps the harnesses alive in the symbolic build, replays one of
/// them on a concrete input in the native build.
#[cfg(not(feature = "native"))]
pub fn main(table: &[(&str, extern "C" fn())]) {
    let n = std::env::args().count();
    if n > 1000 {
        for (name, f) in table {
            if name.len() == n {
                f()
            }
        }
    }
}
#[cfg(feature = "native")]
pub fn main(table: &[(&str, extern "C" fn())]) {
    use std::sync::atomic::Ordering::*;
    let mut a = std::env::args().skip(1);
    let name = a.next().expect("harness name");
    let hex = a.next().unwrap_or_default();
    let b = (0..hex.len() / 2)
        .map(|i| u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).unwrap())
        .collect();
    imp::INPUT.set(b).unwrap();
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if imp::EXPECT.load(Relaxed) {
            imp::finish("expected_panic")
        }
        let m = i.payload().downcast_ref::<String>().cloned().or_else(|| i.payload().downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default();
        imp::finish(&format!("panic at {} {}", loc, m))
    }));
    let f = table.iter().find(|x| x.0 == name).expect("unknown harness").1;
    f();
    imp::finish("ok")
}

/// Declare harnesses: `harnesses! { fn h_x() { … } … }`
#[macro_export]
macro_rules! harnesses {
    ($($(#[$m:meta])* fn $n:ident() $b:block)*) => {
        $($(#[$m])* #[no_mangle] #[inline(never)] pub extern "C" fn $n() $b)*
        pub const TABLE: &[(&str, extern "C" fn())] = &[$((stringify!($n), $n as extern "C" fn())),*];
    };
}
