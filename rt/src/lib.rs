//! Interface between a harness and either the symbolic executor (default) or the native
//! replay runtime (feature `native`).  A harness creates symbolic inputs, constrains them with
//! `assume`, and states the property with `check`.
#[cfg(not(feature = "native"))]
mod imp {
    extern "C" {
        pub fn sym_bytes(p: *mut u8, n: usize, name: *const u8);
        pub fn sym_check(b: bool, id: u32);
        pub fn sym_assume(b: bool);
        pub fn sym_reach(id: u32);
        pub fn sym_observe(p: *const u8, n: usize);
        pub fn sym_choice(n: u64) -> u64;
        pub fn sym_concretize(n: u64) -> u64;
        pub fn sym_uf(id: u64, i: *const u8, n: usize, o: *mut u8, m: usize, inj: bool);
        pub fn sym_panic_ok(b: bool);
        pub fn sym_end() -> !;
        pub fn sym_steps() -> u64;
        pub fn sym_heap() -> u64;
    }
}
#[cfg(feature = "native")]
pub mod native;
#[cfg(feature = "native")]
use native as imp;

/// fill a buffer with unconstrained symbolic bytes
#[inline(always)]
pub fn fill(b: &mut [u8]) {
    unsafe { imp::sym_bytes(b.as_mut_ptr(), b.len(), b"b\0".as_ptr()) }
}
#[inline(always)]
pub fn bytes<const N: usize>() -> [u8; N] {
    let mut b = [0u8; N];
    fill(&mut b);
    b
}
/// a symbolic vector of exactly n bytes
#[inline(always)]
pub fn vec(n: usize) -> Vec<u8> {
    let mut b = vec![0u8; n];
    fill(&mut b);
    b
}
/// a symbolic vector of every length 0..=max
#[inline(always)]
pub fn vec_upto(max: usize) -> Vec<u8> {
    let n = choice(max + 1);
    vec(n)
}
/// forks: every value 0..n
#[inline(always)]
pub fn choice(n: usize) -> usize {
    unsafe { imp::sym_choice(n as u64) as usize }
}
#[inline(always)]
pub fn concretize(n: u64) -> u64 {
    unsafe { imp::sym_concretize(n) }
}
#[inline(always)]
pub fn assume(b: bool) {
    unsafe { imp::sym_assume(b) }
}
#[inline(always)]
pub fn check(b: bool, id: u32) {
    unsafe { imp::sym_check(b, id) }
}
#[inline(always)]
pub fn reach(id: u32) {
    unsafe { imp::sym_reach(id) }
}
#[inline(always)]
pub fn observe(b: &[u8]) {
    unsafe { imp::sym_observe(b.as_ptr(), b.len()) }
}
/// uninterpreted function application (native: taken from the stream)
#[inline(always)]
pub fn uf(id: u64, i: &[u8], o: &mut [u8], injective: bool) {
    unsafe { imp::sym_uf(id, i.as_ptr(), i.len(), o.as_mut_ptr(), o.len(), injective) }
}
/// from here on a panic is an acceptable outcome
#[inline(always)]
pub fn panic_ok(b: bool) {
    unsafe { imp::sym_panic_ok(b) }
}
#[inline(always)]
pub fn end() -> ! {
    unsafe { imp::sym_end() }
}
/// instructions executed so far on this path (0 natively)
#[inline(always)]
pub fn steps() -> u64 {
    unsafe { imp::sym_steps() }
}
/// heap bytes allocated so far on this path (0 natively)
#[inline(always)]
pub fn heap() -> u64 {
    unsafe { imp::sym_heap() }
}
macro_rules! ints { ($($f:ident $t:ty),*) => { $( #[inline(always)] pub fn $f() -> $t { <$t>::from_le_bytes(bytes()) } )* } }
ints!(u8 u8, u16 u16, u32 u32, u64 u64, u128 u128, i8 i8, i16 i16, i32 i32, i64 i64, i128 i128);
#[inline(always)]
pub fn bool() -> bool {
    choice(2) == 1
}

/// compare two byte strings as one condition (no short circuit: one path)
#[inline(always)]
pub fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut d = 0u8;
    for i in 0..a.len() {
        d |= a[i] ^ b[i];
    }
    d == 0
}

/// export harness functions both to the symbolic executor and to the native dispatch table
#[macro_export]
macro_rules! export {
    ($($f:ident),* $(,)?) => {
        #[cfg(not(feature = "native"))]
        pub mod sym_exports { $( #[no_mangle] pub extern "C" fn $f() { super::$f() } )* }
        #[cfg(feature = "native")]
        pub const TABLE: &[(&str, fn())] = &[ $( (stringify!($f), $f as fn()) ),* ];
    };
}

/// a number that is another one in every run of a harness in one process
#[cfg(feature = "native")]
pub fn run() -> usize { native::RUN.load(std::sync::atomic::Ordering::SeqCst) }
#[cfg(not(feature = "native"))]
pub fn run() -> usize { 1 }
