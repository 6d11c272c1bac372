//! Symbolic-execution interface. Under zsym these calls create symbolic values and
//! proof obligations; natively (zs_rt.c) they read the values of a counterexample or
//! sample path from a file and check the same obligations concretely.
#![allow(dead_code)]
extern "C" {
    fn zs_sym(p: *mut u8, n: usize, name: *const u8, nl: usize);
    fn zs_int(lo: u64, hi: u64, name: *const u8, nl: usize) -> u64;
    fn zs_pick(n: u64, name: *const u8, nl: usize) -> u64;
    fn zs_assume(c: u8);
    fn zs_assert(c: u8, msg: *const u8, nl: usize);
    fn zs_fail(msg: *const u8, nl: usize) -> !;
    fn zs_reach(l: *const u8, nl: usize);
    fn zs_obs(tag: u64, v: u64);
    fn zs_obs_bytes(tag: u64, p: *const u8, n: usize);
    fn zs_conc(v: u64) -> u64;
}
/// Fill with arbitrary bytes.
pub fn bytes(b: &mut [u8], name: &'static str) {
    unsafe { zs_sym(b.as_mut_ptr(), b.len(), name.as_ptr(), name.len()) }
}
pub fn vec(n: usize, name: &'static str) -> Vec<u8> {
    let mut v = vec![0u8; n];
    bytes(&mut v, name);
    v
}
/// Any value in lo..=hi, left symbolic.
pub fn int(lo: u64, hi: u64, name: &'static str) -> u64 {
    unsafe { zs_int(lo, hi, name.as_ptr(), name.len()) }
}
/// Any value in 0..n, by case split (concrete afterwards).
pub fn pick(n: u64, name: &'static str) -> usize {
    unsafe { zs_pick(n, name.as_ptr(), name.len()) as usize }
}
/// Any value in 0..n as a symbolic variable; the caller branches on it and the solver decides which branches exist.
pub fn choose(n: u64, name: &'static str) -> u64 {
    int(0, n - 1, name)
}
pub fn assume(c: bool) {
    unsafe { zs_assume(c as u8) }
}
pub fn check(c: bool, msg: &'static str) {
    unsafe { zs_assert(c as u8, msg.as_ptr(), msg.len()) }
}
pub fn fail(msg: &'static str) -> ! {
    unsafe { zs_fail(msg.as_ptr(), msg.len()) }
}
pub fn reach(l: &'static str) {
    unsafe { zs_reach(l.as_ptr(), l.len()) }
}
/// Observation used to validate paths against the real binary.
pub fn obs(tag: u64, v: u64) {
    unsafe { zs_obs(tag, v) }
}
pub fn obs_bytes(tag: u64, b: &[u8]) {
    unsafe { zs_obs_bytes(tag, b.as_ptr(), b.len()) }
}
/// Solver-driven case split over the feasible values.
pub fn conc(v: u64) -> u64 {
    unsafe { zs_conc(v) }
}
/// One assertion for "all bytes equal" (no branching).
pub fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut d = 0u8;
    for i in 0..a.len() {
        d |= a[i] ^ b[i];
    }
    d == 0
}
extern "C" {
    fn zs_allow_panic(on: u8);
}
/// From here on a panic is one of the acceptable outcomes (documented panics only).
pub fn allow_panic(on: bool) {
    unsafe { zs_allow_panic(on as u8) }
}
