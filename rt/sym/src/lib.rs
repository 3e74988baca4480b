//! Symbolic side of the harness interface: every primitive is resolved by the engine.
extern "C" {
    fn __sym_bits(w: u64) -> u64;
    fn __sym_assume(c: u64);
    fn __sym_check(c: u64, p: *const u8, n: u64);
    fn __sym_observe(v: u64);
    fn __sym_conc(v: u64) -> u64;
    fn __sym_end() -> !;
    fn __sym_panic_ok(on: u64);
}
/// a fresh value of `w` bits
#[inline(never)] pub fn bits(w: u32) -> u64 { unsafe { __sym_bits(w as u64) } }
#[inline(never)] pub fn assume(c: bool) { unsafe { __sym_assume(c as u64) } }
#[inline(never)] pub fn check(c: bool, tag: &str) { unsafe { __sym_check(c as u64, tag.as_ptr(), tag.len() as u64) } }
#[inline(never)] pub fn observe(v: u64) { unsafe { __sym_observe(v) } }
/// one concrete value of `v` per path
#[inline(never)] pub fn conc(v: u64) -> u64 { unsafe { __sym_conc(v) } }
#[inline(never)] pub fn end() -> ! { unsafe { __sym_end() } }
#[inline(never)] pub fn panic_ok(on: bool) { unsafe { __sym_panic_ok(on as u64) } }
pub fn set_order(x: u64) { vstd::set_order(x) }
pub fn native() -> bool { false }
pub fn entry(list: &[(&str, fn())]) { for (_, f) in list { std::hint::black_box(f)(); } }
pub fn last_written(path: &str) -> Option<Vec<u8>> { vstd::fs::last_written(path) }
pub fn put_file(path: &str, b: &[u8]) { vstd::fs::write(path, b).unwrap() }
pub fn short_write(n: usize) { vstd::fs::short_write(n) }
