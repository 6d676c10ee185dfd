//! Interface to the executor: symbolic execution, or native replay of one path.
extern "C-unwind" {
    fn sym_part(i: u32, p: *mut u8, cap: usize) -> usize;
    fn sym_fail(id: u32) -> !;
    fn sym_assume(c: bool);
    fn sym_reach(id: u32);
    fn sym_pick(x: u64) -> u64;
    fn sym_peak(start: u64) -> u64;
    fn sym_keep(p: *const u8, n: usize) -> !;
    fn sym_round() -> u32;
    fn sym_out(p: *const u8, n: usize);
}

/// the i-th input part
pub fn part(i: u32) -> Vec<u8> {
    let n = unsafe { sym_part(i, std::ptr::null_mut(), 0) };
    let mut b = vec![0u8; n];
    unsafe { sym_part(i, b.as_mut_ptr(), n) };
    b
}
pub fn part_str(i: u32) -> String {
    match String::from_utf8(part(i)) { Ok(s) => s, Err(_) => { assume(false); String::new() } }
}
#[inline(never)]
pub fn fail(id: u32) -> ! { unsafe { sym_fail(id) } }
pub fn check(c: bool, id: u32) { if !c { fail(id) } }
pub fn assume(c: bool) { unsafe { sym_assume(c) } }
/// marks a situation the templates must reach (vacuity guard)
pub fn reach(id: u32) { unsafe { sym_reach(id) } }
/// splits the path per value of x
pub fn pick(x: u8) -> usize { unsafe { sym_pick(x as u64) as usize } }
pub fn out(b: &[u8]) { unsafe { sym_out(b.as_ptr(), b.len()) } }
pub fn out_n(n: usize) { out(&(n as u32).to_le_bytes()) }
/// runs f on its own, then g with the result of f in a process that never ran f
pub fn fresh(f: impl FnOnce() -> Vec<u8>, g: impl FnOnce(Vec<u8>)) {
    if unsafe { sym_round() } == 0 {
        let b = f();
        unsafe { sym_keep(b.as_ptr(), b.len()) }
    }
    g(part(99))
}
/// stack needed by f, in bytes (natively) or frames * 64 (symbolically)
pub fn stack_of<T>(f: impl FnOnce() -> T) -> (T, u64) {
    unsafe { sym_peak(1) };
    let r = f();
    (r, unsafe { sym_peak(0) })
}
