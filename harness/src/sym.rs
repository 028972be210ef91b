//! Interface to the symbolic executor (or, on replay, to the concrete driver).

mod raw {
    #[link(wasm_import_module = "env")]
    extern "C" {
        pub fn sym_range(lo: u64, hi: u64) -> u64;
        pub fn sym_choice(n: u32) -> u32;
        pub fn sym_assume(c: u32);
        pub fn sym_check(c: u32, p: *const u8, n: usize);
        pub fn sym_reach(p: *const u8, n: usize);
        pub fn sym_observe(v: u64);
        pub fn sym_expect_panic(c: u32);
        pub fn sym_param(i: u32) -> i64;
        pub fn sym_alloc(size: usize, align: usize) -> *mut u8;
        pub fn sym_dealloc(p: *mut u8, size: usize, align: usize);
        pub fn sym_live() -> u32;
        pub fn sym_live_bytes() -> u32;
        pub fn sym_stop();
    }
}

/// an arbitrary value in lo..=hi
#[inline(always)]
pub fn range(lo: u64, hi: u64) -> u64 {
    unsafe { raw::sym_range(lo, hi) }
}
/// an arbitrary value in 0..=span, or, given a `far` above zero, perhaps that much more
pub fn near_or_far(span: u64, far: u64) -> u64 {
    let x = range(0, span);
    if far > 0 && choice(2) == 1 {
        x + far
    } else {
        x
    }
}
/// an arbitrary value in 0..n, one path each
#[inline(always)]
pub fn choice(n: u32) -> u32 {
    unsafe { raw::sym_choice(n) }
}
#[inline(always)]
pub fn assume(c: bool) {
    unsafe { raw::sym_assume(c as u32) }
}
#[inline(always)]
pub fn check(c: bool, what: &'static str) {
    unsafe { raw::sym_check(c as u32, what.as_ptr(), what.len()) }
}
/// this point was reached on a path that ran to its end (guards against vacuity)
#[inline(always)]
pub fn reach(what: &'static str) {
    unsafe { raw::sym_reach(what.as_ptr(), what.len()) }
}
#[inline(always)]
pub fn observe(v: u64) {
    unsafe { raw::sym_observe(v) }
}
#[inline(always)]
pub fn expect_panic(c: bool) {
    unsafe { raw::sym_expect_panic(c as u32) }
}
#[inline(always)]
pub fn param(i: u32) -> i64 {
    unsafe { raw::sym_param(i) }
}
/// number of live heap blocks
#[inline(always)]
pub fn live() -> u32 {
    unsafe { raw::sym_live() }
}
/// number of bytes in live heap blocks
#[inline(always)]
pub fn live_bytes() -> u32 {
    unsafe { raw::sym_live_bytes() }
}
#[inline(always)]
pub fn stop() {
    unsafe { raw::sym_stop() }
}

struct A;
unsafe impl std::alloc::GlobalAlloc for A {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        raw::sym_alloc(l.size(), l.align())
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        raw::sym_dealloc(p, l.size(), l.align())
    }
}
#[global_allocator]
static ALLOC: A = A;
