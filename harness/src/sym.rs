//! The interface between harnesses and the symbolic executor (natively: shim.c).
extern "C" {
    fn sym_bits(w: u32, n: *const u8, l: usize) -> u64;
    fn sym_assume(c: bool);
    fn sym_assert(c: bool, n: *const u8, l: usize);
    fn sym_cover(n: *const u8, l: usize);
    fn sym_observe(v: u64);
    fn sym_concrete(v: u64) -> u64;
    fn sym_param(i: u32) -> u64;
}
pub fn bits(w: u32, n: &'static str) -> u64 { unsafe { sym_bits(w, n.as_ptr(), n.len()) } }
pub fn u8_(n: &'static str) -> u8 { bits(8, n) as u8 }
pub fn u32_(n: &'static str) -> u32 { bits(32, n) as u32 }
pub fn u64_(n: &'static str) -> u64 { bits(64, n) }
pub fn bool_(n: &'static str) -> bool { bits(1, n) != 0 }
pub fn f32_(n: &'static str) -> f32 { f32::from_bits(u32_(n)) }
pub fn f64_(n: &'static str) -> f64 { f64::from_bits(u64_(n)) }
pub fn assume(c: bool) { unsafe { sym_assume(c) } }
pub fn check(c: bool, n: &'static str) { unsafe { sym_assert(c, n.as_ptr(), n.len()) } }
pub fn cover(n: &'static str) { unsafe { sym_cover(n.as_ptr(), n.len()) } }
pub fn observe(v: u64) { unsafe { sym_observe(v) } }
pub fn concrete(v: u64) -> u64 { unsafe { sym_concrete(v) } }
/// one of n values, explored as separate concrete paths
pub fn choose(n: u64, name: &'static str) -> u64 { if n <= 1 { return 0; } let w = 64 - (n - 1).leading_zeros(); let v = bits(w, name); if !n.is_power_of_two() { assume(v < n); } concrete(v) }
/// one of n values, kept symbolic
pub fn pick(n: u64, name: &'static str) -> usize { let w = 64 - (n - 1).leading_zeros(); let v = bits(w, name); if !n.is_power_of_two() { assume(v < n); } v as usize }
pub fn param(i: u32) -> u64 { unsafe { sym_param(i) } }
/// number of live heap blocks allocated through Rust's allocator
static mut LIVE: i64 = 0;
pub fn heap_live() -> i64 { unsafe { LIVE } }
/// fault injection: (smallest block that may fail, index of the one that fails, whether all later ones fail too)
static mut FAULT: (usize, u64, bool) = (usize::MAX, 0, false);
static mut BIG: u64 = 0;
static mut FAILED: u64 = 0;
pub fn arm(min: usize, at: u64, later: bool) { unsafe { FAULT = (min, at, later); BIG = 0; FAILED = 0; } }
/// ends fault injection; returns how many allocations failed
pub fn disarm() -> u64 { unsafe { FAULT.0 = usize::MAX; FAILED } }
pub fn failed() -> u64 { unsafe { FAILED } }
/// the size of a hash table of the standard library: 2^k entries with a byte of control data each, and a group of control bytes.
/// Its growth is not reported by std's interface, so it does not take part.
fn is_table(n: usize) -> bool { let mut e = 8; while e <= 24 { let k = (n - 16) / (e + 1); if k * (e + 1) + 16 == n && k.is_power_of_two() { return true; } e += 4; } false }
#[inline(always)]
unsafe fn fails(n: usize) -> bool {
    if n < FAULT.0 || is_table(n) { return false; }
    let f = BIG == FAULT.1 || FAULT.2 && BIG > FAULT.1;
    BIG += 1;
    FAILED += u64::from(f);
    f
}
struct Counting;
unsafe impl std::alloc::GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 { if fails(l.size()) { return std::ptr::null_mut(); } LIVE += 1; std::alloc::System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) { LIVE -= 1; std::alloc::System.dealloc(p, l) }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 { if fails(l.size()) { return std::ptr::null_mut(); } LIVE += 1; std::alloc::System.alloc_zeroed(l) }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 { if n > l.size() && fails(n) { return std::ptr::null_mut(); } std::alloc::System.realloc(p, l, n) }
}
#[global_allocator]
static A: Counting = Counting;
