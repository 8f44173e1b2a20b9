//! What a call into the parser costs: steps (control-flow edges of instrumented code), stack depth and
//! heap use. The instrumentation is LLVM's (tools/rustc-wrap); its callbacks are here. Counted in
//! program terms, not in time, so the figures are as repeatable as everything else.

use std::alloc::{GlobalAlloc, Layout, System};
use std::ptr::{addr_of, addr_of_mut, read_volatile as rd, write_volatile as wr};

static mut STEPS: u64 = 0;
static mut LIMIT: u64 = u64::MAX;
static mut LOW: usize = usize::MAX;
static mut COUNTING: bool = false;
static mut LIVE: i64 = 0;
static mut PEAK: i64 = 0;
static mut TOTAL: u64 = 0;
static mut ALLOCS: u64 = 0;

pub const EDGES: usize = 1 << 15;
static mut HIT: [u8; EDGES] = [0; EDGES];
static mut KNOWN: u32 = 0;

/// Exit status of a process whose parser was given up on.
pub const HUNG: i32 = 97;

#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct Cost {
    pub steps: u64,
    pub stack: u64,
    /// Heap bytes allocated and not freed by the call, at its end and at most; all allocated; how often.
    pub kept: i64,
    pub peak: i64,
    pub total: u64,
    pub allocs: u64,
    /// Pages of the slice touched, if that was watched.
    pub pages: Option<u64>,
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    let n = rd(addr_of!(STEPS)) + 1;
    wr(addr_of_mut!(STEPS), n);
    wr(addr_of_mut!(HIT[*g as usize % EDGES]), 1);
    let here = 0u8;
    let sp = &here as *const u8 as usize;
    if sp < rd(addr_of!(LOW)) {
        wr(addr_of_mut!(LOW), sp);
    }
    if n > rd(addr_of!(LIMIT)) {
        give_up();
    }
}

#[cold]
#[inline(never)]
fn give_up() {
    extern "C" {
        fn _exit(c: i32) -> !;
    }
    unsafe { _exit(HUNG) }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    let mut p = start;
    if start == stop || *start != 0 {
        return;
    }
    while p < stop {
        let n = rd(addr_of!(KNOWN)) + 1;
        wr(addr_of_mut!(KNOWN), n);
        *p = n;
        p = p.add(1);
    }
}

/// Instrumented edges, and those executed so far in this process.
pub fn edges() -> (u32, Vec<u32>) {
    unsafe {
        let n = rd(addr_of!(KNOWN));
        (n, (1..=n).filter(|i| rd(addr_of!(HIT[*i as usize % EDGES])) != 0).collect())
    }
}

/// Starts counting; the process ends if the call takes more than `limit` steps.
#[inline(never)]
pub fn begin(limit: u64) -> usize {
    let here = 0u8;
    unsafe {
        wr(addr_of_mut!(STEPS), 0);
        wr(addr_of_mut!(LIMIT), limit);
        wr(addr_of_mut!(LOW), usize::MAX);
        wr(addr_of_mut!(LIVE), 0);
        wr(addr_of_mut!(PEAK), 0);
        wr(addr_of_mut!(TOTAL), 0);
        wr(addr_of_mut!(ALLOCS), 0);
        wr(addr_of_mut!(COUNTING), true);
    }
    &here as *const u8 as usize
}

#[inline(never)]
pub fn end(base: usize) -> Cost {
    unsafe {
        wr(addr_of_mut!(COUNTING), false);
        wr(addr_of_mut!(LIMIT), u64::MAX);
        Cost {
            steps: rd(addr_of!(STEPS)),
            stack: base.saturating_sub(rd(addr_of!(LOW))) as u64,
            kept: rd(addr_of!(LIVE)),
            peak: rd(addr_of!(PEAK)),
            total: rd(addr_of!(TOTAL)),
            allocs: rd(addr_of!(ALLOCS)),
            pages: None,
        }
    }
}

/// While this lives, heap use is the handler's own and not counted.
pub struct Mine(bool);

impl Mine {
    #[inline]
    pub fn new() -> Mine {
        unsafe {
            let was = rd(addr_of!(COUNTING));
            wr(addr_of_mut!(COUNTING), false);
            Mine(was)
        }
    }
}

impl Drop for Mine {
    #[inline]
    fn drop(&mut self) {
        unsafe { wr(addr_of_mut!(COUNTING), self.0) }
    }
}

pub struct Heap;

unsafe fn note(d: i64, total: u64) {
    if rd(addr_of!(COUNTING)) {
        let l = rd(addr_of!(LIVE)) + d;
        wr(addr_of_mut!(LIVE), l);
        if l > rd(addr_of!(PEAK)) {
            wr(addr_of_mut!(PEAK), l);
        }
        wr(addr_of_mut!(TOTAL), rd(addr_of!(TOTAL)) + total);
        if total > 0 {
            wr(addr_of_mut!(ALLOCS), rd(addr_of!(ALLOCS)) + 1);
        }
    }
}

unsafe impl GlobalAlloc for Heap {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size() as i64, l.size() as u64);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(l.size() as i64, l.size() as u64);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        note(-(l.size() as i64), 0);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(n as i64 - l.size() as i64, n as u64);
        System.realloc(p, l, n)
    }
}

#[global_allocator]
static HEAP: Heap = Heap;
