//! Receive memory: every slice given to a parser ends at an unmapped page, or starts behind one, so that
//! reading past it kills the run however it is done.

use std::cell::Cell;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

extern "C" {
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn mprotect(a: *mut u8, n: usize, prot: i32) -> i32;
}

const PAGE: usize = 4096;
const SIZE: usize = 64 << 20;

thread_local! {
    static BASE: Cell<usize> = Cell::new(0);
}

fn base() -> usize {
    BASE.with(|b| {
        if b.get() == 0 {
            // no access, private, anonymous, no reserve
            let p = unsafe { mmap(std::ptr::null_mut(), SIZE + 2 * PAGE, 0, 0x4022, -1, 0) };
            assert!(p as isize != -1, "mmap");
            let r = unsafe { mprotect(p.add(PAGE), SIZE, 3) };
            assert!(r == 0, "mprotect");
            b.set(p as usize + PAGE);
        }
        b.get()
    })
}

/// A copy of `d` at the end of the arena, or at its start. One at a time.
pub struct Slice {
    at: *mut u8,
    n: usize,
    big: Option<Box<[u8]>>,
}

// Watching: the pages of a slice are taken away before a call, and given back one by one as they are
// touched, by whatever code: `contains()` and its like are in std, where no steps are counted.

#[repr(C)]
struct Action {
    handler: usize,
    mask: [u64; 16],
    flags: i32,
    restorer: usize,
}

extern "C" {
    fn sigaction(s: i32, new: *const Action, old: *mut Action) -> i32;
}

static LO: AtomicUsize = AtomicUsize::new(0);
static HI: AtomicUsize = AtomicUsize::new(0);
static TOUCHED: AtomicUsize = AtomicUsize::new(0);

extern "C" fn on_fault(sig: i32, info: *const usize, _: *const u8) {
    let at = unsafe { *info.add(2) } & !(PAGE - 1);
    let ok = at >= LO.load(Relaxed) && at < HI.load(Relaxed);
    if ok && unsafe { mprotect(at as *mut u8, PAGE, 3) } == 0 {
        TOUCHED.fetch_add(1, Relaxed);
        return;
    }
    // not ours: die of it
    let default = Action { handler: 0, mask: [0; 16], flags: 0, restorer: 0 };
    unsafe { sigaction(sig, &default, std::ptr::null_mut()) };
}

impl Slice {
    pub fn new(d: &[u8], front: bool) -> Slice {
        if d.len() > SIZE {
            return Slice { at: std::ptr::null_mut(), n: d.len(), big: Some(d.into()) };
        }
        let at = (base() + if front { 0 } else { SIZE - d.len() }) as *mut u8;
        unsafe { std::ptr::copy_nonoverlapping(d.as_ptr(), at, d.len()) };
        Slice { at, n: d.len(), big: None }
    }
    /// From here on, the pages touched are counted.
    pub fn watch(&self) {
        assert!(self.big.is_none());
        static HANDLER: std::sync::Once = std::sync::Once::new();
        HANDLER.call_once(|| {
            // with siginfo, on the alternate stack
            let a = Action { handler: on_fault as *const () as usize, mask: [0; 16], flags: 0x0800_0004, restorer: 0 };
            assert!(unsafe { sigaction(11, &a, std::ptr::null_mut()) } == 0, "sigaction");
        });
        let lo = self.at as usize & !(PAGE - 1);
        let hi = (self.at as usize + self.n + PAGE - 1) & !(PAGE - 1);
        TOUCHED.store(0, Relaxed);
        LO.store(lo, Relaxed);
        HI.store(hi, Relaxed);
        assert!(unsafe { mprotect(lo as *mut u8, hi - lo, 0) } == 0, "mprotect");
    }
    /// How many they were; and the slice is as before.
    pub fn unwatch(&self) -> u64 {
        let (lo, hi) = (LO.swap(0, Relaxed), HI.swap(0, Relaxed));
        assert!(unsafe { mprotect(lo as *mut u8, hi - lo, 3) } == 0, "mprotect");
        TOUCHED.load(Relaxed) as u64
    }
    pub fn bytes(&self) -> &[u8] {
        match &self.big {
            Some(b) => b,
            None => unsafe { std::slice::from_raw_parts(self.at, self.n) },
        }
    }
}

impl Drop for Slice {
    fn drop(&mut self) {
        if self.big.is_none() {
            // whoever still looks here finds something else
            let n = self.n.min(512);
            unsafe { std::ptr::write_bytes(self.at.add(self.n - n), 0xDB, n) };
        }
    }
}

/// Up to 64 MiB of zeros in read-only memory, at the end of their mapping.
pub fn zeros(n: usize) -> &'static [u8] {
    thread_local! {
        static ZEROS: Cell<usize> = Cell::new(0);
    }
    assert!(n <= SIZE);
    ZEROS.with(|z| {
        if z.get() == 0 {
            let p = unsafe { mmap(std::ptr::null_mut(), SIZE + PAGE, 0, 0x4022, -1, 0) };
            assert!(p as isize != -1, "mmap");
            let r = unsafe { mprotect(p, SIZE, 1) };
            assert!(r == 0, "mprotect");
            z.set(p as usize);
        }
        unsafe { std::slice::from_raw_parts((z.get() + SIZE - n) as *const u8, n) }
    })
}
