//! A legal but unfriendly allocator: `realloc` always moves the block, and
//! freed or abandoned memory is overwritten. Code that keeps a pointer into a
//! buffer that was reallocated or freed then reads rubbish right away instead
//! of getting away with it because the system allocator shrinks in place.
//!
//! It also counts what is allocated, and refuses to go beyond a limit, so that
//! runaway code under test ends this process and not the sandbox.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

pub struct MovingAlloc;

const POISON: u8 = 0xA5;
const POISON_MAX: usize = 1 << 16;
pub const LIMIT: usize = 3 << 30;

static LIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);

/// Starts measuring: the peak is counted from now on.
pub fn reset_peak() -> usize {
    let l = LIVE.load(Relaxed);
    PEAK.store(l, Relaxed);
    l
}

pub fn peak() -> usize {
    PEAK.load(Relaxed)
}

fn take(n: usize) -> bool {
    let l = LIVE.fetch_add(n, Relaxed) + n;
    if l > PEAK.load(Relaxed) {
        PEAK.store(l, Relaxed);
    }
    if l > LIMIT {
        LIVE.fetch_sub(n, Relaxed);
        return false;
    }
    true
}

unsafe impl GlobalAlloc for MovingAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !take(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !take(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        std::ptr::write_bytes(p, POISON, l.size().min(POISON_MAX));
        LIVE.fetch_sub(l.size(), Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new_size: usize) -> *mut u8 {
        let nl = Layout::from_size_align_unchecked(new_size, l.align());
        let q = self.alloc(nl);
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(new_size));
            self.dealloc(p, l);
        }
        q
    }
}
