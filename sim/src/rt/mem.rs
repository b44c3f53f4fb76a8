//! Counts the memory the system under test holds: every allocation carries a
//! tag that says whether one of its threads made it, outside the simulator.
use super::kernel::{active, k, tid};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicI64, Ordering};

static LIVE: AtomicI64 = AtomicI64::new(0);
static BLOCKS: AtomicI64 = AtomicI64::new(0);
thread_local! {
    static INSIDE: Cell<u32> = const { Cell::new(0) };
}

/// while it lives, what this thread allocates belongs to the simulator
pub struct In;
impl In {
    #[inline(always)]
    pub fn new() -> In {
        INSIDE.with(|c| c.set(c.get() + 1));
        In
    }
}
impl Drop for In {
    #[inline(always)]
    fn drop(&mut self) {
        INSIDE.with(|c| c.set(c.get() - 1));
    }
}

/// bytes and blocks the system under test holds
pub fn held() -> (i64, i64) {
    (LIVE.load(Ordering::Relaxed), BLOCKS.load(Ordering::Relaxed))
}

struct Counting;
#[global_allocator]
static A: Counting = Counting;

#[inline(always)]
fn pad(l: &Layout) -> usize {
    l.align().max(16)
}
fn count(size: usize, n: i64) {
    // the lists of waiters in crossbeam's channels (4, 8, 16 entries of 24
    // bytes) come into being when a thread first has to wait, and then stay
    if size % 96 != 0 {
        LIVE.fetch_add(n * size as i64, Ordering::Relaxed);
        BLOCKS.fetch_add(n, Ordering::Relaxed);
    }
}
unsafe fn mine() -> bool {
    active() && INSIDE.with(|c| c.get()) == 0 && k().thr[tid() as usize].sut
}
unsafe fn tag(p: *mut u8, l: &Layout) -> *mut u8 {
    if p.is_null() {
        return p;
    }
    let q = p.add(pad(l));
    let m = mine();
    *(q.sub(8) as *mut u64) = m as u64;
    if m {
        count(l.size(), 1);
    }
    q
}
unsafe fn padded(l: &Layout) -> Layout {
    Layout::from_size_align_unchecked(l.size() + pad(l), pad(l))
}
// never inlined: the tag lies outside of what the optimiser takes a block to be
unsafe impl GlobalAlloc for Counting {
    #[inline(never)]
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        tag(System.alloc(padded(&l)), &l)
    }
    #[inline(never)]
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        tag(System.alloc_zeroed(padded(&l)), &l)
    }
    #[inline(never)]
    unsafe fn dealloc(&self, q: *mut u8, l: Layout) {
        let q = std::hint::black_box(q);
        if *(q.sub(8) as *mut u64) == 1 {
            count(l.size(), -1);
        }
        System.dealloc(q.sub(pad(&l)), padded(&l))
    }
    #[inline(never)]
    unsafe fn realloc(&self, q: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = std::hint::black_box(q);
        let t = *(q.sub(8) as *mut u64);
        let p = System.realloc(q.sub(pad(&l)), padded(&l), n + pad(&l));
        if p.is_null() {
            return p;
        }
        if t == 1 {
            count(l.size(), -1);
            count(n, 1);
        }
        p.add(pad(&l))
    }
}
