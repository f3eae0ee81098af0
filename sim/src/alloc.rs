//! Counting allocator: attributes memory to the connection object whose call allocated it.
use std::alloc::{GlobalAlloc, Layout, System};

pub const OWNERS: usize = 512;
/// 0: the simulator itself.
static mut OWNER: usize = 0;
static mut LIVE: [i64; OWNERS] = [0; OWNERS];
static mut PEAK: [i64; OWNERS] = [0; OWNERS];
static mut COUNT: [u64; OWNERS] = [0; OWNERS];
/// An object holding this much is stopped on the spot (memory exhaustion).
pub const HARD_CAP: i64 = 64 << 20;

pub struct Counting;

const HDR: usize = 16;
/// Bytes behind every allocation; they must be intact when it is freed.
const TAIL: usize = 16;
const TAIL_BYTE: u8 = 0xe7;
const FREED: u8 = 0xdd;
/// What memory holds before anything is written to it.
static mut FRESH: u8 = 0xa5;

pub fn set_fresh(b: u8) {
    unsafe { FRESH = b }
}

unsafe fn outer(l: Layout) -> (usize, Layout) {
    let h = l.align().max(HDR);
    (h, Layout::from_size_align_unchecked(l.size() + h + TAIL, h))
}

unsafe fn mark(base: *mut u8, h: usize, l: Layout) -> *mut u8 {
    *(base as *mut usize) = OWNER;
    let p = base.add(h);
    std::ptr::write_bytes(p.add(l.size()), TAIL_BYTE, TAIL);
    charge(OWNER, l.size() as i64);
    p
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let (h, o) = outer(l);
        let b = System.alloc(o);
        if b.is_null() {
            return b;
        }
        let p = mark(b, h, l);
        std::ptr::write_bytes(p, FRESH, l.size());
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let (h, o) = outer(l);
        let b = System.alloc_zeroed(o);
        if b.is_null() {
            return b;
        }
        mark(b, h, l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let (h, ol) = outer(l);
        let base = p.sub(h);
        let o = *(base as *mut usize);
        let tail = p.add(l.size());
        if o >= OWNERS || (0..TAIL).any(|i| *tail.add(i) != TAIL_BYTE) {
            crate::runner::die_smashed();
        }
        LIVE[o] -= l.size() as i64;
        // freed twice: the mark of the owner is gone
        *(base as *mut usize) = usize::MAX;
        std::ptr::write_bytes(p, FREED, l.size());
        System.dealloc(base, ol);
    }
}

unsafe fn charge(o: usize, n: i64) {
    LIVE[o] += n;
    COUNT[o] += 1;
    if LIVE[o] > PEAK[o] {
        PEAK[o] = LIVE[o];
        if o != 0 && LIVE[o] > HARD_CAP {
            crate::runner::die_memory();
        }
    }
}

pub fn set_owner(o: usize) -> usize {
    unsafe {
        let old = OWNER;
        OWNER = o % OWNERS;
        old
    }
}
pub fn live(o: usize) -> i64 {
    unsafe { LIVE[o % OWNERS] }
}
pub fn peak(o: usize) -> i64 {
    unsafe { PEAK[o % OWNERS] }
}
pub fn reset_peak(o: usize) {
    unsafe { PEAK[o % OWNERS] = LIVE[o % OWNERS] }
}
