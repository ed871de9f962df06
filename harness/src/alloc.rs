//! A global allocator that knows how much each thread has outstanding, and ends the process
//! (status 97) rather than let a runaway parser take the machine's memory.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicI64, Ordering};

pub struct Counting;
static TOTAL: AtomicI64 = AtomicI64::new(0);
static LIMIT: AtomicI64 = AtomicI64::new(6 << 30);

thread_local! {
    static BALANCE: Cell<i64> = Cell::new(0);
    static BLOCKS: Cell<i64> = Cell::new(0);
}

extern "C" {
    fn _exit(code: i32) -> !;
}

fn note(size: i64) {
    let _ = BALANCE.try_with(|c| c.set(c.get() + size));
    let _ = BLOCKS.try_with(|c| c.set(c.get() + size.signum()));
    // keep an approximate total, without a shared counter on each small allocation
    if size.abs() >= 1 << 16 {
        let t = TOTAL.fetch_add(size, Ordering::Relaxed) + size;
        if t > LIMIT.load(Ordering::Relaxed) {
            unsafe { _exit(97) }
        }
    }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() {
            note(l.size() as i64);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        note(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            note(l.size() as i64);
        }
        p
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            note(-(l.size() as i64));
            note(n as i64);
        }
        q
    }
}

/// bytes and blocks this thread has allocated and not freed
pub fn balance() -> (i64, i64) {
    (BALANCE.with(Cell::get), BLOCKS.with(Cell::get))
}
