//! Allocation monitor: what each thread, and the process, holds.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicI64, Ordering::Relaxed};

thread_local! {
    static LIVE: Cell<(i64, i64)> = const { Cell::new((0, 0)) };
}
/// Count for the whole process as well
pub static ALL: AtomicBool = AtomicBool::new(false);
static BLOCKS: AtomicI64 = AtomicI64::new(0);
static BYTES: AtomicI64 = AtomicI64::new(0);

pub struct Counting;
fn bump(n: i64, b: i64) {
    if ALL.load(Relaxed) {
        BLOCKS.fetch_add(n, Relaxed);
        BYTES.fetch_add(b, Relaxed);
    }
    let _ = LIVE.try_with(|l| {
        let (x, y) = l.get();
        l.set((x + n, y + b));
    });
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() {
            bump(1, l.size() as i64);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        bump(-1, -(l.size() as i64));
        System.dealloc(p, l);
    }
}
#[global_allocator]
static ALLOC: Counting = Counting;

/// Blocks and bytes allocated minus released by this thread
pub fn live() -> (i64, i64) {
    LIVE.with(Cell::get)
}
/// By all threads since `ALL` was set
pub fn live_all() -> (i64, i64) {
    (BLOCKS.load(Relaxed), BYTES.load(Relaxed))
}
