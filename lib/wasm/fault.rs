//! Crash monitor without signals: the host reads the page when the module traps.
use std::cell::Cell;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

#[repr(C)]
pub struct Page {
    pub signal: AtomicU64,
    pub addr: AtomicU64,
    pub slot: AtomicU64,
    pub in_call: AtomicU64,
    pub pc: AtomicU64,
    pub pad: [AtomicU64; 3],
    pub slots: [[AtomicU64; 4]; 64],
}
static PAGE: Page = unsafe { std::mem::zeroed() };
thread_local! {
    static TRIAL: Cell<(u64, u64)> = const { Cell::new((0, 0)) };
}

/// For the host
#[no_mangle]
pub extern "C" fn page() -> *const Page {
    &raw const PAGE
}
#[no_mangle]
pub extern "C" fn page_size() -> usize {
    std::mem::size_of::<Page>()
}
pub fn set_trial(phase: u64, idx: u64) {
    TRIAL.with(|t| t.set((phase, idx)));
    PAGE.slots[0][1].store(phase, Relaxed);
    PAGE.slots[0][2].store(idx, Relaxed);
}
pub fn trial() -> (u64, u64) {
    TRIAL.with(Cell::get)
}
pub fn in_call<T>(f: impl FnOnce() -> T) -> T {
    PAGE.slots[0][0].store(1, Relaxed);
    PAGE.in_call.store(1, Relaxed);
    let r = f();
    PAGE.slots[0][0].store(0, Relaxed);
    PAGE.in_call.store(0, Relaxed);
    r
}
pub fn is_in_call() -> bool {
    PAGE.in_call.load(Relaxed) != 0
}
