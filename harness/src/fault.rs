//! Crash monitor: every worker publishes the trial it is running in a file-backed shared page, so
//! the driver knows it whatever ends the process; a signal handler records the fault itself.
use std::cell::Cell;
use std::sync::atomic::{AtomicPtr, AtomicU64, AtomicUsize, Ordering};

pub const SLOTS: usize = 64;

#[repr(C)]
pub struct Slot {
    pub in_call: AtomicU64,
    pub phase: AtomicU64,
    pub idx: AtomicU64,
    pub sub: AtomicU64,
}
#[repr(C)]
pub struct Page {
    pub signal: AtomicU64,
    pub addr: AtomicU64,
    pub slot: AtomicU64,
    pub in_call: AtomicU64,
    pub pc: AtomicU64,
    pub pad: [AtomicU64; 3],
    pub slots: [Slot; SLOTS],
}

static PAGE_PTR: AtomicPtr<Page> = AtomicPtr::new(std::ptr::null_mut());
static NEXT: AtomicUsize = AtomicUsize::new(0);
thread_local! {
    static MY: Cell<usize> = const { Cell::new(usize::MAX) };
    static TRIAL: Cell<(u64, u64)> = const { Cell::new((0, 0)) };
}

pub fn page() -> Option<&'static Page> {
    unsafe { PAGE_PTR.load(Ordering::Relaxed).as_ref() }
}

extern "C" fn handler(sig: i32, info: *mut libc::siginfo_t, ctx: *mut libc::c_void) {
    unsafe {
        if let Some(p) = page() {
            let m = MY.with(Cell::get);
            p.addr.store((*info).si_addr() as u64, Ordering::SeqCst);
            p.slot.store(m as u64, Ordering::SeqCst);
            if m < SLOTS {
                p.in_call.store(p.slots[m].in_call.load(Ordering::SeqCst), Ordering::SeqCst);
            }
            let uc = ctx.cast::<libc::ucontext_t>();
            #[cfg(target_pointer_width = "64")]
            let pc = (*uc).uc_mcontext.gregs[libc::REG_RIP as usize] as u64;
            #[cfg(target_pointer_width = "32")]
            let pc = (*uc).uc_mcontext.gregs[libc::REG_EIP as usize] as u32 as u64;
            p.pc.store(pc, Ordering::SeqCst);
            p.signal.store(sig as u64, Ordering::SeqCst);
        }
        libc::_exit(77);
    }
}

/// Map the crash file and (unless a sanitizer owns them) install the handlers
pub fn init(path: Option<&str>, handlers: bool) {
    if let Some(path) = path {
        let c = std::ffi::CString::new(path).unwrap();
        unsafe {
            let fd = libc::open(c.as_ptr(), libc::O_RDWR | libc::O_CREAT | libc::O_TRUNC, 0o644);
            assert!(fd >= 0, "crash file");
            let len = std::mem::size_of::<Page>();
            assert_eq!(libc::ftruncate(fd, len as libc::off_t), 0);
            let p = libc::mmap(
                std::ptr::null_mut(),
                len,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED,
                fd,
                0,
            );
            assert!(p != libc::MAP_FAILED);
            libc::close(fd);
            PAGE_PTR.store(p.cast(), Ordering::SeqCst);
        }
    }
    if handlers {
        unsafe {
            let mut sa: libc::sigaction = std::mem::zeroed();
            sa.sa_sigaction = handler as *const () as usize;
            sa.sa_flags = libc::SA_SIGINFO | libc::SA_ONSTACK;
            for s in [libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGFPE, libc::SIGABRT] {
                libc::sigaction(s, &sa, std::ptr::null_mut());
            }
        }
    }
}

/// Register the calling worker thread (std gives every thread an alternate signal stack)
pub fn register() {
    MY.with(|m| {
        if m.get() == usize::MAX {
            m.set(NEXT.fetch_add(1, Ordering::SeqCst) % SLOTS);
        }
    });
}

/// The slot of the calling thread, for another thread to report in while this one waits for it
pub fn slot() -> usize {
    register();
    MY.with(Cell::get)
}
pub fn adopt(slot: usize) {
    MY.with(|m| m.set(slot));
}

pub fn set_trial(phase: u64, idx: u64) {
    register();
    TRIAL.with(|t| t.set((phase, idx)));
    if let Some(p) = page() {
        let s = &p.slots[MY.with(Cell::get)];
        s.phase.store(phase, Ordering::SeqCst);
        s.idx.store(idx, Ordering::SeqCst);
    }
}

/// The trial this thread is running
pub fn trial() -> (u64, u64) {
    TRIAL.with(Cell::get)
}

/// Run `f`, marking that the library is on the stack
pub fn in_call<T>(f: impl FnOnce() -> T) -> T {
    register();
    let slot = page().map(|p| &p.slots[MY.with(Cell::get)]);
    if let Some(s) = slot {
        s.in_call.store(1, Ordering::SeqCst);
    }
    let r = f();
    if let Some(s) = slot {
        s.in_call.store(0, Ordering::SeqCst);
    }
    r
}

/// Is the library on this thread's stack?
pub fn is_in_call() -> bool {
    MY.try_with(Cell::get).is_ok_and(|m| {
        m != usize::MAX && page().is_some_and(|p| p.slots[m].in_call.load(Ordering::SeqCst) != 0)
    })
}
