//! Single-stepping of this process' own threads: the trap flag makes the processor raise SIGTRAP
//! after every instruction, and the handler calls an observer with the machine context.
use std::cell::Cell;

pub type Observer = unsafe fn(*mut libc::ucontext_t);

thread_local! {
    static OBSERVER: Cell<Option<Observer>> = const { Cell::new(None) };
    static STOP: Cell<bool> = const { Cell::new(false) };
}

extern "C" fn on_trap(_: i32, _: *mut libc::siginfo_t, ctx: *mut libc::c_void) {
    let uc = ctx.cast::<libc::ucontext_t>();
    unsafe {
        if STOP.with(Cell::get) {
            (*uc).uc_mcontext.gregs[libc::REG_EFL as usize] &= !0x100;
            return;
        }
        shorten_rep(uc);
        if let Some(f) = OBSERVER.with(Cell::get) {
            f(uc);
        }
    }
}

/// The processor traps after every iteration of a repeated string instruction: perform half of
/// the iterations here, so that a long copy is a dozen steps rather than thousands
unsafe fn shorten_rep(uc: *mut libc::ucontext_t) {
    let g = &mut (*uc).uc_mcontext.gregs;
    let p = g[libc::REG_RIP as usize] as *const u8;
    if *p != 0xF3 {
        return;
    }
    let (wide, op) = if *p.add(1) == 0x48 { (true, *p.add(2)) } else { (false, *p.add(1)) };
    let size = match op {
        0xA4 | 0xAA => 1,
        0xA5 | 0xAB => {
            if wide {
                8
            } else {
                4
            }
        }
        _ => return,
    };
    let n = g[libc::REG_RCX as usize] as usize / 2;
    if n < 8 || g[libc::REG_EFL as usize] & 0x400 != 0 {
        return;
    }
    let (d, s) = (g[libc::REG_RDI as usize] as *mut u8, g[libc::REG_RSI as usize] as *const u8);
    let a = (g[libc::REG_RAX as usize] as u64).to_le_bytes();
    for i in 0..n * size {
        let v = if op < 0xA8 { s.add(i).read_volatile() } else { a[i % size] };
        d.add(i).write_volatile(v);
    }
    g[libc::REG_RDI as usize] += (n * size) as i64;
    if op < 0xA8 {
        g[libc::REG_RSI as usize] += (n * size) as i64;
    }
    g[libc::REG_RCX as usize] -= n as i64;
}

pub fn install() {
    unsafe {
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_trap as *const () as usize;
        sa.sa_flags = libc::SA_SIGINFO | libc::SA_ONSTACK;
        libc::sigaction(libc::SIGTRAP, &sa, std::ptr::null_mut());
    }
}

/// Run `f` with the observer called before every instruction
pub fn stepped<T>(obs: Observer, f: impl FnOnce() -> T) -> T {
    OBSERVER.with(|o| o.set(Some(obs)));
    STOP.with(|s| s.set(false));
    unsafe { std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq") };
    let r = f();
    STOP.with(|s| s.set(true));
    // the trap after the next instructions clears the flag
    unsafe { std::arch::asm!("nop", "nop") };
    OBSERVER.with(|o| o.set(None));
    r
}

/// From an observer: no more stepping
pub unsafe fn stop(uc: *mut libc::ucontext_t) {
    (*uc).uc_mcontext.gregs[libc::REG_EFL as usize] &= !0x100;
}

pub fn rip(uc: *const libc::ucontext_t) -> usize {
    unsafe { (*uc).uc_mcontext.gregs[libc::REG_RIP as usize] as usize }
}

/// Address range of the executable's own code
pub fn text_range() -> (usize, usize) {
    let me = text_range as *const () as usize;
    let maps = std::fs::read_to_string("/proc/self/maps").unwrap_or_default();
    for l in maps.lines() {
        let mut p = l.split([' ', '-']);
        let lo = usize::from_str_radix(p.next().unwrap_or(""), 16).unwrap_or(0);
        let hi = usize::from_str_radix(p.next().unwrap_or(""), 16).unwrap_or(0);
        if lo <= me && me < hi {
            return (lo, hi);
        }
    }
    (0, 0)
}
