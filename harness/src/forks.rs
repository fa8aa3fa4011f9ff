//! Runs trials in forked children of a pristine (single-threaded) process.
use crate::fault;
use crate::rng::{hash3, Rng};
use crate::run::*;
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering};

pub const VALS: usize = 256;
pub const NOTES: usize = 3000;

/// What a child tells its parent
#[repr(C)]
pub struct Slot {
    pub done: AtomicU64,
    pub calls: AtomicI64, // library calls in progress
    pub evaluations: u64,
    pub nvals: usize,
    pub vals: [u64; VALS],
    pub nsigs: usize,
    pub sigs: [u64; NOTES],
    pub msg_len: usize,
    pub msg: [u8; 4096],
}
impl Slot {
    pub fn fail(&mut self, m: &str) {
        if self.msg_len == 0 {
            let b = &m.as_bytes()[..m.len().min(4096)];
            self.msg[..b.len()].copy_from_slice(b);
            self.msg_len = b.len();
        }
    }
    pub fn message(&self) -> Option<String> {
        (self.msg_len > 0).then(|| String::from_utf8_lossy(&self.msg[..self.msg_len]).into_owned())
    }
    pub fn val(&mut self, v: u64) {
        if self.nvals < VALS {
            self.vals[self.nvals] = v;
            self.nvals += 1;
        }
    }
    pub fn sig(&mut self, v: u64) {
        if self.nsigs < NOTES {
            self.sigs[self.nsigs] = v;
            self.nsigs += 1;
        }
    }
}

fn shared(n: usize) -> *mut Slot {
    unsafe {
        let len = n * std::mem::size_of::<Slot>();
        let p = libc::mmap(
            std::ptr::null_mut(),
            len,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        p.cast()
    }
}

/// `n` trials (phases below 1000 are scaled), each in a child of its own, `width` at a time
pub fn forked<F>(o: &Opts, rep: &mut Report, phase: u64, n: u64, width: usize, mut f: F)
where
    F: FnMut(u64, &mut Rng, &mut Slot),
{
    let n = if phase >= 1000 { n } else { ((n as f64 * o.scale) as u64).max(1) };
    forked_with(o, rep, phase, n, width, 90, &mut f, |_, _, _| ());
}

pub fn forked_with<F, G>(o: &Opts, rep: &mut Report, phase: u64, n: u64, width: usize, limit: u32, f: &mut F, mut got: G)
where
    F: FnMut(u64, &mut Rng, &mut Slot),
    G: FnMut(u64, &Slot, &mut Stats),
{
    if !rep.violations.is_empty() || o.only.is_some_and(|(p, _)| p != phase) {
        return;
    }
    let (lo, hi) = match o.only {
        Some((_, i)) => (i, i + 1),
        None => (0, n),
    };
    let slots = shared(width);
    let mut pids: Vec<(i32, u64)> = vec![(0, 0); width];
    let mut next = lo;
    let mut st = Stats::default();
    let mut live = 0;
    loop {
        while live < width && next < hi && rep.violations.is_empty() {
            if o.start.elapsed().as_secs_f64() > o.max_secs {
                st.truncated = true;
                next = hi;
                break;
            }
            let k = pids.iter().position(|p| p.0 == 0).unwrap();
            let slot = unsafe { &mut *slots.add(k) };
            unsafe { std::ptr::write_bytes(std::ptr::from_mut(slot), 0, 1) };
            let idx = next;
            next += 1;
            let pid = unsafe { libc::fork() };
            assert!(pid >= 0, "fork");
            if pid == 0 {
                unsafe { libc::alarm(limit) };
                fault::set_trial(phase, idx);
                let mut r = Rng::new(hash3(o.seed, phase, idx));
                f(idx, &mut r, slot);
                slot.done.store(1, Ordering::SeqCst);
                unsafe { libc::_exit(0) };
            }
            pids[k] = (pid, idx);
            live += 1;
        }
        if live == 0 {
            break;
        }
        let mut status = 0;
        let pid = unsafe { libc::waitpid(-1, &mut status, 0) };
        let Some(k) = pids.iter().position(|p| p.0 == pid) else { continue };
        let idx = pids[k].1;
        pids[k].0 = 0;
        live -= 1;
        let slot = unsafe { &*slots.add(k) };
        st.evaluations += slot.evaluations;
        st.distinct.extend(&slot.sigs[..slot.nsigs]);
        let msg = if let Some(m) = slot.message() {
            Some(m)
        } else if slot.done.load(Ordering::SeqCst) == 0 {
            let calls = slot.calls.load(Ordering::SeqCst);
            if libc::WIFSIGNALED(status) && libc::WTERMSIG(status) == libc::SIGALRM {
                if calls > 0 {
                    Some(format!("{calls} calls did not return"))
                } else {
                    eprintln!("child {phase}:{idx} timed out outside of the library");
                    std::process::exit(3);
                }
            } else if libc::WIFEXITED(status) && libc::WEXITSTATUS(status) == 66 {
                std::process::exit(66); // a sanitizer's report is in the log
            } else if calls > 0 {
                let s = if libc::WIFSIGNALED(status) {
                    format!("signal {}", libc::WTERMSIG(status))
                } else {
                    match fault::page().map(|p| (p.signal.load(Ordering::SeqCst), p.addr.load(Ordering::SeqCst), p.pc.load(Ordering::SeqCst))) {
                        Some((s, a, pc)) if s > 0 => format!("signal {s} at address {a:#x} (pc {pc:#x})"),
                        _ => format!("status {status:#x}"),
                    }
                };
                Some(format!("the process died inside the library: {s}"))
            } else {
                eprintln!("child {phase}:{idx} died outside of the library: status {status:#x}");
                std::process::exit(3);
            }
        } else {
            None
        };
        if let Some(msg) = msg {
            rep.violations.push(Violation { phase, idx, msg });
        } else {
            got(idx, slot, &mut st);
        }
    }
    rep.stats.merge(st);
    unsafe { libc::munmap(slots.cast(), width * std::mem::size_of::<Slot>()) };
}

/// Marks a library call for the parent
pub fn in_call<T>(calls: &AtomicI64, f: impl FnOnce() -> T) -> T {
    // relaxed: the monitor must not order the threads it watches
    calls.fetch_add(1, Ordering::Relaxed);
    let r = fault::in_call(f);
    calls.fetch_sub(1, Ordering::Relaxed);
    r
}
