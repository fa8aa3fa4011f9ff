//! C21: what calls leave behind. Rounds of the same calls, on threads that stay or end; after each
//! call the state of the processor is compared, after each round what the process holds, at the
//! end the state of the process.
use crate::arena::{Arena, Buf};
use crate::capi;
use crate::case::*;
use crate::forks::{forked_with, in_call, Slot};
use crate::gen::{self, GenCfg};
use crate::ledger;
use crate::rng::Rng;
use crate::run::*;
use dcv_color_primitives as dcp;
use std::arch::asm;
use std::fmt::Write;
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::Relaxed};
use std::sync::Mutex;

/// Repetitions (or threads) in each round: twice as many as before, so that tables which double
/// their capacity grow as well
const ROUNDS: [usize; 9] = [1, 1, 2, 4, 8, 16, 32, 64, 128];
/// With large pictures
const FEW: [usize; 9] = [1, 1, 1, 1, 2, 2, 2, 2, 2];
/// Rounds during which first uses may still allocate
const WARM: usize = 4;

// ------------------------------------------------------------------ processor
/// MXCSR, x87 control word, x87 tag word, flags
#[inline(never)]
fn processor() -> (u32, u16, u16, u64) {
    let (mut m, mut env, fl) = (0u32, [0u16; 14], 0u64);
    let mut fl: u64 = fl;
    unsafe {
        asm!("stmxcsr [{}]", in(reg) &mut m);
        asm!("fnstenv [{0}]", "fldenv [{0}]", in(reg) env.as_mut_ptr());
        asm!("pushfq", "pop {}", inout(reg) fl);
    }
    // exception flags are not control; only the direction and alignment flags
    (m & 0xFFC0, env[0], env[4], fl & (1 << 10 | 1 << 18))
}
fn controls(m: u32, cw: u16) {
    unsafe {
        asm!("ldmxcsr [{}]", in(reg) &m);
        asm!("fldcw [{}]", in(reg) &cw);
    }
}
const MXCSR: u32 = 0x1F80;
const CW: u16 = 0x037F;

/// One call with unusual rounding: the Err says what it did not restore
fn watched<T>(calls: &AtomicI64, r: &mut Rng, f: impl FnOnce() -> T) -> (T, Result<(), String>) {
    let plain = r.chance(1, 4);
    let (m, cw) = if plain {
        (MXCSR, CW)
    } else {
        // rounding, flush to zero, denormals are zero; x87 rounding and precision
        let b = r.u64();
        (MXCSR | (b as u32 & 7) << 13 | (b >> 3 & 1) as u32 * 0x40, CW & !0xF00 | (*r.pick(&[0u16, 2, 3])) << 8 | (b >> 4 & 3) as u16 * 0x400)
    };
    controls(m, cw);
    let before = processor();
    let v = in_call(calls, f);
    let after = processor();
    controls(MXCSR, CW);
    let mut e = String::new();
    if before.0 != after.0 {
        let _ = write!(e, "MXCSR control bits {:#x}, before {:#x}; ", after.0, before.0);
    }
    if before.1 != after.1 {
        let _ = write!(e, "x87 control word {:#x}, before {:#x}; ", after.1, before.1);
    }
    if before.2 != after.2 {
        let _ = write!(e, "x87 tags {:#x}, before {:#x}; ", after.2, before.2);
    }
    if before.3 != after.3 {
        let _ = write!(e, "direction and alignment flags {:#x}, before {:#x}; ", after.3, before.3);
    }
    (v, if e.is_empty() { Ok(()) } else { Err(e) })
}

// ------------------------------------------------------------------ process
/// Signal handlers and mask, directory, environment, affinity, limits of the calling thread
fn process() -> Vec<(&'static str, Vec<u8>)> {
    fn raw<T>(t: &T) -> Vec<u8> {
        unsafe { std::slice::from_raw_parts(std::ptr::from_ref(t).cast::<u8>(), std::mem::size_of::<T>()) }.to_vec()
    }
    let mut v = vec![];
    unsafe {
        let mut h = vec![];
        for s in 1..65 {
            let mut a: libc::sigaction = std::mem::zeroed();
            if libc::sigaction(s, std::ptr::null(), &mut a) == 0 {
                h.extend((a.sa_sigaction as u64).to_le_bytes());
                h.extend(a.sa_flags.to_le_bytes());
            }
        }
        v.push(("signal handlers", h));
        let mut m: libc::sigset_t = std::mem::zeroed();
        libc::pthread_sigmask(libc::SIG_BLOCK, std::ptr::null(), &mut m);
        v.push(("signal mask", raw(&m)));
        let mut c: libc::cpu_set_t = std::mem::zeroed();
        libc::sched_getaffinity(0, std::mem::size_of_val(&c), &mut c);
        v.push(("affinity", raw(&c)));
        v.push(("priority", raw(&(libc::getpriority(libc::PRIO_PROCESS, 0), libc::sched_getscheduler(0)))));
        let u = libc::umask(0o22);
        libc::umask(u);
        v.push(("file mode mask", raw(&u)));
        let mut n = [0u8; 32];
        libc::prctl(libc::PR_GET_NAME, n.as_mut_ptr());
        v.push(("thread name", n.to_vec()));
        let l = libc::setlocale(libc::LC_ALL, std::ptr::null());
        v.push(("locale", std::ffi::CStr::from_ptr(l).to_bytes().to_vec()));
        let mut lim = vec![];
        for k in [libc::RLIMIT_STACK, libc::RLIMIT_NOFILE, libc::RLIMIT_AS, libc::RLIMIT_CORE, libc::RLIMIT_DATA, libc::RLIMIT_MEMLOCK] {
            let mut x: libc::rlimit = std::mem::zeroed();
            libc::getrlimit(k, &mut x);
            lim.extend(raw(&x));
        }
        v.push(("resource limits", lim));
    }
    v.push(("working directory", std::fs::read_link("/proc/self/cwd").unwrap().as_os_str().as_encoded_bytes().to_vec()));
    let mut e: Vec<String> = std::env::vars_os().map(|(k, x)| format!("{k:?}={x:?}")).collect();
    e.sort();
    v.push(("environment", e.join("\n").into_bytes()));
    v
}

/// Signal mask and name of the calling thread
fn own() -> (u64, [u8; 16]) {
    unsafe {
        let mut m: libc::sigset_t = std::mem::zeroed();
        libc::pthread_sigmask(libc::SIG_BLOCK, std::ptr::null(), &mut m);
        let mut n = [0u8; 16];
        libc::prctl(libc::PR_GET_NAME, n.as_mut_ptr());
        (std::ptr::from_ref(&m).cast::<u64>().read(), n)
    }
}

/// What the process holds
const MEASURES: [&str; 7] = ["blocks", "bytes", "open files", "threads", "mappings", "pages of address space", "bytes taken from the C allocator"];
type Sample = [i64; MEASURES.len()];
fn sample(alone: bool) -> Sample {
    let count = |p: &str| std::fs::read_dir(p).map_or(0, |d| d.count() as i64);
    let l = ledger::live_all();
    let mut s = [l.0, l.1, count("/proc/self/fd"), count("/proc/self/task"), 0, 0, 0];
    if let Ok(m) = std::fs::read("/proc/self/maps") {
        s[4] = m.iter().filter(|b| **b == b'\n').count() as i64;
    }
    if let Ok(m) = std::fs::read_to_string("/proc/self/statm") {
        s[5] = m.split(' ').next().and_then(|x| x.parse().ok()).unwrap_or(0);
    }
    if alone {
        s[6] = unsafe { libc::mallinfo2() }.uordblks as i64;
    }
    s
}

/// Growth in every round once first uses are over
fn growth(samples: &[Sample]) -> Option<String> {
    let s = &samples[WARM..];
    (0..MEASURES.len()).find(|k| s.windows(2).all(|w| w[1][*k] > w[0][*k])).map(|k| {
        let v: Vec<String> = samples.iter().map(|x| (x[k] - samples[0][k]).to_string()).collect();
        format!("{} held grow with every round of calls: +{}", MEASURES[k], v.join(", +"))
    })
}

// ------------------------------------------------------------------ calls
enum Act {
    Conv(Case, Vec<Buf>, Vec<Buf>),
    /// Through the C interface
    CConv(Case, Vec<Buf>, Vec<Buf>),
    Query,
    Describe,
    CDescribe,
}
impl Act {
    fn name(&self) -> String {
        match self {
            Act::Conv(c, ..) => c.describe(),
            Act::CConv(c, ..) => format!("C interface | {}", c.describe()),
            Act::Query => "size queries".into(),
            Act::Describe | Act::CDescribe => "descriptions".into(),
        }
    }
    /// `vary`: smaller pictures in the same buffers
    fn perform(&self, vary: bool, r: &mut Rng, calls: &AtomicI64) -> Result<(), String> {
        // accepted or not: any size is a valid argument
        let dims = |c: &Case, r: &mut Rng| {
            if !vary || c.w < 2 || c.h < 2 {
                return (c.w, c.h);
            }
            (r.range(1, c.w as usize / 2) as u32 * 2, r.range(1, c.h as usize / 2) as u32 * 2)
        };
        match self {
            Act::Conv(c, src, dst) => {
                let s: Vec<&[u8]> = src.iter().map(Buf::slice).collect();
                let mut d: Vec<&mut [u8]> = dst.iter().map(Buf::slice_mut).collect();
                let (w, h) = dims(c, r);
                watched(calls, r, || drop(call(w, h, &c.src, c.ss.as_deref(), &s, &c.dst, c.ds.as_deref(), &mut d))).1
            }
            Act::CConv(c, src, dst) => watched(calls, r, || capi::convert_plainly(c, src, dst)).1,
            Act::Query => {
                let (f, w, h, s, n) = crate::checks::any_query(r);
                let mut out = [0usize; 8];
                watched(calls, r, || drop(query(w, h, &f, s.as_deref(), &mut out[..n]))).1
            }
            Act::Describe => watched(calls, r, || drop(dcp::describe_acceleration())).1,
            Act::CDescribe => watched(calls, r, capi::describe_and_release).1,
        }
    }
}

fn child(idx: u64, r: &mut Rng, s: &mut Slot) {
    let first = processor();
    let calls = unsafe { &*std::ptr::from_ref(&s.calls) };
    let quiet = !VERBOSE.load(Relaxed);
    // whatever the calls print
    let out = unsafe {
        let fd = libc::memfd_create(c"out".as_ptr(), 0);
        assert!(fd >= 0, "memfd");
        fd
    };
    let set = if idx % 2 == 0 { 0 } else { 1 + r.us(3) };
    let set = if use_set(set) { set } else { 0 };
    use_set(0);
    let g = GenCfg { sets: vec![set], max_px: if idx % 5 == 0 { 20_000 } else { 1500 } };
    // the process before its first call
    ledger::ALL.store(true, Relaxed);
    let kept = unsafe { [libc::dup(1), libc::dup(2)] };
    if quiet {
        unsafe {
            libc::dup2(out, 1);
            libc::dup2(out, 2);
        }
    }
    let before = process();
    let mode = idx % 3;
    let workers = if mode == 2 { 4 } else { 1 };
    // or many more calls of few kinds
    let few = idx % 4 == 3;
    let big = idx % 23 == 5;
    let (n, reps) = if big { (8, 1) } else if few { (workers * 2, 8) } else { (24, 1) };
    let vary = r.chance(1, 2);
    let mut acts: Vec<(u8, Act)> = vec![];
    let mut arenas: Vec<Arena> = vec![];
    for i in 0..n {
        let mut buffers = |c: &Case| {
            let mut a = Arena::new(false, 16384);
            let b = prepare(c, &mut a);
            arenas.push(a);
            b
        };
        acts.push((
            (i % workers) as u8,
            match r.below(12) {
                0 => Act::Describe,
                1 => Act::CDescribe,
                2 | 3 => Act::Query,
                4 | 5 => {
                    let c = gen::hostile(r, &g);
                    let (a, b) = buffers(&c);
                    Act::Conv(c, a, b)
                }
                6 => {
                    let mut c = gen::valid(r, &g);
                    capi::exact(&mut c);
                    let (a, b) = buffers(&c);
                    Act::CConv(c, a, b)
                }
                _ => {
                    let c = if big {
                        let (sf, df) = { let c = gen::valid(r, &g); (c.src, c.dst) };
                        let (w, h) = gen::large(r);
                        gen::valid_sized(r, &g, sf, df, (w as u32 + 1) & !1, (h as u32 + 1) & !1)
                    } else {
                        gen::valid(r, &g)
                    };
                    let (a, b) = buffers(&c);
                    Act::Conv(c, a, b)
                }
            },
        ));
    }
    struct Shared<T>(T);
    unsafe impl<T> Sync for Shared<T> {}
    let acts = Shared(acts);
    let bad: Mutex<Option<String>> = Mutex::new(None);
    let made = AtomicU64::new(0);
    let work = |me: u8, seed: u64, reps: usize| {
        crate::fault::set_trial(1001, idx);
        assert!(use_set(set), "set");
        let acts = &acts;
        let mut r = Rng::new(seed);
        let thread = own();
        for _ in 0..reps {
            for (k, a) in &acts.0 {
                if *k == me {
                    made.fetch_add(1, Relaxed);
                    if let Err(m) = a.perform(vary, &mut r, calls) {
                        let mut b = bad.lock().unwrap();
                        b.get_or_insert_with(|| format!("a call did not restore the processor: {m}| {}", a.name()));
                        return;
                    }
                }
            }
        }
        if own() != thread {
            bad.lock().unwrap().get_or_insert_with(|| "the signal mask or name of the calling thread changed".into());
        }
    };
    let rounds = if big { FEW } else { ROUNDS };
    let mut samples: Vec<Sample> = Vec::with_capacity(rounds.len() + 1);
    samples.push(sample(mode == 0));
    for times in rounds {
        let seed = r.u64();
        match mode {
            0 => work(0, seed, reps * times),
            _ => {
                let batches = if mode == 1 { times } else { times.div_ceil(2) };
                for i in 0..batches {
                    std::thread::scope(|sc| {
                        // explicit joins: the threads have ended completely
                        let v: Vec<_> = (0..workers)
                            .map(|t| {
                                let work = &work;
                                sc.spawn(move || work(t as u8, seed ^ (i * 8 + t) as u64, reps))
                            })
                            .collect();
                        for h in v {
                            h.join().unwrap();
                        }
                    });
                }
            }
        }
        samples.push(sample(mode == 0));
        if bad.lock().unwrap().is_some() {
            break;
        }
    }
    let after = process();
    let text = unsafe {
        let n = libc::lseek(out, 0, libc::SEEK_END).max(0) as usize;
        let mut b = vec![0u8; n.min(300)];
        libc::pread(out, b.as_mut_ptr().cast(), b.len(), 0);
        libc::dup2(kept[0], 1);
        libc::dup2(kept[1], 2);
        String::from_utf8_lossy(&b).into_owned()
    };
    let kinds: Vec<String> = acts.0.iter().map(|a| a.1.name()).collect();
    let last = processor();
    let found = bad.lock().unwrap().take();
    if let Some(m) = found {
        s.fail(&m);
    } else if let Some(m) = growth(&samples) {
        let mut k = kinds.clone();
        k.dedup();
        s.fail(&format!("{m} | {} | among: {}", ["one thread", "threads one by one", "threads by four"][mode as usize], k[..k.len().min(4)].join(" || ")));
    } else if let Some((b, _)) = before.iter().zip(&after).find(|(b, a)| b.1 != a.1) {
        s.fail(&format!("the {} of the process changed", b.0));
    } else if !text.is_empty() {
        s.fail(&format!("a call printed {text:?}"));
    } else if first != last {
        s.fail(&format!("processor state {last:x?}, before {first:x?}"));
    }
    s.evaluations += made.load(Relaxed);
    s.val(made.load(Relaxed));
    s.val(samples.len() as u64);
    s.val(u64::from(vary));
    s.val(u64::from(big));
    for (_, a) in &acts.0 {
        if let Act::Conv(c, ..) | Act::CConv(c, ..) = a {
            s.sig(c.sig());
        }
    }
    // one round that allocates, then none: what first uses kept
    s.val((samples.last().unwrap()[0] - samples[0][0]).max(0) as u64);
}

pub fn c21(o: &Opts, rep: &mut Report) {
    // the monitor itself: a leak in each of the ways it must see
    let grow = |f: &dyn Fn(i64) -> i64| (0..=ROUNDS.len() as i64).map(|i| [0, f(i), 0, 0, 0, 0, 0]).collect::<Vec<Sample>>();
    assert!(growth(&grow(&|i| i * 3)).is_some());
    assert!(growth(&grow(&|i| i.min(5))).is_none() && growth(&grow(&|i| i % 3)).is_none() && growth(&grow(&|_| 0)).is_none());
    let n: u64 = o.args.get("children").and_then(|x| x.parse().ok()).unwrap_or(1000);
    forked_with(o, rep, 1001, n, 8, 90, &mut |idx, r: &mut Rng, s: &mut Slot| child(idx + o.seed % 60, r, s), |idx, s, st| {
        st.count("processes", 1);
        st.count(["one_thread", "thread_per_round", "four_threads_per_round"][(idx + o.seed % 60) as usize % 3], 1);
        st.count("processor_states_compared", s.vals[0]);
        st.count("samples_of_what_is_held", s.vals[1]);
        st.count("with_varying_sizes", s.vals[2]);
        st.count("with_large_pictures", s.vals[3]);
        st.max("blocks_kept_by_first_uses", s.vals[4]);
    });
}
