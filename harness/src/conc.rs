//! C13: concurrent first and later calls.
//!
//! Besides free-running races, schedules are controlled at the granularity of instructions: a
//! thread is single-stepped through its call and suspended before a chosen instruction while the
//! others run, so that windows of a few instructions are met for certain.
use crate::arena::{Arena, Buf};
use crate::case::*;
use crate::checks::visible;
use crate::fmt::*;
use crate::forks::{forked, forked_with, in_call, Slot};
use crate::gen::{self, GenCfg};
use crate::rng::{hash3, mix, Rng};
use crate::run::*;
use crate::step;
use dcv_color_primitives as dcp;
use std::sync::atomic::{AtomicI64, AtomicU32, AtomicU64, AtomicUsize, Ordering::{Relaxed, SeqCst}};
use std::time::Instant;

pub fn digest(res: &Result<Res, String>, bytes: &[u8]) -> u64 {
    let mut h = match res {
        Ok(r) => *r as u64,
        Err(_) => 99,
    };
    for c in bytes.chunks(8) {
        let mut b = [0; 8];
        b[..c.len()].copy_from_slice(c);
        h = (h ^ u64::from_le_bytes(b)).wrapping_mul(0x9E37_79B9_7F4A_7C15);
        h ^= h >> 29;
    }
    mix(h ^ bytes.len() as u64)
}

/// Outcome of a conversion, without what the call may not touch
pub fn digest_case(c: &Case, res: &Result<Res, String>, dst: &[&[u8]]) -> u64 {
    match res {
        Ok(Res::Ok) if c.w > 0 && c.h > 0 => digest(res, &visible(&c.dst, c.w, c.h, c.ds.as_deref(), dst)),
        _ => digest(res, &[]),
    }
}

#[derive(Clone)]
pub enum Call {
    Describe,
    Size(Fmt, u32, u32, Option<Vec<usize>>),
    Conv(Case),
}
impl Call {
    fn describe(&self) -> String {
        match self {
            Call::Describe => "describe_acceleration".into(),
            Call::Size(f, w, h, s) => format!("get_buffers_size {f:?} {w}x{h} {s:?}"),
            Call::Conv(c) => c.describe(),
        }
    }
}

/// A call with its memory, ready to go
struct Ready<'a> {
    call: &'a Call,
    src: Vec<Buf>,
    dst: Vec<Buf>,
    out: Vec<usize>,
    text: String,
    res: Result<Res, String>,
}
impl<'a> Ready<'a> {
    fn new(call: &'a Call, a: &mut Arena) -> Self {
        let (mut src, mut dst, mut out) = (vec![], vec![], vec![]);
        match call {
            Call::Conv(c) => {
                (src, dst) = prepare(c, a);
            }
            Call::Size(f, ..) => out = vec![7; f.planes as usize],
            Call::Describe => {}
        }
        Ready { call, src, dst, out, text: String::new(), res: Ok(Res::Ok) }
    }
    /// Only the library call (and what it takes to make one)
    fn go(&mut self, shared: Option<&[&'static [u8]]>) {
        match self.call {
            Call::Describe => self.text = dcp::describe_acceleration(),
            Call::Size(f, w, h, s) => self.res = Ok(Res::of(&dcp::get_buffers_size(*w, *h, &f.lib(), s.as_deref(), &mut self.out))),
            Call::Conv(c) => {
                let own: Vec<&[u8]> = self.src.iter().map(Buf::slice).collect();
                let s: &[&[u8]] = match shared {
                    Some(s) => s,
                    None => &own,
                };
                let mut d: Vec<&mut [u8]> = self.dst.iter().map(Buf::slice_mut).collect();
                self.res = Ok(Res::of(&dcp::convert_image(
                    c.w, c.h, &c.src.lib(), c.ss.as_deref(), s, &c.dst.lib(), c.ds.as_deref(), &mut d,
                )));
            }
        }
    }
    fn digest(&self) -> u64 {
        match self.call {
            Call::Describe => digest(&self.res, self.text.as_bytes()),
            Call::Size(..) => {
                let b: Vec<u8> = self.out.iter().flat_map(|x| x.to_le_bytes()).collect();
                digest(&self.res, if self.res == Ok(Res::Ok) { &b } else { &[] })
            }
            Call::Conv(c) => {
                if self.dst.iter().any(|b| b.damaged().is_some()) {
                    return 1;
                }
                let d: Vec<&[u8]> = self.dst.iter().map(Buf::slice).collect();
                digest_case(c, &self.res, &d)
            }
        }
    }
    fn release(self) {
        for b in self.src.into_iter().chain(self.dst) {
            b.release();
        }
    }
}

fn small(r: &mut Rng, set: usize) -> Case {
    let g = GenCfg { sets: vec![set], max_px: 400 };
    loop {
        let c = gen::valid(r, &g);
        if c.w > 0 && c.h > 0 && c.slens.iter().chain(&c.dlens).all(|l| *l < 12_000) {
            return c;
        }
    }
}
fn like(r: &mut Rng, c: &Case) -> Case {
    let g = GenCfg { sets: vec![c.set], max_px: 400 };
    loop {
        let d = gen::valid_for(r, &g, c.src, c.dst);
        if d.w > 0 && d.h > 0 && d.slens.iter().chain(&d.dlens).all(|l| *l < 12_000) {
            return d;
        }
    }
}

fn pool(seed: u64, n: usize) -> (Vec<Call>, std::ops::Range<usize>) {
    let mut r = Rng::new(hash3(seed, 0xC13, 0));
    let mut v = vec![Call::Describe];
    for pf in [Pf::Bgra, Pf::Nv12, Pf::I420, Pf::I444] {
        let cs = if pf.is_rgb() { Cs::Rgb } else { Cs::Bt709 };
        v.push(Call::Size(Fmt::new(pf, cs, Fmt::default_planes(pf)), 2 * r.range(1, 900) as u32, 2 * r.range(1, 900) as u32, None));
    }
    // every conversion and color space once, then random ones
    for (s, d) in pairs() {
        for cs in YUV_CS {
            if s.is_rgb() && d.is_rgb() && cs != Cs::Bt601 {
                continue;
            }
            let f = |r: &mut Rng, p: Pf| Fmt::new(p, if p.is_rgb() { Cs::Rgb } else { cs }, gen::planes_of(r, p));
            let (sf, df) = (f(&mut r, s), f(&mut r, d));
            let c0 = Case { src: sf, dst: df, ..small(&mut r, 0) };
            v.push(Call::Conv(like(&mut r, &c0)));
        }
    }
    // tiny ones: mostly initialisation when they come first
    let n0 = v.len();
    for (s, d) in pairs() {
        let (sf, df) = gen::fmts(&mut r, s, d);
        let g = GenCfg { sets: vec![0], max_px: 16 };
        let (w, h) = (2 * r.range(1, 2) as u32, 2);
        v.push(Call::Conv(gen::valid_sized(&mut r, &g, sf, df, w, h)));
    }
    let tiny = n0..v.len();
    while v.len() < n {
        let mut c = small(&mut r, 0);
        if r.chance(1, 8) {
            // refused calls are part of the mix
            if let Some(l) = c.dlens.first_mut() {
                *l = l.saturating_sub(r.range(1, 200));
            }
        }
        v.push(Call::Conv(c));
    }
    (v, tiny)
}

// ------------------------------------------------------------------ controlled schedules
static TURN: AtomicU32 = AtomicU32::new(0); // 0: A runs, 1: B may start
static A_DONE: AtomicU32 = AtomicU32::new(0);
static B_STATE: AtomicU32 = AtomicU32::new(0); // 1 paused, 2 done
static KA: AtomicU64 = AtomicU64::new(0);
static KB: AtomicU64 = AtomicU64::new(0);
static NA: AtomicU64 = AtomicU64::new(0);
static NB: AtomicU64 = AtomicU64::new(0);
static RIP_A: AtomicUsize = AtomicUsize::new(0);
static RIP_B: AtomicUsize = AtomicUsize::new(0);
static BLOCKED: AtomicU64 = AtomicU64::new(0);
static PAUSE_US: AtomicU64 = AtomicU64::new(1500);

fn wait_for(us: u64, f: impl Fn() -> bool) -> bool {
    let t = Instant::now();
    loop {
        if f() {
            return true;
        }
        if t.elapsed().as_micros() as u64 > us {
            return false;
        }
        unsafe { libc::sched_yield() };
    }
}

unsafe fn obs_a(uc: *mut libc::ucontext_t) {
    let n = NA.fetch_add(1, SeqCst);
    if n == KA.load(SeqCst) {
        RIP_A.store(step::rip(uc), SeqCst);
        TURN.store(1, SeqCst);
        if !wait_for(PAUSE_US.load(SeqCst), || B_STATE.load(SeqCst) != 0) {
            BLOCKED.store(1, SeqCst);
        }
        step::stop(uc);
    }
}
unsafe fn obs_b(uc: *mut libc::ucontext_t) {
    let n = NB.fetch_add(1, SeqCst);
    if n == KB.load(SeqCst) {
        RIP_B.store(step::rip(uc), SeqCst);
        B_STATE.store(1, SeqCst);
        wait_for(PAUSE_US.load(SeqCst), || A_DONE.load(SeqCst) != 0);
        step::stop(uc);
    }
}

/// One schedule of two first calls: A suspended before its ka-th instruction; B (suspended before
/// its kb-th one until A is done, if given) runs. Then both continue with more calls.
fn two_first_calls(p: &[Call], want: &[u64], a: usize, b: usize, ka: u64, kb: Option<u64>, more: &[usize], slot: &mut Slot, base: usize) {
    KA.store(ka, SeqCst);
    KB.store(kb.unwrap_or(u64::MAX), SeqCst);
    let calls = unsafe { &*std::ptr::from_ref(&slot.calls) };
    let bad = std::sync::Mutex::new(None);
    let check = |who: &str, i: usize, got: u64| {
        if got != want[i] {
            *bad.lock().unwrap() = Some(format!(
                "{who}: outcome differs from a sequential run (first calls: {} / {}; suspended at instruction {ka}/{kb:?}) | {}",
                p[a].describe(), p[b].describe(), p[i].describe()
            ));
        }
    };
    std::thread::scope(|s| {
        s.spawn(|| {
            let mut ar = Arena::new(false, 16384);
            let mut rd = Ready::new(&p[b], &mut ar);
            if !wait_for(20_000_000, || TURN.load(SeqCst) == 1) {
                return;
            }
            in_call(calls, || {
                if kb.is_some() {
                    step::stepped(obs_b, || rd.go(None));
                } else {
                    rd.go(None);
                }
            });
            B_STATE.store(2, SeqCst);
            check("second thread", b, rd.digest());
            rd.release();
            for &m in more {
                let mut rd = Ready::new(&p[m], &mut ar);
                in_call(calls, || rd.go(None));
                check("second thread, later call", m, rd.digest());
                rd.release();
            }
        });
        let mut ar = Arena::new(false, 16384);
        let mut rd = Ready::new(&p[a], &mut ar);
        in_call(calls, || step::stepped(obs_a, || rd.go(None)));
        A_DONE.store(1, SeqCst);
        TURN.store(1, SeqCst);
        check("first thread", a, rd.digest());
        rd.release();
        for &m in more.iter().rev() {
            let mut rd = Ready::new(&p[m], &mut ar);
            in_call(calls, || rd.go(None));
            check("first thread, later call", m, rd.digest());
            rd.release();
        }
    });
    slot.evaluations += 2 + 2 * more.len() as u64;
    slot.val(NA.load(SeqCst));
    slot.val(u64::from(RIP_A.load(SeqCst) != 0));
    slot.val(BLOCKED.load(SeqCst));
    slot.val(RIP_A.load(SeqCst).wrapping_sub(base) as u64);
    slot.val(u64::from(RIP_B.load(SeqCst) != 0));
    slot.sig(mix(RIP_A.load(SeqCst).wrapping_sub(base) as u64 ^ BLOCKED.load(SeqCst) << 60)
        ^ mix(RIP_B.load(SeqCst) as u64 + 17)
        ^ mix((a * 1000 + b) as u64));
    if let Some(m) = bad.into_inner().unwrap() {
        slot.fail(&m);
    }
}

fn sequential(o: &Opts, rep: &mut Report, p: &[Call]) -> Vec<u64> {
    // the reference is obtained in a single-threaded process of its own
    let shared = unsafe {
        libc::mmap(std::ptr::null_mut(), p.len() * 8, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0)
    }
    .cast::<u64>();
    let only = Opts { only: None, args: o.args.clone(), sets: o.sets.clone(), ..*o };
    forked(&only, rep, 1000, 1, 1, |_, _, slot| {
        let mut ar = Arena::new(false, 16384);
        for (i, c) in p.iter().enumerate() {
            let mut rd = Ready::new(c, &mut ar);
            let calls = unsafe { &*std::ptr::from_ref(&slot.calls) };
            in_call(calls, || rd.go(None));
            unsafe { *shared.add(i) = rd.digest() };
            rd.release();
            slot.evaluations += 1;
        }
    });
    (0..p.len()).map(|i| unsafe { *shared.add(i) }).collect()
}

pub fn c13(o: &Opts, rep: &mut Report) {
    step::install();
    let (base, end) = step::text_range();
    TEXT[0].store(base, SeqCst);
    TEXT[1].store(end, SeqCst);
    let (p, tiny) = pool(o.seed, 160);
    let want = sequential(o, rep, &p);
    let convs: Vec<usize> = (0..p.len()).filter(|i| matches!(p[*i], Call::Conv(_))).collect();
    let quick = o.args.get("deep").is_none();
    let mut r0 = Rng::new(hash3(o.seed, 0xC13, 1));
    let races = o.args.get("races").is_some();
    if !races {
        // 1001..: every suspension point of one first call
        let c = |r: &mut Rng| convs[r.us(convs.len())];
        let t = |r: &mut Rng| r.range(tiny.start, tiny.end - 1);
        let mut kinds: Vec<(usize, usize, u64)> = vec![(t(&mut r0), t(&mut r0), 1), (0, t(&mut r0), 2), (t(&mut r0), 0, 4), (t(&mut r0), c(&mut r0), 4)];
        if !quick {
            for _ in 0..12 {
                kinds.push((t(&mut r0), t(&mut r0), 1));
                kinds.push((c(&mut r0), c(&mut r0), 5));
            }
        }
        for (ki, (a, b, stride)) in kinds.iter().enumerate() {
            let phase = 1001 + ki as u64;
            // how many instructions does the call take?
            let mut steps = 0;
            let only = Opts { only: None, args: o.args.clone(), sets: o.sets.clone(), ..*o };
            forked_with(&only, rep, phase + 500, 1, 1, 60, &mut |_, _: &mut Rng, s: &mut Slot| two_first_calls(&p, &want, *a, *b, u64::MAX, None, &[], s, base), |_, s, _| steps = s.vals[0]);
            let off = o.seed % stride;
            let (mut visited, mut blocked) = (0, 0);
            forked_with(
                o, rep, phase, (steps + 4) / stride, 8, 60,
                &mut |idx, r: &mut Rng, s: &mut Slot| {
                    let more = [c(r), c(r)];
                    two_first_calls(&p, &want, *a, *b, idx * stride + off, None, &more, s, base);
                },
                |_, s, _| {
                    visited += s.vals[1];
                    blocked += s.vals[2];
                },
            );
            rep.notes.push(format!("phase {phase}: {steps} steps, {visited} visited, {:.1}s", o.start.elapsed().as_secs_f64()));
            rep.stats.count("first_call_suspension_points", visited);
            rep.stats.count("second_thread_waited", blocked);
            rep.stats.count("second_thread_completed", visited.saturating_sub(blocked));
        }
        // 2: two suspensions
        let (mut two, mut seen) = (0, 0);
        let n = (1500.0 * o.scale) as u64;
        forked_with(
            o, rep, 2, n, 8, 60,
            &mut |_, r: &mut Rng, s: &mut Slot| {
                let (a, b) = (if r.chance(1, 4) { 0 } else { t(r) }, if r.chance(1, 4) { 0 } else { t(r) });
                let (ka, kb) = (r.below(2700), r.below(2700));
                let more = [c(r), c(r)];
                two_first_calls(&p, &want, a, b, ka, Some(kb), &more, s, base);
            },
            |_, s, _| {
                two += s.vals[4];
                seen += s.vals[1];
            },
        );
        rep.stats.count("double_suspensions", two.min(seen));
        rep.stats.samples.push(format!("first calls {} / {}: suspended before every instruction of the first", p[kinds[0].0].describe(), p[kinds[0].1].describe()));
        later_calls(o, rep, base);
    }
    race(o, rep, &p, &want);
}

// ------------------------------------------------------------------ suspended conversions
static GO: AtomicU64 = AtomicU64::new(0);
static ACK: AtomicU64 = AtomicU64::new(0);
static EVERY: AtomicU64 = AtomicU64::new(u64::MAX);
static NEXT_AT: AtomicU64 = AtomicU64::new(u64::MAX);
static JIT: AtomicU64 = AtomicU64::new(1);
static SLOW: AtomicU64 = AtomicU64::new(0);
static RIPS: [AtomicUsize; 512] = [const { AtomicUsize::new(0) }; 512];
static TEXT: [AtomicUsize; 2] = [const { AtomicUsize::new(0) }; 2];
static NRIPS: AtomicUsize = AtomicUsize::new(0);

unsafe fn obs_conv(uc: *mut libc::ucontext_t) {
    let n = NA.fetch_add(1, SeqCst);
    // never inside libc, where the suspended thread could own the allocator's lock
    let pc = step::rip(uc);
    if n >= NEXT_AT.load(SeqCst) && pc >= TEXT[0].load(SeqCst) && pc < TEXT[1].load(SeqCst) {
        let j = mix(JIT.load(SeqCst));
        JIT.store(j, SeqCst);
        let e = EVERY.load(SeqCst);
        NEXT_AT.store(n + 1 + j % (2 * e), SeqCst);
        let k = NRIPS.fetch_add(1, SeqCst);
        if k < RIPS.len() {
            RIPS[k].store(step::rip(uc), SeqCst);
        }
        // the other thread may be waiting for something this one owns: then just go on
        if ACK.load(SeqCst) != GO.load(SeqCst) || SLOW.load(SeqCst) > 5 {
            return;
        }
        let t = GO.fetch_add(1, SeqCst) + 1;
        if !wait_for(20_000, || ACK.load(SeqCst) == t) {
            SLOW.fetch_add(1, SeqCst);
        }
    }
}

/// Conversions suspended in mid-flight, at many instructions, while another thread runs others
fn later_calls(o: &Opts, rep: &mut Report, base: usize) {
    let n = (240.0 * o.scale) as u64;
    let (mut points, mut insns) = (0, 0);
    let sets = [0usize, 1, 2, 3];
    let cs: Vec<(Pf, Pf)> = pairs();
    forked_with(
        o, rep, 3, n, 4, 90,
        &mut |idx, r: &mut Rng, slot: &mut Slot| {
            let mut ar = Arena::new(false, 16384);
            let mut br = Arena::new(false, 16384);
            let calls = unsafe { &*std::ptr::from_ref(&slot.calls) };
            for t in 0..4u64 {
                let k = idx * 4 + t;
                let set = sets[(k % 4) as usize];
                if !use_set(set) {
                    continue;
                }
                // every conversion in turn
                let (s, d) = cs[(k / 4) as usize % cs.len()];
                let (sf, df) = gen::fmts(r, s, d);
                let a0 = Case { src: sf, dst: df, ..small(r, set) };
                let a = Call::Conv(like(r, &a0));
                let Call::Conv(ac) = &a else { unreachable!() };
                let bs: Vec<Call> = (0..10).map(|i| if i % 2 == 0 { Call::Conv(like(r, ac)) } else { Call::Conv(small(r, set)) }).collect();
                let reference = |c: &Call, ar: &mut Arena| -> u64 {
                    let mut rd = Ready::new(c, ar);
                    in_call(calls, || rd.go(None));
                    let g = rd.digest();
                    rd.release();
                    g
                };
                let want_a = reference(&a, &mut ar);
                let want_b: Vec<u64> = bs.iter().map(|b| reference(b, &mut br)).collect();
                // length
                NEXT_AT.store(u64::MAX, SeqCst);
                NA.store(0, SeqCst);
                let mut rd = Ready::new(&a, &mut ar);
                in_call(calls, || step::stepped(obs_conv, || rd.go(None)));
                rd.release();
                let len = NA.load(SeqCst);
                let every = (len / 60).max(1);
                EVERY.store(every, SeqCst);
                JIT.store(r.u64(), SeqCst);
                NRIPS.store(0, SeqCst);
                NA.store(0, SeqCst);
                GO.store(0, SeqCst);
                ACK.store(0, SeqCst);
                SLOW.store(0, SeqCst);
                NEXT_AT.store(r.below(every + 1), SeqCst);
                let stop = AtomicU32::new(0);
                let bad = std::sync::Mutex::new(None);
                std::thread::scope(|sc| {
                    sc.spawn(|| {
                        use_set(set);
                        let mut done = 0;
                        loop {
                            let i = done as usize % bs.len();
                            let mut rd = Ready::new(&bs[i], &mut br);
                            loop {
                                if GO.load(SeqCst) > done {
                                    break;
                                }
                                if stop.load(SeqCst) == 1 {
                                    rd.release();
                                    return;
                                }
                                unsafe { libc::sched_yield() };
                            }
                            in_call(calls, || rd.go(None));
                            if rd.digest() != want_b[i] {
                                *bad.lock().unwrap() = Some(format!(
                                    "a conversion made while another one was suspended differs | {} | suspended: {}",
                                    bs[i].describe(), a.describe()
                                ));
                            }
                            rd.release();
                            done += 1;
                            ACK.store(done, SeqCst);
                        }
                    });
                    let mut rd = Ready::new(&a, &mut ar);
                    in_call(calls, || step::stepped(obs_conv, || rd.go(None)));
                    if rd.digest() != want_a {
                        *bad.lock().unwrap() = Some(format!("a conversion suspended while others ran differs | {}", a.describe()));
                    }
                    rd.release();
                    stop.store(1, SeqCst);
                });
                slot.evaluations += 1 + GO.load(SeqCst);
                slot.val(GO.load(SeqCst));
                slot.val(len);
                for q in 0..NRIPS.load(SeqCst).min(RIPS.len()) {
                    slot.sig(mix((RIPS[q].load(SeqCst) - base) as u64) ^ 5);
                }
                if let Some(m) = bad.into_inner().unwrap() {
                    slot.fail(&m);
                    return;
                }
            }
        },
        |_, s, _| {
            for v in s.vals[..s.nvals].chunks(2) {
                points += v[0];
                insns += v[1];
            }
        },
    );
    rep.stats.count("suspended_conversions_points", points);
    rep.stats.count("single_stepped_instructions", insns);
}

// ------------------------------------------------------------------ free-running races
fn race(o: &Opts, rep: &mut Report, p: &[Call], want: &[u64]) {
    let n = (if o.args.contains_key("races") { 100.0 } else { 1500.0 } * o.scale) as u64;
    let (mut firsts, mut overlap) = (0, 0);
    forked_with(
        o, rep, 4, n, 2, 90,
        &mut |_, r: &mut Rng, slot: &mut Slot| {
            let threads = r.range(2, 12);
            let calls = unsafe { &*std::ptr::from_ref(&slot.calls) };
            let gate = AtomicUsize::new(0);
            let started = AtomicI64::new(0);
            let most = AtomicI64::new(0);
            let bad = std::sync::Mutex::new(None);
            // sources shared by all threads
            let mut sh = Arena::new(false, 16384);
            let common = p.len() - 1 - r.us(20);
            let shared: Vec<&'static [u8]> = match &p[common] {
                Call::Conv(c) => prepare(c, &mut sh).0.iter().map(Buf::static_slice).collect(),
                _ => unreachable!(),
            };
            let same_first = r.chance(1, 2).then(|| r.us(p.len()));
            let seeds: Vec<u64> = (0..threads).map(|_| r.u64()).collect();
            std::thread::scope(|s| {
                for seed in &seeds {
                    let (gate, started, most, bad, shared) = (&gate, &started, &most, &bad, &shared);
                    s.spawn(move || {
                        let mut r = Rng::new(*seed);
                        let mut ar = Arena::new(false, 16384);
                        let first = same_first.unwrap_or_else(|| r.us(p.len()));
                        let mut rd = Ready::new(&p[first], &mut ar);
                        let jitter = if r.chance(1, 2) { 0 } else { r.below(3000) };
                        gate.fetch_add(1, SeqCst);
                        while gate.load(SeqCst) < threads {
                            std::hint::spin_loop();
                        }
                        for _ in 0..jitter {
                            std::hint::spin_loop();
                        }
                        let k = started.fetch_add(1, Relaxed) + 1;
                        most.fetch_max(k, Relaxed);
                        in_call(calls, || rd.go(None));
                        started.fetch_sub(1, Relaxed);
                        let fail = |i: usize, what: &str| {
                            *bad.lock().unwrap() =
                                Some(format!("{what} of {threads} threads differs from a sequential run | {}", p[i].describe()));
                        };
                        if rd.digest() != want[first] {
                            fail(first, "first call of one");
                        }
                        rd.release();
                        for _ in 0..12 {
                            let use_shared = r.chance(1, 3);
                            let i = if use_shared { common } else { r.us(p.len()) };
                            let sh = use_shared.then_some(&shared[..]);
                            let mut rd = Ready::new(&p[i], &mut ar);
                            in_call(calls, || rd.go(sh));
                            if rd.digest() != want[i] {
                                fail(i, "later call of one");
                            }
                            rd.release();
                        }
                    });
                }
            });
            slot.evaluations += 13 * threads as u64;
            slot.val(threads as u64);
            slot.val(u64::from(most.load(SeqCst) > 1));
            slot.sig(mix(seeds[0]));
            if let Some(m) = bad.into_inner().unwrap() {
                slot.fail(&m);
            }
        },
        |_, s, _| {
            firsts += s.vals[0];
            overlap += s.vals[1];
        },
    );
    rep.stats.count("racing_first_calls", firsts);
    rep.stats.count("processes_with_overlapping_first_calls", overlap);
}
