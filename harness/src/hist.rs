//! C14: histories of calls. Every outcome is entered in a log under the key of its call; equal
//! keys with different outcomes, in any of the histories, processes and threads, are found by an
//! offline checker over all logs.
use crate::arena::{Arena, Buf, Place};
use crate::case::*;
use crate::conc::{digest, digest_case};
use crate::fault;
use crate::fmt::*;
use crate::forks::{forked_with, in_call, Slot};
use crate::gen::{self, GenCfg};
use crate::rng::{hash3, Rng};
use crate::run::*;
use dcv_color_primitives as dcp;
use std::collections::HashMap;
use std::io::Write;
use std::sync::atomic::{AtomicI64, AtomicU64};
use std::sync::Mutex;

pub const FAMILY: usize = 10;

#[derive(Clone)]
enum Key {
    Describe,
    Size(Fmt, u32, u32, Option<Vec<usize>>, usize),
    Conv(Case),
}

/// The call with a given number: a function of the key seed alone
fn key(seed: u64, i: usize, sets: &[usize]) -> Key {
    let fam = (i / FAMILY) as u64;
    let mut r = Rng::new(hash3(seed, 0xC14, fam));
    let v = i % FAMILY;
    let set = if r.chance(1, 2) { 0 } else { *r.pick(sets) };
    let g = GenCfg { sets: vec![set], max_px: if fam % 8 == 0 { 40_000 } else { 1500 } };
    let ps = pairs();
    let (s, d) = ps[fam as usize % ps.len()];
    let (sf, df) = gen::fmts(&mut r, s, d);
    let base = loop {
        let c = gen::valid_for(&mut r, &g, sf, df);
        if c.w > 0 && c.h > 0 {
            break c;
        }
    };
    let mut r = Rng::new(hash3(seed, 0xC14 + 1, i as u64));
    let again = |r: &mut Rng, c: &Case, sf: Fmt, df: Fmt| {
        let mut n = gen::valid_sized(r, &g, sf, df, c.w, c.h);
        n.cseed = c.cseed;
        n.content = c.content;
        n
    };
    Key::Conv(match v {
        0 => base,
        // another picture of the same kind
        1 => gen::valid_for(&mut r, &g, sf, df),
        // same picture, other color space
        2 => {
            let f = |f: Fmt, r: &mut Rng| Fmt { cs: if f.pf.is_rgb() { Cs::Rgb } else { *r.pick(&YUV_CS) }, ..f };
            let (a, b) = (f(sf, &mut r), f(df, &mut r));
            again(&mut r, &base, a, b)
        }
        // other strides
        3 => again(&mut r, &base, sf, df),
        // other contents
        4 => Case { cseed: r.u64(), content: r.below(CONTENTS) as u8, ..base },
        // other planes or destination
        5 => {
            let d = loop {
                let (a, b) = *r.pick(&ps);
                if a == s {
                    break b;
                }
            };
            let df = Fmt::new(d, if d.is_rgb() { Cs::Rgb } else if s.is_rgb() { *r.pick(&YUV_CS) } else { Cs::Rgb }, gen::planes_of(&mut r, d));
            let ok = df.size_ok(base.w, base.h);
            if ok {
                again(&mut r, &base, sf, df)
            } else {
                base
            }
        }
        // refused: too short
        6 => {
            let mut c = base;
            let k = r.us(c.slens.len() + c.dlens.len());
            let ns = c.slens.len();
            let l = if k < ns { &mut c.slens[k] } else { &mut c.dlens[k - ns] };
            *l = l.saturating_sub(r.range(1, 4));
            c
        }
        // refused or unusual: anything
        7 => gen::hostile(&mut r, &g),
        8 => {
            let (f, w, h, s, n) = crate::checks::any_query(&mut r);
            return Key::Size(f, w, h, s, n);
        }
        _ => {
            if fam % 4 == 0 {
                return Key::Describe;
            }
            // one pixel (pair) more or less
            let mut w = base.w;
            if w > 4 && r.chance(1, 2) {
                w -= 2;
            } else {
                w += 2;
            }
            gen::valid_sized(&mut r, &g, sf, df, w, base.h)
        }
    })
}

/// What a previous call may leave behind: stack contents and vector registers
#[inline(never)]
fn dirty(r: &mut Rng) {
    let mut a = [0u64; 2048];
    let v = r.u64();
    let k = r.range(64, a.len());
    for x in &mut a[..k] {
        unsafe { std::ptr::write_volatile(x, v) };
    }
    #[cfg(target_arch = "x86_64")]
    if is_x86_feature_detected!("avx2") {
        #[target_feature(enable = "avx2")]
        unsafe fn regs(p: *const u64) {
            std::arch::asm!(
                "vmovdqu ymm0, [{p}]", "vmovdqu ymm1, [{p}+32]", "vmovdqu ymm2, [{p}+64]", "vmovdqu ymm3, [{p}+96]",
                "vmovdqu ymm4, [{p}+128]", "vmovdqu ymm5, [{p}+160]", "vmovdqu ymm6, [{p}+192]", "vmovdqu ymm7, [{p}+224]",
                "vmovdqu ymm8, [{p}]", "vmovdqu ymm9, [{p}+32]", "vmovdqu ymm10, [{p}+64]", "vmovdqu ymm11, [{p}+96]",
                "vmovdqu ymm12, [{p}+128]", "vmovdqu ymm13, [{p}+160]", "vmovdqu ymm14, [{p}+192]", "vmovdqu ymm15, [{p}+224]",
                p = in(reg) p,
                out("xmm0") _, out("xmm1") _, out("xmm2") _, out("xmm3") _, out("xmm4") _, out("xmm5") _, out("xmm6") _, out("xmm7") _,
                out("xmm8") _, out("xmm9") _, out("xmm10") _, out("xmm11") _, out("xmm12") _, out("xmm13") _, out("xmm14") _, out("xmm15") _,
            );
        }
        unsafe { regs(a.as_ptr()) };
    }
}

fn anywhere(r: &mut Rng, n: usize) -> Vec<Place> {
    (0..n)
        .map(|_| match r.below(5) {
            0 => Place::End(0),
            1 => Place::Start(0),
            2 => Place::End(r.us(4096)),
            3 => Place::Start(r.us(4096)),
            _ => Place::Start(32 * r.us(128)),
        })
        .collect()
}

/// One call of a history; `calls` marks it for the parent of a forked child
fn perform(k: &Key, r: &mut Rng, a: &mut Arena, calls: &AtomicI64) -> u64 {
    dirty(r);
    match k {
        Key::Describe => {
            let t = in_call(calls, dcp::describe_acceleration);
            digest(&Ok(Res::Ok), t.as_bytes())
        }
        Key::Size(f, w, h, s, n) => {
            let mut out = vec![r.u64() as usize; *n];
            let q = in_call(calls, || query(*w, *h, f, s.as_deref(), &mut out));
            let used = (f.planes as usize).min(out.len());
            let b: Vec<u8> = out[..used].iter().flat_map(|x| x.to_le_bytes()).collect();
            digest(&q, if q == Ok(Res::Ok) { &b } else { &[] })
        }
        Key::Conv(c) => {
            let c = Case {
                fill: r.u64(),
                splace: anywhere(r, c.slens.len()),
                dplace: anywhere(r, c.dlens.len()),
                ..c.clone()
            };
            let (src, dst) = prepare(&c, a);
            use_set(c.set);
            let res = {
                let s: Vec<&[u8]> = src.iter().map(|b| b.slice()).collect();
                let mut d: Vec<&mut [u8]> = dst.iter().map(|b| b.slice_mut()).collect();
                in_call(calls, || call(c.w, c.h, &c.src, c.ss.as_deref(), &s, &c.dst, c.ds.as_deref(), &mut d))
            };
            let d: Vec<&[u8]> = dst.iter().map(|b| b.slice()).collect();
            // narrow strides: rows overlap, what is left behind is unspecified
            let g = if c.predict().is_none() { digest(&res.map(|_| Res::Ok), &[]) } else { digest_case(&c, &res, &d) };
            for b in src.into_iter().chain(dst) {
                b.release();
            }
            g
        }
    }
}

#[derive(Default)]
struct Log {
    /// key -> outcomes met: (digest, times, where first)
    seen: HashMap<u32, Vec<(u64, u64, u64)>>,
}
impl Log {
    fn add(&mut self, k: u32, d: u64, at: u64, times: u64) {
        let v = self.seen.entry(k).or_default();
        match v.iter_mut().find(|e| e.0 == d) {
            Some(e) => e.1 += times,
            None => v.push((d, times, at)),
        }
    }
}

/// Calls made when their thread or process is about to end
struct Late {
    keys_seed: u64,
    picks: Vec<usize>,
    r: Rng,
    slot: *mut Slot,
}
unsafe impl Send for Late {}
impl Late {
    fn run(&mut self) {
        let s = unsafe { &mut *self.slot };
        let calls = unsafe { &*std::ptr::from_ref(&s.calls) };
        let mut a = Arena::new(false, 16384);
        for k in std::mem::take(&mut self.picks) {
            let kk = key(self.keys_seed, k, &FAM_SETS);
            if matches!(&kk, Key::Conv(c) if c.set == 3 && !is_avx2()) {
                continue;
            }
            let d = perform(&kk, &mut self.r, &mut a, calls);
            s.val(k as u64);
            s.val(d);
            s.evaluations += 1;
        }
    }
}
impl Drop for Late {
    fn drop(&mut self) {
        self.run();
    }
}
thread_local! {
    static LATE: std::cell::RefCell<Option<Late>> = const { std::cell::RefCell::new(None) };
    static LATER: std::cell::RefCell<Option<Late>> = const { std::cell::RefCell::new(None) };
}
static AT_EXIT: std::sync::atomic::AtomicPtr<Late> = std::sync::atomic::AtomicPtr::new(std::ptr::null_mut());
extern "C" fn at_exit() {
    use std::sync::atomic::Ordering::SeqCst;
    unsafe {
        let l = &mut *AT_EXIT.load(SeqCst);
        l.run();
        (*l.slot).done.store(1, SeqCst);
        libc::_exit(0);
    }
}
const FAM_SETS: [usize; 4] = [0, 1, 2, 3];

pub fn c14(o: &Opts, rep: &mut Report) {
    let keys_seed: u64 = o.args.get("keys-seed").and_then(|x| x.parse().ok()).unwrap_or(1);
    let n: usize = o.args.get("keys").and_then(|x| x.parse().ok()).unwrap_or(1000);
    let log = Mutex::new(Log::default());
    // 1: every key as the first call of its process, then a short history of its family
    let fam_sets = FAM_SETS;
    let firsts = o.args.get("firsts").and_then(|x| x.parse().ok()).unwrap_or(n as u64);
    forked_with(
        o, rep, 1001, firsts, 8, 90,
        &mut |idx, r: &mut Rng, s: &mut Slot| {
            let mut a = Arena::new(false, 16384);
            let calls = unsafe { &*std::ptr::from_ref(&s.calls) };
            let i = (idx as usize + o.seed as usize * 37) % n;
            let fam = i / FAMILY * FAMILY;
            for j in 0..14 {
                let k = if j == 0 { i } else { (fam + r.us(FAMILY)) % n };
                let kk = key(keys_seed, k, &fam_sets);
                if let Key::Conv(c) = &kk {
                    if c.set == 3 && !is_avx2() {
                        continue;
                    }
                }
                let d = perform(&kk, r, &mut a, calls);
                s.val(k as u64);
                s.val(d);
                s.evaluations += 1;
            }
        },
        |idx, s, st| {
            let mut l = log.lock().unwrap();
            for (j, kd) in s.vals[..s.nvals].chunks(2).enumerate() {
                l.add(kd[0] as u32, kd[1], idx << 16 | j as u64, 1);
            }
            st.count("first_calls", 1);
        },
    );
    // calls at unusual moments: in destructors of thread-local values, during unwinding, when the
    // process exits; with and without calls before
    forked_with(
        o, rep, 1002, 80, 8, 90,
        &mut |idx, r: &mut Rng, s: &mut Slot| {
            let fam = r.us(n) / FAMILY * FAMILY;
            let slot = std::ptr::from_mut(s);
            let mut late = |k: usize| Late {
                keys_seed,
                picks: (0..k).map(|_| (fam + r.us(FAMILY)) % n).collect(),
                r: Rng::new(r.u64()),
                slot,
            };
            let (mut before, after, more) = (late(if idx / 4 % 2 == 0 { 0 } else { 4 }), late(5), late(4));
            match idx % 4 {
                k @ 0..=1 => std::thread::spawn(move || {
                    fault::set_trial(1002, idx);
                    // one destructor is registered before the first call, one after
                    let (mut before, after, more) = (before, after, more);
                    LATE.with(|l| *l.borrow_mut() = Some(after));
                    if k == 1 {
                        before.run();
                    }
                    LATER.with(|l| *l.borrow_mut() = Some(more));
                })
                .join()
                .unwrap(),
                2 => {
                    before.run();
                    let e = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
                        let (_a, _b) = (after, more);
                        std::panic::resume_unwind(Box::new(1));
                    }));
                    assert!(e.is_err());
                    // and a normal life afterwards
                    let k = fam % n;
                    Late { keys_seed, picks: vec![k, k], r: Rng::new(idx), slot }.run();
                }
                _ => {
                    before.run();
                    std::mem::forget(after);
                    AT_EXIT.store(Box::into_raw(Box::new(more)), std::sync::atomic::Ordering::SeqCst);
                    unsafe {
                        libc::atexit(at_exit);
                        libc::exit(0);
                    }
                }
            }
        },
        |idx, s, st| {
            let mut l = log.lock().unwrap();
            for (j, kd) in s.vals[..s.nvals].chunks(2).enumerate() {
                l.add(kd[0] as u32, kd[1], 1 << 40 | idx << 16 | j as u64, 1);
            }
            st.count("calls_at_unusual_moments", s.nvals as u64 / 2);
        },
    );
    // 2: long histories on several threads of one process
    if rep.violations.is_empty() && o.only.is_none() {
        let keys: Vec<Key> = (0..n).map(|i| key(keys_seed, i, &fam_sets)).collect();
        let small: Vec<usize> = (0..n)
            .filter(|i| match &keys[*i] {
                Key::Conv(c) => u64::from(c.w) * u64::from(c.h) < 2000 || c.predict() != Some(Res::Ok),
                _ => true,
            })
            .collect();
        let len = (60_000.0 * o.scale) as u64;
        let none = AtomicI64::new(0);
        let follow = Mutex::new(std::collections::HashSet::new());
        let dead = Mutex::new(false);
        std::thread::scope(|sc| {
            for t in 0..o.threads as u64 {
                let (keys, small, log, none, follow, dead) = (&keys, &small, &log, &none, &follow, &dead);
                sc.spawn(move || {
                    fault::set_trial(2, t);
                    let mut r = Rng::new(hash3(o.seed, 2, t));
                    let mut a = Arena::new(false, 1 << 18);
                    let mut mine = Log::default();
                    let mut pairs = std::collections::HashSet::new();
                    let mut prev = r.us(n);
                    for at in 0..len {
                        // stay in the family, repeat, or jump
                        let k = match r.below(10) {
                            0..=5 => (prev / FAMILY * FAMILY + r.us(FAMILY)) % n,
                            6 => prev,
                            7 => r.us(n),
                            _ => *r.pick(small),
                        };
                        if matches!(&keys[k], Key::Conv(c) if c.set == 3 && !is_avx2()) {
                            continue;
                        }
                        let d = perform(&keys[k], &mut r, &mut a, none);
                        mine.add(k as u32, d, (t + 1) << 48 | at, 1);
                        pairs.insert((prev * n + k) as u64);
                        prev = k;
                        if o.start.elapsed().as_secs_f64() > o.max_secs {
                            break;
                        }
                    }
                    let mut l = log.lock().unwrap();
                    for (k, v) in mine.seen {
                        for (d, times, at) in v {
                            l.add(k, d, at, times);
                        }
                    }
                    follow.lock().unwrap().extend(pairs);
                    let _ = dead;
                });
            }
        });
        let f = follow.into_inner().unwrap();
        rep.stats.count("distinct_call_successions", f.len() as u64);
        rep.stats.evaluations += len * o.threads as u64;
        rep.stats.distinct.extend(f);
        for i in [0, 11, 26, 38] {
            rep.stats.samples.push(format!("key {i}: {}", describe(&keys[i % n])));
        }
    }
    // 3: very many tiny calls: whatever counts calls, in a register, a thread or the process, wraps
    let dense: u64 = o.args.get("dense").and_then(|x| x.parse().ok()).unwrap_or(0);
    if dense > 0 && rep.violations.is_empty() && o.only.is_none() {
        let total = AtomicU64::new(0);
        std::thread::scope(|sc| {
            for t in 0..o.threads as u64 {
                let (log, total) = (&log, &total);
                sc.spawn(move || {
                    fault::set_trial(3, t);
                    let mut r = Rng::new(hash3(o.seed, 3, t));
                    let mut arenas: Vec<Arena> = (0..8).map(|_| Arena::new(false, 1 << 12)).collect();
                    let mut mine = Log::default();
                    let mut left = dense;
                    while left > 0 && o.start.elapsed().as_secs_f64() < o.max_secs {
                        // a few calls in turns, or one again and again
                        let group: Vec<usize> = (0..if r.chance(1, 3) { 1 } else { r.range(2, 9) }).map(|_| r.us(TINY)).collect();
                        let group: Vec<Tiny> = group.iter().zip(&mut arenas).map(|(i, a)| Tiny::new(keys_seed, *i, a)).collect();
                        let n = left.min(1 << r.range(12, 21));
                        let mut wrong = None;
                        let mut done = vec![0u64; group.len()];
                        'calls: for at in 0..n {
                            let k = (at % group.len() as u64) as usize;
                            let g = &group[k];
                            done[k] += 1;
                            if let Some(d) = g.again() {
                                wrong = Some((k, d, dense - left + at));
                                break 'calls;
                            }
                        }
                        for (k, g) in group.iter().enumerate() {
                            let bad = wrong.is_some_and(|w| w.0 == k);
                            mine.add((TINY_BASE + g.i) as u32, g.first, (t + 1) << 48 | (dense - left), done[k] + 1 - u64::from(bad));
                        }
                        if let Some((k, d, at)) = wrong {
                            mine.add((TINY_BASE + group[k].i) as u32, d, (t + 1) << 48 | at, 1);
                            left = n;
                        }
                        left -= n;
                        total.fetch_add(n, std::sync::atomic::Ordering::Relaxed);
                        for g in group {
                            g.release();
                        }
                    }
                    let mut l = log.lock().unwrap();
                    for (k, v) in mine.seen {
                        for (d, times, at) in v {
                            l.add(k, d, at, times);
                        }
                    }
                });
            }
        });
        let n = total.into_inner();
        rep.stats.count("tiny_calls", n);
        rep.stats.max("longest_history_of_one_process", n);
        rep.stats.evaluations += n;
    }
    // 4: a call, then a given number of trivial ones of its kind, then another call: what it finds left
    // behind must not be taken for its own. The same call in a thread that does nothing else tells.
    let returns: u64 = o.args.get("returns").and_then(|x| x.parse().ok()).unwrap_or(0);
    par(o, rep, 1004, returns, || (0..3).map(|_| Arena::new(false, 1 << 12)).collect::<Vec<_>>(), |idx, r, arenas, st| {
        let ps: Vec<_> = pairs().into_iter().filter(|p| supported(p.0, p.1)).collect();
        let (sp, dp) = ps[idx as usize % ps.len()];
        let bits = match idx / ps.len() as u64 % 8 {
            0 | 4 => 8,
            7 if o.args.contains_key("deep") => 24,
            _ => 16,
        };
        let distance = ((1_u64 << bits) + r.u64() % 3 - 1) * if bits < 24 { r.u64() % 2 + 1 } else { 1 };
        let set = match *r.pick(&FAM_SETS) {
            3 if !is_avx2() => 0,
            s => s,
        };
        let mut one = |r: &mut Rng, w, content| loop {
            let g = GenCfg { sets: vec![set], max_px: 200 };
            let (sf, df) = gen::fmts(r, sp, dp);
            let mut c = gen::valid_sized(r, &g, sf, df, w, 2);
            c.set = set;
            c.content = content;
            if c.predict() == Some(Res::Ok) {
                break c;
            }
        };
        let w = *r.pick(&[2, 18, 32, 64]);
        let (a, b, c) = (one(r, w, 0), one(r, w, 0), one(r, 2, 3));
        // the same content makes the two differ in their color spaces only
        let mut b = b;
        if r.chance(1, 2) {
            b.cseed = a.cseed;
        }
        let alone = {
            let b = b.clone();
            std::thread::spawn(move || {
                fault::set_trial(1004, idx);
                let mut a = Arena::new(false, 1 << 12);
                let t = Tiny::of(0, b, &mut a);
                let d = t.first;
                t.release();
                d
            })
            .join()
            .unwrap()
        };
        let [x, y, z] = &mut arenas[..] else { unreachable!() };
        let filler = Tiny::of(0, c, z);
        let first = Tiny::of(0, a.clone(), x);
        for at in 1..distance {
            if filler.again().is_some() {
                return Err(format!("trivial call {at} after a first one had another outcome: {}", filler.c.describe()));
            }
        }
        let last = Tiny::of(0, b.clone(), y);
        let bad = last.first != alone;
        for t in [filler, first, last] {
            t.release();
        }
        st.count("returns", 1);
        st.evaluations += distance;
        st.distinct.insert(hash3(distance, idx % ps.len() as u64, set as u64));
        if bad {
            return Err(format!(
                "a call had another outcome {distance} calls after {} than alone: {}",
                a.describe(),
                b.describe()
            ));
        }
        Ok(())
    });
    let log = log.into_inner().unwrap();
    rep.stats.count("keys", log.seen.len() as u64);
    if let Some(p) = o.args.get("log") {
        let mut f = std::io::BufWriter::new(std::fs::File::create(p).unwrap());
        for (k, v) in &log.seen {
            for (d, times, at) in v {
                writeln!(f, "{k} {d:016x} {times} {at:#x}").unwrap();
            }
        }
    }
    // the same check on this process' own log
    for (k, v) in &log.seen {
        if v.len() > 1 {
            rep.violations.push(Violation {
                phase: 1001,
                idx: u64::MAX,
                msg: format!("the same call had {} different outcomes {v:x?}: key {k}: {}", v.len(), if *k as usize >= TINY_BASE {
                    Tiny::case(keys_seed, *k as usize - TINY_BASE).describe()
                } else {
                    describe(&key(keys_seed, *k as usize, &fam_sets))
                }),
            });
            break;
        }
    }
}

const TINY: usize = 600;
const TINY_BASE: usize = 1 << 20;

/// A tiny call in prepared buffers, repeated at the least cost
struct Tiny {
    i: usize,
    c: Case,
    src: Vec<Buf>,
    dst: Vec<Buf>,
    before: Vec<Vec<u8>>,
    after: Vec<Vec<u8>>,
    res: Result<Res, String>,
    first: u64,
}
impl Tiny {
    fn case(seed: u64, i: usize) -> Case {
        let mut r = Rng::new(hash3(seed, 0xC14D, i as u64));
        let ps = pairs();
        let (s, d) = ps[i % ps.len()];
        let (sf, df) = gen::fmts(&mut r, s, d);
        let set = if r.chance(1, 2) { 0 } else { *r.pick(&FAM_SETS) };
        let set = if set == 3 && !is_avx2() { 0 } else { set };
        let g = GenCfg { sets: vec![set], max_px: 100 };
        let (w, h) = (*r.pick(&[2, 2, 4, 8, 16, 32]), 2);
        let mut c = loop {
            let c = gen::valid_sized(&mut r, &g, sf, df, w, h);
            if c.predict().is_some() {
                break c;
            }
        };
        // some are refused
        if r.chance(1, 6) {
            let l = if r.chance(1, 2) { &mut c.dlens } else { &mut c.slens };
            l[0] = 0;
        }
        c
    }
    fn new(seed: u64, i: usize, a: &mut Arena) -> Tiny {
        Tiny::of(i, Tiny::case(seed, i), a)
    }
    fn of(i: usize, c: Case, a: &mut Arena) -> Tiny {
        let (src, dst) = prepare(&c, a);
        let before = dst.iter().map(|b| b.slice().to_vec()).collect();
        let mut t = Tiny { i, c, src, dst, before, after: vec![], res: Ok(Res::Ok), first: 0 };
        t.res = t.call();
        t.first = t.digest(&t.res);
        t.after = t.dst.iter().map(|b| b.slice().to_vec()).collect();
        t
    }
    fn call(&self) -> Result<Res, String> {
        let c = &self.c;
        use_set(c.set);
        let none: [&[u8]; 12] = [&[]; 12];
        let mut s = none;
        let mut d: [&mut [u8]; 12] = Default::default();
        for (i, b) in self.src.iter().enumerate() {
            s[i] = b.slice();
        }
        for (i, b) in self.dst.iter().enumerate() {
            d[i] = b.slice_mut();
        }
        let (ns, nd) = (self.src.len(), self.dst.len());
        call(c.w, c.h, &c.src, c.ss.as_deref(), &s[..ns], &c.dst, c.ds.as_deref(), &mut d[..nd])
    }
    /// The call once more: what it did, if that is not what it did the first time
    fn again(&self) -> Option<u64> {
        for (b, o) in self.dst.iter().zip(&self.before) {
            b.slice_mut().copy_from_slice(o);
        }
        let res = self.call();
        if res == self.res && self.dst.iter().zip(&self.after).all(|(b, o)| b.slice() == &o[..]) {
            return None;
        }
        Some(self.digest(&res)).filter(|d| *d != self.first)
    }
    fn digest(&self, res: &Result<Res, String>) -> u64 {
        let d: Vec<&[u8]> = self.dst.iter().map(|b| b.slice()).collect();
        digest_case(&self.c, res, &d)
    }
    fn release(self) {
        for b in self.src.into_iter().chain(self.dst) {
            b.release();
        }
    }
}

fn describe(k: &Key) -> String {
    match k {
        Key::Describe => "describe_acceleration".into(),
        Key::Size(f, w, h, s, n) => format!("get_buffers_size {f:?} {w}x{h} {s:?} into {n}"),
        Key::Conv(c) => c.describe(),
    }
}

fn is_avx2() -> bool {
    is_x86_feature_detected!("avx2")
}
