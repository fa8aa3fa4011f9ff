//! One conversion call: description, execution in test memory, serialisation.
use crate::arena::{Arena, Buf, Place};
use crate::fault;
use crate::fmt::*;
use crate::rng::Rng;
use dcv_color_primitives as dcp;
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub const SETS: [&str; 5] = ["", "x86", "sse2", "avx2", "neon"];

thread_local! {
    static CUR_SET: Cell<usize> = const { Cell::new(0) };
    static PANIC_MSG: RefCell<String> = const { RefCell::new(String::new()) };
}

/// Select the instruction set of this thread; false if unavailable
pub fn use_set(set: usize) -> bool {
    #[cfg(not(all(not(dcp_verif), feature = "isets")))]
    if CUR_SET.with(Cell::get) == set {
        return true;
    }
    #[cfg(dcp_verif)]
    {
        if !dcp::verif::force_instruction_set(SETS[set]) {
            return false;
        }
        CUR_SET.with(|c| c.set(set));
        true
    }
    #[cfg(all(not(dcp_verif), feature = "isets"))]
    {
        // the crate's own switch is process-wide: several sets only with a single thread
        use std::sync::atomic::Ordering::Relaxed;
        let pinned = PINNED.load(Relaxed);
        if pinned < SETS.len() {
            return set == pinned || set == 0;
        }
        if set == 4 || set == 3 && !is_x86_feature_detected!("avx2") {
            return false;
        }
        dcp::initialize_with_instruction_set(SETS[set]);
        CUR_SET.with(|c| c.set(set));
        true
    }
    #[cfg(all(not(dcp_verif), not(feature = "isets")))]
    {
        false
    }
}

/// Without the hook: the only set used by this process
#[cfg(all(not(dcp_verif), feature = "isets"))]
static PINNED: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(usize::MAX);

pub fn pin_set(_set: usize) {
    #[cfg(all(not(dcp_verif), feature = "isets"))]
    {
        dcp::initialize_with_instruction_set(SETS[_set]);
        PINNED.store(_set, std::sync::atomic::Ordering::Relaxed);
    }
}

/// Instruction sets (indices in SETS) usable on this machine, default selection first
pub fn available_sets() -> Vec<usize> {
    let v: Vec<usize> = (0..SETS.len()).filter(|s| use_set(*s)).collect();
    use_set(0);
    v
}

pub fn install_panic_monitor() {
    std::panic::set_hook(Box::new(|i| {
        let s = i.to_string();
        if !crate::fault::is_in_call() {
            eprintln!("panic: {s}");
        }
        let _ = PANIC_MSG.try_with(|m| *m.borrow_mut() = s);
    }));
}

#[derive(Clone, Debug, PartialEq)]
pub struct Case {
    pub set: usize,
    pub w: u32,
    pub h: u32,
    pub src: Fmt,
    pub dst: Fmt,
    pub ss: Option<Vec<usize>>,
    pub ds: Option<Vec<usize>>,
    pub slens: Vec<usize>,
    pub dlens: Vec<usize>,
    pub splace: Vec<Place>,
    pub dplace: Vec<Place>,
    pub content: u8,
    pub cseed: u64,
    pub fill: u64,
}

impl Case {
    pub fn describe(&self) -> String {
        format!(
            "set={:?} {}x{} src={:?}/{:?}/{} strides={:?} lens={:?} at={:?} -> dst={:?}/{:?}/{} strides={:?} lens={:?} at={:?} content={} cseed={:#x} fill={:#x}",
            SETS[self.set], self.w, self.h, self.src.pf, self.src.cs, self.src.planes, self.ss, self.slens, self.splace,
            self.dst.pf, self.dst.cs, self.dst.planes, self.ds, self.dlens, self.dplace, self.content, self.cseed, self.fill
        )
    }
    /// Distance of the rows in a source buffer
    fn src_row(&self, i: usize) -> usize {
        let row = if i == 0 { (self.w as usize).wrapping_mul(self.src.pf.depth().max(1)) } else { self.w as usize / 2 };
        match &self.ss {
            Some(s) if s.get(i).is_some_and(|x| *x != 0) => s[i],
            _ => row,
        }
    }
    pub fn predict(&self) -> Option<Res> {
        predict(
            self.w,
            self.h,
            &self.src,
            self.ss.as_deref(),
            &self.slens,
            &self.dst,
            self.ds.as_deref(),
            &self.dlens,
        )
    }
    /// Non-trivial signature: what distinguishes code paths, not contents
    pub fn sig(&self) -> u64 {
        let res = |w: usize| w.min(200) as u64;
        let pad = |s: &Option<Vec<usize>>, f: &Fmt| -> u64 {
            match s {
                None => 0,
                Some(v) => v.iter().take(f.planes.min(4) as usize).fold(1, |a, x| {
                    a * 7
                        + if *x == 0 {
                            0
                        } else {
                            1 + (*x as u64 % 4)
                        }
                }),
            }
        };
        let mut z = self.set as u64;
        for v in [
            self.src.pf as u64,
            self.src.planes as u64,
            self.dst.pf as u64,
            self.dst.cs as u64 * 8 + self.src.cs as u64,
            self.dst.planes as u64,
            res(self.w as usize),
            (self.h as u64).min(9),
            pad(&self.ss, &self.src),
            pad(&self.ds, &self.dst),
            u64::from(matches!(self.splace.first(), Some(Place::End(0)))),
        ] {
            z = crate::rng::mix(z.wrapping_mul(31).wrapping_add(v));
        }
        z
    }
}

/// `row`: distance of the rows, for pictures whose rows resemble each other
pub fn fill_content(b: &mut [u8], kind: u8, row: usize, rng: &mut Rng) {
    const EDGE: [u8; 18] = [
        0, 1, 2, 15, 16, 17, 64, 127, 128, 129, 191, 234, 235, 236, 240, 241, 254, 255,
    ];
    match kind {
        0 | 12 => rng.fill(b),
        1 => {
            rng.fill(b);
            for x in b.iter_mut() {
                *x = if *x & 1 == 0 { 0 } else { 255 };
            }
        }
        2 => {
            rng.fill(b);
            for x in b.iter_mut() {
                *x = EDGE[*x as usize % EDGE.len()];
            }
        }
        3 => {
            let v = rng.u64() as u8;
            b.fill(v);
        }
        4 => {
            let (k, o) = (rng.u64() as u8, rng.u64() as u8);
            for (i, x) in b.iter_mut().enumerate() {
                *x = (i as u8).wrapping_mul(k | 1).wrapping_add(o);
            }
        }
        5 => {
            // short periodic pattern (1..=6 bytes): constant pixels and planes
            let n = rng.range(1, 6);
            let mut p = [0; 6];
            rng.fill(&mut p);
            for (i, x) in b.iter_mut().enumerate() {
                *x = p[i % n];
            }
        }
        7 => {
            // runs of a few colors
            let (n, k) = (rng.range(1, 4), rng.range(2, 4));
            let mut pal = [0; 16];
            rng.fill(&mut pal);
            let (mut left, mut cur) = (0, 0);
            let long = rng.range(1, 40);
            for p in b.chunks_mut(n) {
                if left == 0 {
                    left = rng.range(1, long);
                    cur = rng.us(k);
                }
                left -= 1;
                p.copy_from_slice(&pal[4 * cur..4 * cur + p.len()]);
            }
        }
        8 => {
            // slow walks: neighbouring pixels differ by little, in few components
            let n = rng.range(1, 4);
            let mut p = [0; 4];
            rng.fill(&mut p);
            let every = rng.range(1, 24) as u64;
            let sel = rng.range(1, 15) as u64;
            for q in b.chunks_mut(n) {
                let z = rng.u64();
                if z % every == 0 {
                    for (i, x) in p.iter_mut().enumerate() {
                        if sel >> i & 1 != 0 {
                            *x = x.wrapping_add((z >> (8 + 2 * i)) as u8 & 3).wrapping_sub(1);
                        }
                    }
                }
                q.copy_from_slice(&p[..q.len()]);
            }
        }
        9 => {
            // flat, with rare pixels that differ in one byte
            let n = rng.range(1, 4);
            let mut p = [0; 4];
            match rng.below(3) {
                0 => rng.fill(&mut p),
                1 => p = [rng.u64() as u8; 4],
                _ => p.fill_with(|| *rng.pick(&EDGE)),
            }
            for (i, x) in b.iter_mut().enumerate() {
                *x = p[i % n];
            }
            let every = rng.range(5, 80);
            let mut i = rng.us(every);
            while i < b.len() {
                b[i] = if rng.below(2) == 0 { b[i].wrapping_add(1 << rng.below(8)) } else { rng.u64() as u8 };
                i += 1 + rng.us(2 * every);
            }
        }
        10 => {
            // rows equal to the previous one but for a few bytes
            let row = row.clamp(1, b.len().max(1));
            let n = row.min(b.len());
            let kind = *rng.pick(&[0, 2, 7, 8]);
            fill_content(&mut b[..n], kind, row, rng);
            for i in n..b.len() {
                b[i] = b[i - row];
            }
            for _ in 0..(b.len() / (row + 1) / 2) {
                let i = rng.us(b.len());
                b[i] = rng.u64() as u8;
            }
        }
        _ => {
            // mostly constant background with rare outliers
            let bg = *rng.pick(&EDGE);
            b.fill(bg);
            for _ in 0..(b.len() / 37 + 1) {
                if !b.is_empty() {
                    let i = rng.us(b.len());
                    b[i] = rng.u64() as u8;
                }
            }
        }
    }
}
pub const CONTENTS: u64 = 13; // random bytes, the last, count twice

pub struct Exec {
    pub res: Result<Res, String>,
    pub src: Vec<Buf>,
    pub dst: Vec<Buf>,
}
impl Exec {
    pub fn release(self) {
        for b in self.src.into_iter().chain(self.dst) {
            b.release();
        }
    }
    pub fn src_slices(&self) -> Vec<&[u8]> {
        self.src.iter().map(Buf::slice).collect()
    }
    pub fn dst_slices(&self) -> Vec<&[u8]> {
        self.dst.iter().map(Buf::slice).collect()
    }
}

/// The call itself, with panics caught
pub fn call(
    w: u32,
    h: u32,
    sf: &Fmt,
    ss: Option<&[usize]>,
    src: &[&[u8]],
    df: &Fmt,
    ds: Option<&[usize]>,
    dst: &mut [&mut [u8]],
) -> Result<Res, String> {
    let (a, b) = (sf.lib(), df.lib());
    let r = fault::in_call(|| {
        catch_unwind(AssertUnwindSafe(|| dcp::convert_image(w, h, &a, ss, src, &b, ds, dst)))
    });
    match r {
        Ok(r) => Ok(Res::of(&r)),
        Err(_) => Err(PANIC_MSG.try_with(|m| m.borrow().clone()).unwrap_or_default()),
    }
}

/// The size query, with panics caught
pub fn query(w: u32, h: u32, f: &Fmt, s: Option<&[usize]>, out: &mut [usize]) -> Result<Res, String> {
    let a = f.lib();
    let r = fault::in_call(|| {
        catch_unwind(AssertUnwindSafe(|| dcp::get_buffers_size(w, h, &a, s, out)))
    });
    match r {
        Ok(r) => Ok(Res::of(&r)),
        Err(_) => Err(PANIC_MSG.try_with(|m| m.borrow().clone()).unwrap_or_default()),
    }
}

/// Set when one trial is replayed: cases are printed before they run
pub static VERBOSE: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

/// Allocate and fill all buffers of a case
pub fn prepare(c: &Case, arena: &mut Arena) -> (Vec<Buf>, Vec<Buf>) {
    if VERBOSE.load(std::sync::atomic::Ordering::Relaxed) {
        eprintln!("case: {}", c.describe());
    }
    arena.reset();
    let src: Vec<Buf> = c.slens.iter().zip(&c.splace).map(|(l, p)| arena.take(*l, *p)).collect();
    let dst: Vec<Buf> = c.dlens.iter().zip(&c.dplace).map(|(l, p)| arena.take(*l, *p)).collect();
    let mut r = Rng::new(c.cseed);
    for (i, b) in src.iter().enumerate() {
        fill_content(b.slice_mut(), c.content, c.src_row(i), &mut r);
    }
    fill_dst(c, &dst);
    (src, dst)
}

pub fn fill_dst(c: &Case, dst: &[Buf]) {
    let mut r = Rng::new(c.fill);
    for b in dst {
        match c.fill % 4 {
            0 => b.slice_mut().fill((c.fill >> 8) as u8),
            _ => r.fill(b.slice_mut()),
        }
    }
}

pub fn execute(c: &Case, arena: &mut Arena) -> Exec {
    let (src, dst) = prepare(c, arena);
    assert!(use_set(c.set), "set unavailable");
    let res = {
        let s: Vec<&[u8]> = src.iter().map(Buf::slice).collect();
        let mut d: Vec<&mut [u8]> = dst.iter().map(Buf::slice_mut).collect();
        call(
            c.w,
            c.h,
            &c.src,
            c.ss.as_deref(),
            &s,
            &c.dst,
            c.ds.as_deref(),
            &mut d,
        )
    };
    Exec { res, src, dst }
}
