//! C15: samples beyond 2^31 and 2^32 bytes.
//!
//! Buffers are address ranges of which only the pages of visible rows exist (everything else
//! faults), or ranges that repeat a few megabytes of memory with a period that is not a divisor
//! of a power of two, with pages of their own at the places of interest.
use crate::arena::PAGE;
use crate::case::*;
use crate::fmt::*;
use crate::forks::{forked_with, in_call, Slot};
use crate::gen;
use crate::rng::{mix, Rng};
use crate::run::*;
use std::sync::atomic::AtomicI64;

const FILL: u8 = 0x5A;

/// An address range ending at an inaccessible page
struct Big {
    base: *mut u8,
    total: usize,
    ptr: *mut u8,
    len: usize,
    open: Vec<(usize, usize)>,
}

impl Big {
    fn reserve(len: usize, slack: usize, writable: bool) -> Big {
        let total = len.div_ceil(PAGE) * PAGE + 3 * PAGE;
        let prot = if writable { libc::PROT_READ | libc::PROT_WRITE } else { libc::PROT_NONE };
        unsafe {
            let base = libc::mmap(
                std::ptr::null_mut(),
                total,
                prot,
                libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
                -1,
                0,
            )
            .cast::<u8>();
            assert!(base.cast() != libc::MAP_FAILED, "reserve {total:#x}");
            let ptr = base.add(total - PAGE - len - slack);
            if writable {
                assert_eq!(libc::mprotect(base.add(total - PAGE).cast(), PAGE, libc::PROT_NONE), 0);
            }
            Big { base, total, ptr, len, open: vec![] }
        }
    }
    fn page_of(&self, off: usize) -> usize {
        (self.ptr as usize + off) & !(PAGE - 1)
    }
    /// Make the pages of a row and of the padding beside it (which may be read) accessible,
    /// filled with FILL
    fn open(&mut self, off: usize, len: usize) {
        let (off, end) = (off.saturating_sub(64), (off + len + 64).min(self.len));
        let len = end - off;
        let (lo, hi) = (self.page_of(off), self.page_of(off + len - 1) + PAGE);
        unsafe {
            assert_eq!(libc::mprotect(lo as *mut _, hi - lo, libc::PROT_READ | libc::PROT_WRITE), 0);
            for p in (lo..hi).step_by(PAGE) {
                if !self.open.iter().any(|o| o.0 <= p && p < o.1) {
                    std::ptr::write_bytes(p as *mut u8, FILL, PAGE);
                }
            }
        }
        self.open.push((lo, hi));
    }
    fn read_only(&self) {
        for (lo, hi) in &self.open {
            unsafe {
                assert_eq!(libc::mprotect(*lo as *mut _, hi - lo, libc::PROT_READ), 0);
            }
        }
    }
    #[allow(clippy::mut_from_ref)]
    fn at(&self, off: usize, len: usize) -> &mut [u8] {
        assert!(off + len <= self.len);
        unsafe { std::slice::from_raw_parts_mut(self.ptr.add(off), len) }
    }
    fn slice(&self) -> &[u8] {
        unsafe { std::slice::from_raw_parts(self.ptr, self.len) }
    }
    #[allow(clippy::mut_from_ref)]
    fn slice_mut(&self) -> &mut [u8] {
        unsafe { std::slice::from_raw_parts_mut(self.ptr, self.len) }
    }
}
impl Drop for Big {
    fn drop(&mut self) {
        unsafe {
            libc::munmap(self.base.cast(), self.total);
        }
    }
}

fn tight_bufs(f: &Fmt, w: u32, h: u32) -> Vec<Vec<u8>> {
    min_lens(f, w, h, None).iter().map(|n| vec![0; *n as usize]).collect()
}

/// Conversion of a compact copy
fn tight(sf: &Fmt, df: &Fmt, w: u32, h: u32, src: &[Vec<u8>]) -> Result<Vec<Vec<u8>>, String> {
    let mut out = tight_bufs(df, w, h);
    let s: Vec<&[u8]> = src.iter().map(|b| &b[..]).collect();
    let mut d: Vec<&mut [u8]> = out.iter_mut().map(|b| &mut b[..]).collect();
    match call(w, h, sf, None, &s, df, None, &mut d)? {
        Res::Ok => Ok(out),
        r => Err(format!("compact conversion {w}x{h} {sf:?} -> {df:?} gave {r:?}")),
    }
}

fn call_big(set: usize, w: u32, h: u32, sf: &Fmt, ss: Option<&[usize]>, src: &[Big], df: &Fmt, ds: Option<&[usize]>, dst: &[Big]) -> Result<Res, String> {
    assert!(use_set(set));
    let s: Vec<&[u8]> = src.iter().map(Big::slice).collect();
    let mut d: Vec<&mut [u8]> = dst.iter().map(Big::slice_mut).collect();
    call(w, h, sf, ss, &s, df, ds, &mut d)
}

/// A stride of around 2^31, 2^32, ... bytes, such that `rows` rows stay below 2^41 bytes
fn huge(r: &mut Rng, row: usize, rows: usize) -> usize {
    let near = |r: &mut Rng, x: usize| (x + r.range(0, 140)).saturating_sub(70);
    let v = match r.below(10) {
        0 => near(r, 1 << 31),
        1 => near(r, 1 << 32),
        2 => (1usize << 32) + row, // truncated to 32 bits: tight rows
        3 => near(r, (1 << 31) / (rows - 1).max(1)),
        4 => near(r, (1usize << 32) / (rows - 1).max(1)),
        5 => (1 << r.range(31, 37)) + r.range(0, 1 << 13),
        6 => (1 << 30) + r.us(1 << 33),
        7 => near(r, ((1usize << 32) - row) / (rows - 1).max(1)),
        8 => {
            let b = r.range(33, 36);
            near(r, (1 << b) / rows)
        }
        _ => row + r.us(5),
    };
    v.max(row).min((1usize << 41) / rows.max(1))
}

fn sparse(o: &Opts, r: &mut Rng, st: &mut Stats) -> Result<(), String> {
    let (sp, dp) = *r.pick(&pairs());
    let (sf, df) = gen::fmts(r, sp, dp);
    let even = |f: &Fmt| f.pf.even_w();
    let mut w = gen::width(r) as u32;
    let mut h = r.range(2, 6) as u32;
    if even(&sf) || even(&df) {
        w += w % 2;
        h += h % 2;
    }
    let set = *r.pick(&o.sets);
    let mk = |r: &mut Rng, f: &Fmt| -> Vec<usize> {
        let mut v: Vec<usize> = vec![0; f.planes as usize];
        for p in layout(f, w, h, None) {
            let rows = if f.pf == Pf::Nv12 && f.planes == 1 { h as usize * 3 / 2 } else { p.rows as usize };
            if v[p.buf] == 0 {
                v[p.buf] = huge(r, p.row as usize, rows);
            }
        }
        v
    };
    let (ss, ds) = (mk(r, &sf), mk(r, &df));
    let (sl, dl) = (min_lens(&sf, w, h, Some(&ss)), min_lens(&df, w, h, Some(&ds)));
    let make = |r: &mut Rng, l: &[u128]| -> Vec<Big> { l.iter().map(|n| Big::reserve(*n as usize, [0, 0, 1, 7, 64][r.us(5)], false)).collect() };
    let (mut src, mut dst) = (make(r, &sl), make(r, &dl));
    let what = || format!("set={:?} {w}x{h} {sf:?} strides {ss:x?} -> {df:?} strides {ds:x?}", SETS[set]);
    // one buffer a little short: refused, although no page of any buffer can be touched
    let nbuf = src.len() + dst.len();
    let k = r.us(nbuf);
    let (b, n) = if k < src.len() { (&mut src[k], sl[k]) } else { (&mut dst[k - sl.len()], dl[k - sl.len()]) };
    let cut = match r.below(4) {
        0 => r.range(1, 8).min(n as usize),
        1 if n > 1 << 32 => 1 << 32,
        2 if n > 1 << 31 => 1 << 31,
        _ => 1,
    };
    b.len = n as usize - cut;
    let res = call_big(set, w, h, &sf, Some(&ss), &src, &df, Some(&ds), &dst)?;
    if res != Res::NotEnoughData {
        return Err(format!("{res:?} with buffer {k} {cut:#x} bytes short: {}", what()));
    }
    let (b, n) = if k < src.len() { (&mut src[k], sl[k]) } else { (&mut dst[k - sl.len()], dl[k - sl.len()]) };
    b.len = n as usize;
    // the conversion
    let mut small = tight_bufs(&sf, w, h);
    let content = r.below(CONTENTS) as u8;
    for b in &mut small {
        fill_content(b, content, w as usize, r);
    }
    for (p, q) in layout(&sf, w, h, Some(&ss)).iter().zip(layout(&sf, w, h, None)) {
        for y in 0..p.rows {
            let (a, b) = ((p.off + p.stride * y) as usize, (q.off + q.stride * y) as usize);
            src[p.buf].open(a, p.row as usize);
            src[p.buf].at(a, p.row as usize).copy_from_slice(&small[q.buf][b..b + q.row as usize]);
        }
    }
    for b in &src {
        b.read_only();
    }
    for p in layout(&df, w, h, Some(&ds)) {
        for y in 0..p.rows {
            dst[p.buf].open((p.off + p.stride * y) as usize, p.row as usize);
        }
    }
    let res = call_big(set, w, h, &sf, Some(&ss), &src, &df, Some(&ds), &dst)?;
    if res != Res::Ok {
        return Err(format!("{res:?}: {}", what()));
    }
    let want = tight(&sf, &df, w, h, &small)?;
    for (i, (p, q)) in layout(&df, w, h, Some(&ds)).iter().zip(layout(&df, w, h, None)).enumerate() {
        for y in 0..p.rows {
            let (a, b) = ((p.off + p.stride * y) as usize, (q.off + q.stride * y) as usize);
            let got = dst[p.buf].at(a, p.row as usize);
            if let Some(x) = (0..got.len()).find(|x| got[*x] != want[q.buf][b + x]) {
                return Err(format!("plane {i} row {y} byte {x} is {} instead of {}: {}", got[x], want[q.buf][b + x], what()));
            }
            got.fill(FILL);
            st.max("max_row_offset_log2", (a as f64).log2() as u64);
            if a >> 32 > 0 {
                st.count("rows_beyond_4g_checked", 1);
            }
        }
    }
    for (i, b) in dst.iter().enumerate() {
        for (lo, hi) in &b.open {
            for a in *lo..*hi {
                if unsafe { *(a as *const u8) } != FILL {
                    return Err(format!("byte {:#x} of destination {i} was written outside of visible rows: {}", a.wrapping_sub(b.ptr as usize), what()));
                }
            }
        }
    }
    st.evaluations += 2;
    let c = |v: &[usize]| v.iter().fold(0u64, |a, s| a * 64 + u64::from(s.ilog2()));
    st.distinct.insert(mix(mix(mix(set as u64 * 100 + sp as u64 * 10 + dp as u64) ^ c(&ss)) ^ c(&ds)) ^ u64::from(w.min(99)));
    if st.samples.len() < 2 {
        st.samples.push(what());
    }
    Ok(())
}

/// Tens of thousands of rows with moderate strides: row offsets beyond 2^32
fn tall(o: &Opts, r: &mut Rng, st: &mut Stats, pair: (Pf, Pf)) -> Result<(), String> {
    let (sf, df) = gen::fmts(r, pair.0, pair.1);
    let set = *r.pick(&o.sets);
    let w = 2 * r.range(1, 17) as u32;
    let stride = r.range(140_000, 260_000);
    let bits = if r.chance(1, 4) { 31 } else { 32 };
    // so that the luma or rgb planes pass the boundary; 4:2:0 chroma passes 2^31
    let h = ((1usize << bits) / stride + r.range(2, 400)) as u32 & !1;
    let mk = |r: &mut Rng, f: &Fmt| -> Vec<usize> { (0..f.planes).map(|_| stride + r.us(3000)).collect() };
    let (ss, ds) = (mk(r, &sf), mk(r, &df));
    let what = format!("set={:?} {w}x{h} {sf:?} strides {ss:?} -> {df:?} strides {ds:?}", SETS[set]);
    let make = |f: &Fmt, s: &[usize]| -> Vec<Big> { min_lens(f, w, h, Some(s)).iter().map(|n| Big::reserve(*n as usize, 0, true)).collect() };
    let (src, dst) = (make(&sf, &ss), make(&df, &ds));
    let mut small = tight_bufs(&sf, w, h);
    for b in &mut small {
        r.fill(b);
    }
    for (p, q) in layout(&sf, w, h, Some(&ss)).iter().zip(layout(&sf, w, h, None)) {
        for y in 0..p.rows {
            let (a, b) = ((p.off + p.stride * y) as usize, (q.off + q.stride * y) as usize);
            src[p.buf].at(a, p.row as usize).copy_from_slice(&small[q.buf][b..b + q.row as usize]);
        }
    }
    let res = call_big(set, w, h, &sf, Some(&ss), &src, &df, Some(&ds), &dst)?;
    if res != Res::Ok {
        return Err(format!("{res:?}: {what}"));
    }
    let want = tight(&sf, &df, w, h, &small)?;
    for (i, (p, q)) in layout(&df, w, h, Some(&ds)).iter().zip(layout(&df, w, h, None)).enumerate() {
        for y in 0..p.rows {
            let (a, b) = ((p.off + p.stride * y) as usize, (q.off + q.stride * y) as usize);
            let got = dst[p.buf].at(a, p.row as usize);
            if let Some(x) = (0..got.len()).find(|x| got[*x] != want[q.buf][b + x]) {
                return Err(format!("plane {i} row {y} byte {x} is {} instead of {}: {what}", got[x], want[q.buf][b + x]));
            }
            if a >> 32 > 0 {
                st.count("rows_beyond_4g_checked", 1);
            }
        }
    }
    st.evaluations += 1;
    st.distinct.insert(mix(mix(set as u64 * 100 + pair.0 as u64 * 10 + pair.1 as u64) ^ u64::from(w)));
    Ok(())
}

/// One plane of a repeated image: bytes per `den` units along the repeated axis
struct Seg {
    plane: Plane,
    num: usize,
    den: usize,
    fd: i32,
    period: usize,
}

/// Units along the repeated axis in a period: multiple of 8192, odd multiple
const NP: usize = 8192 * 61;
/// Units in a place of interest
const WIN: usize = 32768;

struct Rep {
    f: Fmt,
    strides: Vec<usize>,
    segs: Vec<Seg>,
    bufs: Vec<Big>,
}

/// `along_x`: the image repeats along its rows (otherwise along its columns)
fn repeated(f: &Fmt, w: u32, h: u32, along_x: bool, wins: &[usize]) -> Rep {
    let strides: Vec<usize> = if along_x {
        // rows start at the beginning of a period
        let mut v = vec![0; f.planes as usize];
        for p in layout(f, w, h, None) {
            let per = per_units(f, &p, w, along_x);
            let period = NP / per.1 * per.0;
            v[p.buf] = (p.row as usize).div_ceil(period) * period;
        }
        v
    } else {
        let mut v = vec![0; f.planes as usize];
        for p in layout(f, w, h, None) {
            v[p.buf] = p.row as usize;
        }
        v
    };
    let lay = layout(f, w, h, Some(&strides));
    let lens = min_lens(f, w, h, Some(&strides));
    let mut bufs: Vec<Big> = vec![];
    let mut segs: Vec<Seg> = vec![];
    for n in &lens {
        // page aligned start: periods are mapped at page granularity
        let b = Big::reserve((*n as usize).div_ceil(PAGE) * PAGE, 0, false);
        bufs.push(b);
    }
    for p in lay {
        let (num, den) = per_units(f, &p, w, along_x);
        let num = if along_x { num } else { num * p.stride as usize };
        let period = NP / den * num;
        assert_eq!(period % PAGE, 0);
        assert_eq!(p.off as usize % PAGE, 0);
        unsafe {
            let fd = libc::memfd_create(c"period".as_ptr(), 0);
            assert!(fd >= 0 && libc::ftruncate(fd, period as i64) == 0, "memfd");
            let end = (p.end() as usize).div_ceil(PAGE) * PAGE;
            let mut o = p.off as usize;
            while o < end {
                let n = period.min(end - o);
                let q = libc::mmap(
                    bufs[p.buf].ptr.add(o).cast(),
                    n,
                    libc::PROT_READ | libc::PROT_WRITE,
                    libc::MAP_SHARED | libc::MAP_FIXED,
                    fd,
                    0,
                );
                assert!(q != libc::MAP_FAILED, "mmap of a period at {o:#x}");
                o += n;
            }
            segs.push(Seg { plane: p, num, den, fd, period });
        }
    }
    for (b, n) in bufs.iter_mut().zip(&lens) {
        b.len = *n as usize;
    }
    let _ = wins;
    Rep { f: *f, strides, segs, bufs }
}

/// (bytes or rows, units): how much of a plane belongs to how many units of the repeated axis
fn per_units(f: &Fmt, p: &Plane, w: u32, along_x: bool) -> (usize, usize) {
    let sub = f.pf.is_420() && (p.off > 0 || p.buf > 0);
    if along_x {
        let w = w as usize;
        if p.row as usize == w / 2 && sub {
            (1, 2)
        } else {
            (p.row as usize / w, 1)
        }
    } else if sub {
        (1, 2)
    } else {
        (1, 1)
    }
}

impl Rep {
    /// Byte ranges of units [u, u + n) (one per row when repeating along rows)
    fn ranges(&self, s: &Seg, u: usize, n: usize, along_x: bool) -> Vec<(usize, usize)> {
        let (a, l) = (u / s.den * s.num, n / s.den * s.num);
        if along_x {
            (0..s.plane.rows as usize).map(|y| (s.plane.off as usize + s.plane.stride as usize * y + a, l)).collect()
        } else {
            vec![(s.plane.off as usize + a, l)]
        }
    }
    /// Give a window pages of its own. Sources: pages inside; destinations: pages around
    fn own(&self, u: usize, n: usize, along_x: bool, inside: bool, r: &mut Rng) {
        for s in &self.segs {
            for (a, l) in self.ranges(s, u, n, along_x) {
                let b = &self.bufs[s.plane.buf];
                let (lo, hi) = if inside {
                    (a.div_ceil(PAGE) * PAGE, (a + l) / PAGE * PAGE)
                } else {
                    (a / PAGE * PAGE, (a + l).div_ceil(PAGE) * PAGE)
                };
                if lo >= hi {
                    continue;
                }
                unsafe {
                    let q = libc::mmap(
                        b.ptr.add(lo).cast(),
                        hi - lo,
                        libc::PROT_READ | libc::PROT_WRITE,
                        libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_FIXED,
                        -1,
                        0,
                    );
                    assert!(q != libc::MAP_FAILED);
                    let m = std::slice::from_raw_parts_mut(q.cast::<u8>(), hi - lo);
                    if inside {
                        r.fill(m);
                    } else {
                        m.fill(FILL);
                    }
                }
            }
        }
    }
    /// Compact copy of a window
    fn window(&self, u: usize, n: usize, w: u32, h: u32, along_x: bool) -> Vec<Vec<u8>> {
        let (tw, th) = if along_x { (n as u32, h) } else { (w, n as u32) };
        let mut out = tight_bufs(&self.f, tw, th);
        for (s, q) in self.segs.iter().zip(layout(&self.f, tw, th, None)) {
            for (y, (a, l)) in self.ranges(s, u, n, along_x).into_iter().enumerate() {
                let o = (q.off + if along_x { q.stride * y as u128 } else { 0 }) as usize;
                out[q.buf][o..o + l].copy_from_slice(self.bufs[s.plane.buf].at(a, l));
            }
        }
        out
    }
    /// The repeated memory of a plane
    fn period(&self, s: &Seg) -> Vec<u8> {
        let mut v = vec![0; s.period];
        assert_eq!(unsafe { libc::pread(s.fd, v.as_mut_ptr().cast(), v.len(), 0) }, v.len() as isize);
        v
    }
    fn set_period(&self, s: &Seg, v: &[u8]) {
        assert_eq!(unsafe { libc::pwrite(s.fd, v.as_ptr().cast(), v.len(), 0) }, v.len() as isize);
    }
}

/// Kinds: which offset passes which power of two
fn repeat_trial(o: &Opts, r: &mut Rng, slot: &mut Slot, pair: (Pf, Pf), set: usize, along_x: bool, kind: u64) -> Result<(), String> {
    let _ = o;
    let calls: &AtomicI64 = unsafe { &*std::ptr::from_ref(&slot.calls) };
    let (sf, df) = gen::fmts(r, pair.0, pair.1);
    let sub = sf.pf.even_h() || df.pf.even_h();
    let depth = sf.pf.depth().max(df.pf.depth());
    let extra = r.range(WIN, 3 * WIN) & !1;
    // units along the long axis, and the other dimension
    let (n, m) = if along_x {
        let n = match kind {
            0 => (1usize << 31) / depth + extra,
            1 => (1usize << 32) / depth + extra,
            2 => (1usize << 31) + extra,
            _ => (1usize << 32) - 2 - r.range(0, 30) * 2,
        };
        (n + r.us(32) * if sub { 2 } else { 1 }, if sub { 2 } else { 1 })
    } else {
        let m = if sub { 2 } else { r.range(1, 2) };
        let n = match kind {
            0 => (1usize << 31) / (depth * m) + extra,
            1 => (1usize << 32) / (depth * m) + extra,
            2 => (1usize << 31) + extra,
            _ => (1usize << 32) - 2 - r.range(0, 30) * 2,
        };
        (n, m)
    };
    let n = n.min((1 << 32) - 2);
    let n = if sub { n & !1 } else { n };
    // the chroma of single-buffer NV12 starts at a period
    let one = |f: &Fmt| f.pf == Pf::Nv12 && f.planes == 1;
    let n = if !along_x && (one(&sf) || one(&df)) { (n / NP * NP).max(NP) } else { n };
    let (w, h) = if along_x { (n as u32, m as u32) } else { (m as u32, n as u32) };
    let mut wins: Vec<usize> = vec![];
    let mut centres = vec![0, n, (1 << 31) / depth, (1 << 32) / depth, 1 << 31, (1 << 30), (1usize << 31) / 3, (1usize << 32) / 3];
    if !along_x {
        centres.extend([(1 << 31) / (depth * m), (1 << 32) / (depth * m), (1 << 31) / m]);
    }
    for c in centres {
        let u = (c.saturating_sub(WIN / 2) & !1).min(n.saturating_sub(WIN));
        // the last window reaches the very end
        let u = if c == n { n - WIN } else { u };
        if c <= n && wins.iter().all(|x| x.abs_diff(u) > WIN + 2 * PAGE * 2) {
            wins.push(u);
        }
    }
    let what = format!("set={:?} {w}x{h} {sf:?} -> {df:?}, repeated along {}", SETS[set], if along_x { "x" } else { "y" });
    let src = repeated(&sf, w, h, along_x, &wins);
    let dst = repeated(&df, w, h, along_x, &wins);
    // contents
    let (pw, ph) = if along_x { (NP as u32, m as u32) } else { (m as u32, NP as u32) };
    let mut pat = tight_bufs(&sf, pw, ph);
    for (s, q) in src.segs.iter().zip(layout(&sf, pw, ph, None)) {
        let mut v = vec![0; s.period];
        r.fill(&mut v);
        src.set_period(s, &v);
        // every row of the pattern is the same when repeating along x
        let rows = if along_x { q.rows as usize } else { 1 };
        for y in 0..rows {
            let off = q.off as usize + y * q.stride as usize;
            pat[q.buf][off..off + v.len()].copy_from_slice(&v);
        }
    }
    for s in &dst.segs {
        dst.set_period(s, &vec![FILL; s.period]);
    }
    for u in &wins {
        src.own(*u, WIN, along_x, true, r);
        dst.own(*u, WIN, along_x, false, r);
    }
    let res = in_call(calls, || {
        call_big(set, w, h, &sf, Some(&src.strides), &src.bufs, &df, Some(&dst.strides), &dst.bufs)
    })?;
    if res != Res::Ok {
        return Err(format!("{res:?}: {what}"));
    }
    for u in &wins {
        let (tw, th) = if along_x { (WIN as u32, h) } else { (w, WIN as u32) };
        let want = in_call(calls, || tight(&sf, &df, tw, th, &src.window(*u, WIN, w, h, along_x)))?;
        let got = dst.window(*u, WIN, w, h, along_x);
        for (i, (a, b)) in want.iter().zip(&got).enumerate() {
            if let Some(x) = (0..a.len()).find(|x| a[*x] != b[*x]) {
                return Err(format!("around {u}: byte {x} of buffer {i} of a window of {WIN} is {} instead of {}: {what}", b[x], a[x]));
            }
        }
        slot.evaluations += 1;
        slot.val(*u as u64);
    }
    let want = in_call(calls, || tight(&sf, &df, pw, ph, &pat))?;
    for (i, (s, q)) in dst.segs.iter().zip(layout(&df, pw, ph, None)).enumerate() {
        let got = dst.period(s);
        let w = &want[q.buf][q.off as usize..];
        if let Some(x) = (0..got.len()).find(|x| got[*x] != w[*x]) {
            return Err(format!("repeated part: byte {x} of plane {i} is {} instead of {}: {what}", got[x], w[x]));
        }
    }
    slot.evaluations += 1;
    slot.sig(mix((set * 1000 + pair.0 as usize * 100 + pair.1 as usize * 10) as u64 + kind + if along_x { 0 } else { 5 }));
    Ok(())
}

/// Extent of each buffer that does not exist
const CLAIM: usize = 1 << 42;

/// Address ranges without memory: whatever is read or written there faults
fn claim(i: usize) -> *mut u8 {
    static BASE: std::sync::OnceLock<usize> = std::sync::OnceLock::new();
    let base = *BASE.get_or_init(|| {
        let p = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                6 * CLAIM,
                libc::PROT_NONE,
                libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
                -1,
                0,
            )
        };
        assert!(p != libc::MAP_FAILED, "claim");
        p as usize
    });
    (base + i * CLAIM) as *mut u8
}

/// A dimension around the places where sizes outgrow 31, 32 or 33 bits
fn wide(r: &mut Rng) -> u64 {
    let base = match r.us(4) {
        0 => 1u64 << r.range(20, 32),
        1 => (1u64 << r.range(31, 33)) / r.range(1, 5) as u64,
        2 => (r.range(1, 4) as u64) << 30,
        _ => r.u64() & 0xFFFF_FFFF,
    };
    let d = r.us(40) as u64;
    (if r.chance(1, 3) { base.saturating_sub(d) } else { base + d }).clamp(1, 0xFFFF_FFFE)
}

/// Huge images in buffers one of which is too short: no truncated size may make it acceptable.
/// Sizes of such images
fn claims(o: &Opts, r: &mut Rng, st: &mut Stats) -> Result<(), String> {
    let all = pairs();
    let pair = *r.pick(&all);
    let (sf, df) = gen::fmts(r, pair.0, pair.1);
    let set = *r.pick(&o.sets);
    let (a, b) = (wide(r), if r.chance(1, 3) { wide(r) } else { r.range(1, 70) as u64 });
    let (w, h) = if r.chance(1, 3) { (b, a) } else { (a, b) };
    let (w, h) = ((w as u32 + 1) & !1, (h as u32 + 1) & !1);
    let strides = |r: &mut Rng, f: &Fmt| -> Option<Vec<usize>> {
        if r.chance(1, 2) {
            return None;
        }
        let rows: Vec<u128> = layout(f, w, h, None).iter().map(|p| p.row).collect();
        Some(
            (0..f.planes as usize)
                .map(|i| match r.us(4) {
                    0 => 0,
                    1 => rows[i] as usize,
                    2 => rows[i] as usize + r.us(70),
                    _ => rows[i] as usize + (1usize << r.range(28, 34)) - r.us(70),
                })
                .collect(),
        )
    };
    let (ss, ds) = (strides(r, &sf), strides(r, &df));
    for (f, s) in [(&sf, &ss), (&df, &ds)] {
        let want = query_sizes(f, w, h, s.as_deref());
        if want.iter().all(|n| *n <= usize::MAX as u128) {
            let mut sizes = vec![0usize; want.len()];
            let res = query(w, h, f, s.as_deref(), &mut sizes)?;
            if res != Res::Ok || sizes.iter().zip(&want).any(|(a, b)| *a as u128 != *b) {
                return Err(format!("size query of {w}x{h} {f:?} strides {s:?} gives {res:?} {sizes:?} instead of {want:?}"));
            }
            st.count("sizes_of_huge_images_checked", 1);
        }
    }
    let need: Vec<u128> =
        min_lens(&sf, w, h, ss.as_deref()).into_iter().chain(min_lens(&df, w, h, ds.as_deref())).collect();
    let ns = sf.planes as usize;
    let victim = if r.chance(1, 2) { ns + r.us(need.len() - ns) } else { r.us(ns) };
    if need.iter().any(|n| *n > CLAIM as u128) {
        st.count("beyond_the_address_space", 1);
        return Ok(());
    }
    let mut lens: Vec<usize> = need.iter().map(|n| *n as usize + if r.chance(1, 3) { r.us(100).min(CLAIM - *n as usize) } else { 0 }).collect();
    let n = need[victim] as usize;
    // rows as a truncated width would have them, and the image they make
    let plane = {
        let (f, s, i) = if victim < ns { (&sf, &ss, victim) } else { (&df, &ds, victim - ns) };
        *layout(f, w, h, s.as_deref()).iter().filter(|p| p.buf == i).last().unwrap()
    };
    let cut = |x: u128, bits: u32| x & ((1 << bits) - 1);
    let bits = *r.pick(&[16, 24, 31, 32, 32, 32, 33]);
    lens[victim] = match r.us(7) {
        0 => n - 1,
        1 => n - 1 - r.us(n.min(100)),
        2 => cut(n as u128, bits) as usize,
        3 => cut(plane.off + cut(plane.stride, bits) * (plane.rows - 1) + cut(plane.row, bits), 43) as usize,
        4 => cut(plane.off + cut(plane.stride * (plane.rows - 1), bits) + plane.row, 43) as usize,
        5 => r.us(5000),
        _ => r.us(n),
    } + if r.chance(1, 3) { r.us(64) } else { 0 };
    if lens[victim] >= n {
        lens[victim] = n - 1;
    }
    let src: Vec<&[u8]> = (0..ns).map(|i| unsafe { std::slice::from_raw_parts(claim(i).cast_const(), lens[i]) }).collect();
    let mut dst: Vec<&mut [u8]> =
        (ns..lens.len()).map(|i| unsafe { std::slice::from_raw_parts_mut(claim(3 + i - ns), lens[i]) }).collect();
    if !use_set(set) {
        return Ok(());
    }
    let what = format!("set={:?} {w}x{h} {sf:?} strides {ss:?} -> {df:?} strides {ds:?}, lengths {lens:?}, needed {need:?}", SETS[set]);
    if VERBOSE.load(std::sync::atomic::Ordering::Relaxed) {
        eprintln!("{what}");
    }
    let res = call(w, h, &sf, ss.as_deref(), &src, &df, ds.as_deref(), &mut dst)?;
    if res != Res::NotEnoughData {
        return Err(format!("{res:?} instead of NotEnoughData: {what}"));
    }
    st.count("short_buffers_of_huge_images", 1);
    st.evaluations += 1;
    st.distinct.insert(mix(mix(set as u64 * 100 + pair.0 as u64 * 10 + pair.1 as u64) ^ victim as u64 ^ u64::from(w.leading_zeros() << 8 | h.leading_zeros() << 16)));
    Ok(())
}

pub fn c15(o: &Opts, rep: &mut Report) {
    let deep = o.args.contains_key("deep");
    // 1: a few rows, each of its own pages, at huge distances
    par(o, rep, 1, 6000, || (), |_, r, (), st| sparse(o, r, st));
    // 5: sizes
    par(o, rep, 5, 400_000, || (), |_, r, (), st| claims(o, r, st));
    // 2: many rows
    let all = pairs();
    par(o, rep, 2, all.len() as u64, || (), |i, r, (), st| tall(o, r, st, all[(i as usize * 5) % all.len()]));
    // 3, 4: rows and columns of more than 2^31 and 2^32 bytes. Every conversion on every set
    let sets: Vec<usize> = if o.sets.len() > 1 { o.sets.iter().copied().filter(|s| *s > 0).collect() } else { o.sets.clone() };
    let n = (all.len() * sets.len()) as u64;
    let kinds: &[(u64, bool, &[u64])] = if deep {
        &[(1003, true, &[0, 1, 2, 3]), (1004, false, &[0, 1, 2])]
    } else {
        &[(1003, true, &[1, 0]), (1004, false, &[0])]
    };
    for (phase, along_x, ks) in kinds {
        let (total, step) = if deep || *along_x { (n * ks.len() as u64, 1) } else { (n / 2, 2) };
        let mut spots = 0;
        forked_with(
            o, rep, *phase, total, o.threads, 0,
            &mut |i, r: &mut Rng, s: &mut Slot| {
                let i = i * step + if step > 1 { (o.seed ^ i) % step } else { 0 };
                let j = (i % n) as usize;
                let kind = ks[(i / n) as usize % ks.len()];
                let pair = all[j / sets.len()];
                if let Err(m) = repeat_trial(o, r, s, pair, sets[j % sets.len()], *along_x, kind) {
                    s.fail(&m);
                }
            },
            |_, s, _| spots += s.nvals as u64,
        );
        rep.stats.count(if *along_x { "places_checked_in_long_rows" } else { "places_checked_in_tall_images" }, spots);
    }
}
