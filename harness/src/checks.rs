//! Workloads and oracles of the properties decided in-process.
use crate::arena::{Arena, Place, Region, PAGE};
use crate::case::*;
use crate::fmt::*;
use crate::gen::{self, GenCfg};
use crate::model::{self, Img};
use crate::rng::{mix, Rng};
use crate::run::*;

pub const CAP: usize = 1 << 18;
type R = Result<(), String>;

pub fn cfg(o: &Opts) -> GenCfg {
    GenCfg { sets: o.sets.clone(), max_px: 40_000 }
}
pub fn arena(o: &Opts) -> Arena {
    Arena::new(o.heap, CAP)
}
fn bad(c: &Case, what: &str) -> R {
    Err(format!("{what} | {}", c.describe()))
}
fn note(st: &mut Stats, c: &Case) {
    st.evaluations += 1;
    st.distinct.insert(c.sig());
    if st.samples.len() < 2 && st.evaluations % 97 == 1 {
        st.samples.push(c.describe());
    }
    let k = if c.src.pf.is_rgb() {
        if c.dst.pf.is_rgb() {
            "rgb_to_rgb"
        } else {
            "rgb_to_yuv"
        }
    } else {
        "yuv_to_rgb"
    };
    st.count(k, 1);
    if u64::from(c.w) * u64::from(c.h) >= 100_000 {
        st.count("large_images", 1);
    }
    st.count(["set_default", "set_x86", "set_sse2", "set_avx2", "set_neon"][c.set], 1);
}

/// Raw visible bytes, row by row, plane by plane
pub fn visible(f: &Fmt, w: u32, h: u32, s: Option<&[usize]>, bufs: &[&[u8]]) -> Vec<u8> {
    let mut v = vec![];
    for p in layout(f, w, h, s) {
        for y in 0..p.rows {
            let o = (p.off + p.stride * y) as usize;
            v.extend_from_slice(&bufs[p.buf][o..o + p.row as usize]);
        }
    }
    v
}

fn damaged(c: &Case, e: &Exec) -> R {
    for (n, bs) in [("source", &e.src), ("destination", &e.dst)] {
        for (i, b) in bs.iter().enumerate() {
            if let Some(o) = b.damaged() {
                return bad(c, &format!("byte at offset {o} of {n} buffer {i} (length {}) was written", b.len));
            }
        }
    }
    Ok(())
}

/// Formats x plane arrangements x sets enumerated by index
pub struct Combo {
    pub sf: Fmt,
    pub df: Fmt,
    pub set: usize,
}
pub fn combos(o: &Opts, all_cs: bool) -> Vec<Combo> {
    let mut v = vec![];
    let mut k = o.seed as usize;
    for (s, d) in pairs() {
        let sp: &[u32] = if s == Pf::Nv12 { &[1, 2] } else { &[0] };
        let dp: &[u32] = if d == Pf::Nv12 { &[1, 2] } else { &[0] };
        for &a in sp {
            for &b in dp {
                let css: Vec<Cs> = if s.is_rgb() && d.is_rgb() {
                    vec![Cs::Rgb]
                } else if all_cs {
                    YUV_CS.to_vec()
                } else {
                    k += 1;
                    vec![YUV_CS[k % 4]]
                };
                for cs in css {
                    for &set in &o.sets {
                        let f = |pf: Pf, n: u32| {
                            Fmt::new(
                                pf,
                                if pf.is_rgb() { Cs::Rgb } else { cs },
                                if n == 0 { Fmt::default_planes(pf) } else { n },
                            )
                        };
                        v.push(Combo { sf: f(s, a), df: f(d, b), set });
                    }
                }
            }
        }
    }
    v
}

pub fn sized(o: &Combo, w: u32, h: u32) -> (u32, u32) {
    let ew = o.sf.pf.even_w() || o.df.pf.even_w();
    let eh = o.sf.pf.even_h() || o.df.pf.even_h();
    (if ew { w + (w & 1) } else { w }, if eh { h + (h & 1) } else { h })
}

/// A tight case at a given size; `pad` is added to every row of the padded side(s)
pub fn tight(r: &mut Rng, o: &Combo, w: u32, h: u32, spad: usize, dpad: usize, at: Place) -> Case {
    let (w, h) = sized(o, w, h);
    let mk = |f: &Fmt, pad: usize| -> Option<Vec<usize>> {
        if pad == 0 {
            return None;
        }
        let l = layout(f, w, h, None);
        Some(
            (0..f.planes as usize)
                .map(|i| l.iter().find(|p| p.buf == i).unwrap().row as usize + pad)
                .collect(),
        )
    };
    let ss = mk(&o.sf, spad);
    let ds = mk(&o.df, dpad);
    let to = |v: Vec<u128>| -> Vec<usize> { v.into_iter().map(|x| x as usize).collect() };
    let slens = to(min_lens(&o.sf, w, h, ss.as_deref()));
    let dlens = to(min_lens(&o.df, w, h, ds.as_deref()));
    Case {
        set: o.set,
        w,
        h,
        src: o.sf,
        dst: o.df,
        splace: slens.iter().map(|_| at).collect(),
        dplace: dlens.iter().map(|_| at).collect(),
        ss,
        ds,
        slens,
        dlens,
        content: r.below(CONTENTS) as u8,
        cseed: r.u64(),
        fill: r.u64(),
    }
}

// ---------------------------------------------------------------- C01 memory confinement
pub fn c01(o: &Opts, rep: &mut Report) {
    let one = |c: &Case, a: &mut Arena, st: &mut Stats| -> R {
        let e = execute(c, a);
        note(st, c);
        match &e.res {
            Ok(Res::Ok) => st.count("accepted", 1),
            Ok(_) => st.count("rejected", 1),
            Err(_) => st.count("panicked", 1),
        }
        damaged(c, &e)?;
        if e.res == Ok(Res::Ok) && c.predict() == Some(Res::NotEnoughData) {
            return bad(c, "call succeeded although the buffers cannot hold the image");
        }
        e.release();
        Ok(())
    };
    // 1: every width, tight buffers against the fence, both ends
    let cs = combos(o, false);
    let wmax = o.args.get("wmax").and_then(|x| x.parse().ok()).unwrap_or(200u64);
    let n = cs.len() as u64 * wmax;
    let at = [Place::End(0), Place::Start(0)];
    par(o, rep, 1001, n, || arena(o), |idx, r, a, st| {
        let cb = &cs[(idx % cs.len() as u64) as usize];
        let w = (idx / cs.len() as u64) as u32 + 1;
        for (h, sp, dp) in [(1, 0, 0), (2, 0, 0), (3, 0, 1), (3, 1, 0), (2, 2, 3), (4, r.range(1, 70), r.range(1, 70))] {
            for p in at {
                let c = tight(r, cb, w, h, sp, dp, p);
                one(&c, a, st)?;
            }
        }
        // one byte (or a few) short in one buffer: must be refused, untouched
        for k in 0..3 {
            let (h, sp, dp) = (1 + r.below(4) as u32, r.us(2) * r.us(9), r.us(2) * r.us(9));
            let mut c = tight(r, cb, w, h, sp, dp, Place::End(0));
            let total = c.slens.len() + c.dlens.len();
            let i = r.us(total);
            let l = if i < c.slens.len() { &mut c.slens[i] } else { let j = i - c.slens.len(); &mut c.dlens[j] };
            let cut = match k {
                0 => 1,
                1 => r.range(1, 8),
                _ => r.range(1, *l),
            };
            *l = l.saturating_sub(cut);
            one(&c, a, st)?;
        }
        Ok(())
    });
    let g = cfg(o);
    par(o, rep, 2, 150_000, || arena(o), |_, r, a, st| one(&gen::valid(r, &g), a, st));
    par(o, rep, 3, 800_000, || arena(o), |_, r, a, st| one(&gen::hostile(r, &g), a, st));
    // size query: output and stride arrays of exact length against the fence
    par(o, rep, 4, 200_000, || arena(o), |_, r, a, st| {
        a.reset();
        let (f, w, h, s, n) = any_query(r);
        let out = a.take(n * WORD, Place::End(0));
        let sb = s.as_ref().map(|s| {
            let b = a.take(s.len() * WORD, Place::End(0));
            for (i, x) in s.iter().enumerate() {
                b.slice_mut()[WORD * i..WORD * i + WORD].copy_from_slice(&x.to_le_bytes());
            }
            b
        });
        let os = unsafe { std::slice::from_raw_parts_mut(out.ptr.cast::<usize>(), n) };
        let ss = sb.as_ref().map(|b| unsafe {
            std::slice::from_raw_parts(b.ptr.cast::<usize>().cast_const(), b.len / WORD)
        });
        let _ = query(w, h, &f, ss, os);
        st.evaluations += 1;
        st.count("size_queries", 1);
        if out.damaged().is_some() || sb.as_ref().is_some_and(|b| b.damaged().is_some()) {
            return Err(format!("size query wrote outside its array: {f:?} {w}x{h} strides {s:?} entries {n}"));
        }
        out.release();
        if let Some(b) = sb {
            b.release();
        }
        Ok(())
    });
}

const WORD: usize = std::mem::size_of::<usize>();

pub fn any_query(r: &mut Rng) -> (Fmt, u32, u32, Option<Vec<usize>>, usize) {
    let pf = *r.pick(&PFS);
    let planes = if r.chance(3, 4) { gen::planes_of(r, pf) } else { *r.pick(&[0, 1, 2, 3, 4, 5, u32::MAX, 1 << 31]) };
    let f = Fmt::new(pf, *r.pick(&CSS), planes);
    let dim = |r: &mut Rng| match r.below(6) {
        0 => r.u64() as u32,
        1 => *r.pick(&[0, 1, 2, u32::MAX, u32::MAX - 1, 1 << 31]),
        _ => r.range(0, 5000) as u32,
    };
    let (mut w, mut h) = (dim(r), dim(r));
    if r.chance(3, 4) {
        w &= !1;
        h &= !1;
    }
    let s = if r.chance(1, 3) {
        None
    } else {
        let n = if r.chance(2, 3) { planes.min(4) as usize } else { r.us(6) };
        Some(
            (0..n)
                .map(|_| match r.below(5) {
                    0 => 0,
                    1 => gen::hostile_stride(r, w as usize, h as usize),
                    _ => (w as usize).wrapping_mul(pf.depth().max(1)).wrapping_add(r.us(100)),
                })
                .collect(),
        )
    };
    let n = if r.chance(2, 3) { planes.min(4) as usize } else { r.us(6) };
    (f, w, h, s, n)
}

// ---------------------------------------------------------------- C02 write footprint
pub fn c02(o: &Opts, rep: &mut Report) {
    let one = |c: &Case, a: &mut Arena, st: &mut Stats, ro: bool| -> R {
        let (src, dst) = prepare(c, a);
        let before: Vec<Vec<u8>> = dst.iter().map(|b| b.slice().to_vec()).collect();
        let sbefore: Vec<Vec<u8>> = src.iter().map(|b| b.slice().to_vec()).collect();
        use_set(c.set);
        let go = || {
            let s: Vec<&[u8]> = src.iter().map(|b| b.slice()).collect();
            let mut d: Vec<&mut [u8]> = dst.iter().map(|b| b.slice_mut()).collect();
            call(c.w, c.h, &c.src, c.ss.as_deref(), &s, &c.dst, c.ds.as_deref(), &mut d)
        };
        if ro {
            for i in 0..src.len() {
                a.region(i).protect(true);
            }
        }
        let res = go();
        if ro {
            for i in 0..src.len() {
                a.region(i).protect(false);
            }
        }
        note(st, c);
        if res != Ok(Res::Ok) {
            return bad(c, &format!("valid conversion returned {res:?}"));
        }
        let e = Exec { res, src, dst };
        damaged(c, &e)?;
        for (i, b) in e.src.iter().enumerate() {
            if b.slice() != &sbefore[i][..] {
                return bad(c, &format!("source buffer {i} was modified"));
            }
        }
        // mask of visible bytes
        let mut masks: Vec<Vec<bool>> = e.dst.iter().map(|b| vec![false; b.len]).collect();
        for p in layout(&c.dst, c.w, c.h, c.ds.as_deref()) {
            for y in 0..p.rows {
                let s = (p.off + y * p.stride) as usize;
                masks[p.buf][s..s + p.row as usize].fill(true);
            }
        }
        let mut first: Vec<Vec<u8>> = vec![];
        for (i, b) in e.dst.iter().enumerate() {
            let now = b.slice();
            for k in 0..b.len {
                if !masks[i][k] && now[k] != before[i][k] {
                    return bad(c, &format!(
                        "byte {k} of destination buffer {i} is not a visible sample but changed from {} to {}",
                        before[i][k], now[k]
                    ));
                }
            }
            st.count("padding_bytes_watched", masks[i].iter().filter(|m| !**m).count() as u64);
            first.push(now.to_vec());
        }
        // again over the complement of the first result: all visible bytes must be written
        for (b, f) in e.dst.iter().zip(&first) {
            for (x, y) in b.slice_mut().iter_mut().zip(f) {
                *x = !*y;
            }
        }
        let s: Vec<&[u8]> = e.src.iter().map(|b| b.slice()).collect();
        let mut d: Vec<&mut [u8]> = e.dst.iter().map(|b| b.slice_mut()).collect();
        let res2 = call(c.w, c.h, &c.src, c.ss.as_deref(), &s, &c.dst, c.ds.as_deref(), &mut d);
        if res2 != Ok(Res::Ok) {
            return bad(c, &format!("repeated conversion returned {res2:?}"));
        }
        for (i, b) in e.dst.iter().enumerate() {
            let now = b.slice();
            for k in 0..b.len {
                if masks[i][k] && now[k] != first[i][k] {
                    return bad(c, &format!("visible byte {k} of destination buffer {i} depends on prior content (first {}, then {})", first[i][k], now[k]));
                }
                if !masks[i][k] && now[k] != !first[i][k] {
                    return bad(c, &format!("non-visible byte {k} of destination buffer {i} changed"));
                }
            }
        }
        e.release();
        Ok(())
    };
    let cs = combos(o, false);
    let wmax = o.args.get("wmax").and_then(|x| x.parse().ok()).unwrap_or(160u64);
    par(o, rep, 1001, cs.len() as u64 * wmax, || arena(o), |idx, r, a, st| {
        let cb = &cs[(idx % cs.len() as u64) as usize];
        let w = (idx / cs.len() as u64) as u32 + 1;
        for (h, sp, dp) in [(1, 0, 0), (3, 0, 1), (2, 3, 2), (4, r.range(1, 70), r.range(3, 70))] {
            let at = Place::End(r.us(3));
            let c = tight(r, cb, w, h, sp, dp, at);
            one(&c, a, st, false)?;
        }
        Ok(())
    });
    let g = cfg(o);
    par(o, rep, 2, 120_000, || arena(o), |i, r, a, st| {
        let c = gen::valid(r, &g);
        one(&c, a, st, i % 4 == 0 && !o.heap)
    });
    // padding in write-protected pages: not even the value already there may be stored
    if o.heap {
        return;
    }
    par(o, rep, 3, 6_000, || (arena(o), [None, None, None]), |_, r, (a, regs): &mut (Arena, [Option<Region>; 3]), st| {
        let cb = &cs[r.us(cs.len())];
        let w = match r.below(3) {
            0 => r.range(1, 16),
            1 => r.range(1, 140),
            _ => r.range(1, 700),
        } as u32;
        let spad = r.us(20) * r.us(2);
        let at = Place::End(r.us(40));
        let h = r.range(1, 6) as u32;
        let mut c = tight(r, cb, w, h, spad, 0, at);
        let l0 = layout(&c.dst, c.w, c.h, None);
        // rows end (or start) where a page does
        let ends = r.chance(1, 2);
        let ds: Vec<usize> = (0..c.dst.planes as usize)
            .map(|i| (l0.iter().find(|p| p.buf == i).unwrap().row as usize).div_ceil(PAGE) * PAGE + PAGE * r.range(1, 2))
            .collect();
        let l = layout(&c.dst, c.w, c.h, Some(&ds));
        c.dlens = min_lens(&c.dst, c.w, c.h, Some(&ds)).iter().map(|x| *x as usize).collect();
        c.ds = Some(ds);
        let (src, none) = prepare(&Case { dlens: vec![], dplace: vec![], ..c.clone() }, a);
        assert!(none.is_empty());
        let starts: Vec<usize> = (0..c.dlens.len())
            .map(|i| {
                let row = l.iter().find(|p| p.buf == i).unwrap().row as usize;
                if ends { row.div_ceil(PAGE) * PAGE - row } else { 0 }
            })
            .collect();
        let mut protected = 0;
        for i in 0..c.dlens.len() {
            let need = c.dlens[i] + 2 * PAGE;
            if regs[i].as_ref().is_none_or(|x| x.cap() < need) {
                regs[i] = Some(Region::new(need + (1 << 18)));
            }
            let pages = (starts[i] + c.dlens[i]).div_ceil(PAGE);
            let mut open = vec![false; pages];
            for p in l.iter().filter(|p| p.buf == i && p.row > 0) {
                for y in 0..p.rows {
                    let at = starts[i] + (p.off + y * p.stride) as usize;
                    open[at / PAGE..=(at + p.row as usize - 1) / PAGE].fill(true);
                }
            }
            let g = regs[i].as_ref().unwrap();
            r.fill(unsafe { std::slice::from_raw_parts_mut(g.start(), pages * PAGE) });
            for (k, open) in open.iter().enumerate() {
                if !open {
                    g.protect_pages(k, 1, true);
                    protected += 1;
                }
            }
        }
        let dst: Vec<&'static mut [u8]> = (0..c.dlens.len())
            .map(|i| unsafe { std::slice::from_raw_parts_mut(regs[i].as_ref().unwrap().start().add(starts[i]), c.dlens[i]) })
            .collect();
        use_set(c.set);
        let res = {
            let s: Vec<&[u8]> = src.iter().map(|b| b.slice()).collect();
            let mut d = dst;
            call(c.w, c.h, &c.src, c.ss.as_deref(), &s, &c.dst, c.ds.as_deref(), &mut d)
        };
        for g in regs.iter().flatten() {
            g.protect(false);
        }
        note(st, &c);
        st.count("protected_padding_pages", if cfg!(target_arch = "wasm32") { 0 } else { protected });
        for b in src {
            b.release();
        }
        if res != Ok(Res::Ok) {
            return bad(&c, &format!("valid conversion returned {res:?}"));
        }
        Ok(())
    });
}

// ---------------------------------------------------------------- C03 validation
pub fn c03(o: &Opts, rep: &mut Report) {
    let one = |c: &Case, a: &mut Arena, st: &mut Stats| -> R {
        let (src, dst) = prepare(c, a);
        let before: Vec<Vec<u8>> = dst.iter().map(|b| b.slice().to_vec()).collect();
        use_set(c.set);
        let s: Vec<&[u8]> = src.iter().map(|b| b.slice()).collect();
        let mut d: Vec<&mut [u8]> = dst.iter().map(|b| b.slice_mut()).collect();
        let res = call(c.w, c.h, &c.src, c.ss.as_deref(), &s, &c.dst, c.ds.as_deref(), &mut d);
        drop(d);
        note(st, c);
        let want = c.predict();
        st.count(
            match want {
                None => "unspecified",
                Some(Res::Ok) => "expected_ok",
                Some(Res::InvalidValue) => "expected_invalid_value",
                Some(Res::InvalidOperation) => "expected_invalid_operation",
                Some(Res::NotEnoughData) => "expected_not_enough_data",
            },
            1,
        );
        match (&res, want) {
            (Err(m), _) => return bad(c, &format!("panic: {m}")),
            (Ok(r), Some(w)) if *r != w => return bad(c, &format!("returned {r:?}, expected {w:?}")),
            _ => {}
        }
        if res != Ok(Res::Ok) || c.w == 0 || c.h == 0 {
            for (i, b) in dst.iter().enumerate() {
                if b.slice() != &before[i][..] {
                    return bad(c, &format!("failed (or empty) call changed destination buffer {i}"));
                }
            }
        }
        for b in src.into_iter().chain(dst) {
            b.release();
        }
        Ok(())
    };
    // exhaustive: formats x color spaces x plane counts of both sides x parity of sizes
    let planes = [0u32, 1, 2, 3, 4, 5, u32::MAX];
    let side: Vec<Fmt> = PFS
        .iter()
        .flat_map(|p| CSS.iter().map(move |c| (*p, *c)))
        .flat_map(|(p, c)| planes.iter().map(move |n| Fmt::new(p, c, *n)))
        .collect();
    let ns = side.len() as u64;
    par(o, rep, 1001, ns * ns, || arena(o), |idx, r, a, st| {
        let (sf, df) = (side[(idx / ns) as usize], side[(idx % ns) as usize]);
        let i = (idx % 4) as u32;
        for (w, h) in [(4, 4), (3, 4), (4, 3), (5, 5), (0, 2), (6, 0)] {
            if !(w == 4 && h == 4) && r.chance(2, 3) && !(sf.pf_cs_match() && df.pf_cs_match()) {
                continue;
            }
            let n = |f: &Fmt| if f.planes > 5 { 3 } else { f.planes as usize };
            let lens = |f: &Fmt, miss: bool| vec![if miss { 3 } else { 100 }; n(f)];
            let miss = r.chance(1, 5);
            let slens = lens(&sf, miss);
            let dlens = lens(&df, false);
            let c = Case {
                set: *r.pick(&o.sets),
                w: w + (i & 0),
                h,
                src: sf,
                dst: df,
                ss: None,
                ds: None,
                splace: slens.iter().map(|_| Place::End(0)).collect(),
                dplace: dlens.iter().map(|_| Place::End(0)).collect(),
                slens,
                dlens,
                content: 0,
                cseed: r.u64(),
                fill: r.u64(),
            };
            one(&c, a, st)?;
        }
        Ok(())
    });
    // exhaustive: length boundary of each buffer and each array, for every conversion and set
    let cs = combos(o, false);
    let wmax = o.args.get("wmax").and_then(|x| x.parse().ok()).unwrap_or(100u64);
    par(o, rep, 1002, cs.len() as u64 * wmax, || arena(o), |idx, r, a, st| {
        let cb = &cs[(idx % cs.len() as u64) as usize];
        let w = (idx / cs.len() as u64) as u32 + 1;
        for (h, sp, dp) in [(1, 0, 0), (2, 0, 0), (4, 5, 3), (3, r.us(40), r.us(40))] {
            let c = tight(r, cb, w, h, sp, dp, Place::End(0));
            one(&c, a, st)?;
            for i in 0..c.slens.len() + c.dlens.len() {
                for cut in [1, 2, 1 + r.us(w as usize)] {
                    let mut c = c.clone();
                    let l = if i < c.slens.len() { &mut c.slens[i] } else { let j = i - c.slens.len(); &mut c.dlens[j] };
                    *l = l.saturating_sub(cut);
                    one(&c, a, st)?;
                }
            }
            for side in 0..2 {
                let mut m = c.clone();
                let v = if side == 0 { &mut m.slens } else { &mut m.dlens };
                v.pop();
                one(&m, a, st)?;
                let mut m = c.clone();
                let v = if side == 0 { &mut m.ss } else { &mut m.ds };
                let f = if side == 0 { m.src } else { m.dst };
                *v = Some(vec![0; f.planes as usize - 1]);
                one(&m, a, st)?;
            }
        }
        Ok(())
    });
    let g = cfg(o);
    par(o, rep, 3, 500_000, || arena(o), |_, r, a, st| one(&gen::hostile(r, &g), a, st));
    par(o, rep, 4, 60_000, || arena(o), |_, r, a, st| one(&gen::valid(r, &g), a, st));
}

// ---------------------------------------------------------------- C04 no panic
pub fn c04(o: &Opts, rep: &mut Report) {
    let one = |c: &Case, a: &mut Arena, st: &mut Stats| -> R {
        let e = execute(c, a);
        note(st, c);
        match &e.res {
            Err(m) => return bad(c, &format!("panic: {m}")),
            Ok(Res::Ok) => st.count("ok", 1),
            Ok(_) => st.count("clean_errors", 1),
        }
        e.release();
        Ok(())
    };
    let g = cfg(o);
    par(o, rep, 1, 900_000, || arena(o), |_, r, a, st| one(&gen::hostile(r, &g), a, st));
    par(o, rep, 2, 60_000, || arena(o), |_, r, a, st| one(&gen::valid(r, &g), a, st));
    let cs = combos(o, false);
    par(o, rep, 1003, cs.len() as u64 * 80, || arena(o), |idx, r, a, st| {
        let cb = &cs[(idx % cs.len() as u64) as usize];
        let w = (idx / cs.len() as u64) as u32 + 1;
        for h in 1..5 {
            let (sp, dp) = (r.us(3), r.us(3));
            one(&tight(r, cb, w, h, sp, dp, Place::End(0)), a, st)?;
        }
        Ok(())
    });
    par(o, rep, 4, 600_000, || (), |_, r, (), st| {
        let (f, w, h, s, n) = any_query(r);
        let mut out = [0usize; 6];
        st.evaluations += 1;
        st.count("size_queries", 1);
        match query(w, h, &f, s.as_deref(), &mut out[..n]) {
            Ok(_) => Ok(()),
            Err(m) => Err(format!("size query panic: {m} | {f:?} {w}x{h} strides {s:?} entries {n}")),
        }
    });
    #[cfg(not(target_arch = "wasm32"))]
    par(o, rep, 5, 2500, || arena(o), |_, r, a, st| {
        let cb = r.pick(&cs);
        let (w, h) = match r.below(6) {
            0 => (r.range(1, 9), r.range(20_000, 66_000)),
            1 => (r.range(1, 400), r.range(1, 400)),
            2 => (r.range(1, 70), r.range(1, 20)),
            3 => (r.range(400, 5000), r.range(1, 300)),
            4 => (r.range(5000, 200_000), r.range(1, 5)),
            _ => (r.range(60_000, 70_000), r.range(1, 9)),
        };
        let (sp, dp) = (r.us(3), r.us(3));
        let c = tight(r, cb, w as u32, h as u32, sp, dp, Place::End(0));
        let (src, dst) = prepare(&c, a);
        let slot = crate::fault::slot();
        let s: Vec<&[u8]> = src.iter().map(|b| b.slice()).collect();
        let mut d: Vec<&mut [u8]> = dst.iter().map(|b| b.slice_mut()).collect();
        let (res, used) = std::thread::scope(|sc| {
            let t = std::thread::Builder::new().stack_size(STACK).spawn_scoped(sc, || {
                crate::fault::adopt(slot);
                use_set(c.set);
                stack_used(|| call(c.w, c.h, &c.src, c.ss.as_deref(), &s, &c.dst, c.ds.as_deref(), &mut d))
            });
            t.unwrap().join().unwrap()
        });
        for b in src.into_iter().chain(dst) {
            b.release();
        }
        note(st, &c);
        st.count("on_small_stacks", 1);
        st.max("max_stack_bytes", used);
        match res {
            Ok(Res::Ok) => Ok(()),
            Ok(_) => bad(&c, "refused on a small stack"),
            Err(m) => bad(&c, &format!("panic on a small stack: {m}")),
        }
    });
}

/// What musl gives to threads
#[cfg(not(target_arch = "wasm32"))]
const STACK: usize = 128 * 1024;

/// How much of the stack below its own frame `f` writes to, up to the reach of the paint
#[cfg(not(target_arch = "wasm32"))]
#[inline(never)]
fn stack_used<T>(f: impl FnOnce() -> T) -> (T, u64) {
    const N: usize = 48 * 1024;
    #[inline(never)]
    fn paint() -> usize {
        let mut a = std::mem::MaybeUninit::<[u8; N]>::uninit();
        let p = a.as_mut_ptr().cast::<u8>();
        for i in 0..N {
            unsafe { p.add(i).write_volatile(0xC5) };
        }
        p as usize
    }
    let low = paint();
    let r = f();
    let p = low as *const u8;
    let left = (0..N).take_while(|i| unsafe { p.add(*i).read_volatile() } == 0xC5).count();
    (r, (N - left) as u64)
}

// ---------------------------------------------------------------- exhaustive color sweeps
/// Bijective scrambling of 24-bit color indices, so that colors land in different lanes per seed
fn scramble(i: u32, key: u64) -> u32 {
    let odd = (key as u32 | 1) & 0xFF_FFFF;
    let mut x = i.wrapping_mul(odd) & 0xFF_FFFF;
    x ^= x >> 11;
    x = x.wrapping_mul((key >> 24) as u32 | 1) & 0xFF_FFFF;
    x.wrapping_add((key >> 40) as u32) & 0xFF_FFFF
}

/// Every 24-bit color once over the 256 chunks: scrambled in full, or chunk by chunk with neighbouring (or
/// scrambled) values of two components, in any order of the components
fn sweep_color(chunk: usize, i: usize, key: u64) -> u32 {
    let i = i % CHUNK;
    if key >> 63 == 0 {
        return scramble((chunk * CHUNK + i) as u32, key);
    }
    let z = mix(key ^ chunk as u64);
    let i = match z % 4 {
        0 => (i as u32).wrapping_mul((z >> 8) as u32 | 1),
        1 => i as u32 ^ (z >> 8) as u32,
        2 => (i as u32).wrapping_add((z >> 8) as u32),
        _ => i as u32,
    } & 0xFFFF;
    let c = ((chunk as u32) << 16 | i).to_le_bytes();
    let [x, y, z] = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]][(key >> 56) as usize % 6];
    u32::from_le_bytes([c[x], c[y], c[z], 0])
}

pub struct Scratch {
    src: Vec<Vec<u8>>,
    dst: Vec<Vec<u8>>,
}
impl Scratch {
    fn new() -> Self {
        Scratch { src: vec![vec![]; 3], dst: vec![vec![]; 3] }
    }
}

/// Convert packed buffers
pub fn conv(w: usize, h: usize, sf: &Fmt, src: &[Vec<u8>], df: &Fmt, dst: &mut [Vec<u8>], st: &mut Stats) -> R {
    let need = min_lens(df, w as u32, h as u32, None);
    for (d, n) in dst.iter_mut().zip(&need) {
        d.resize(*n as usize, 0x5A);
    }
    let s: Vec<&[u8]> = src.iter().take(sf.planes as usize).map(|v| &v[..]).collect();
    let mut d: Vec<&mut [u8]> = dst.iter_mut().take(df.planes as usize).map(|v| &mut v[..]).collect();
    st.count("conversions", 1);
    match call(w as u32, h as u32, sf, None, &s, df, None, &mut d) {
        Ok(Res::Ok) => Ok(()),
        x => Err(format!("{sf:?} -> {df:?} {w}x{h} packed buffers returned {x:?}")),
    }
}

fn put_rgb(pf: Pf, buf: &mut [u8], i: usize, c: u32, alpha: u8) {
    let d = pf.depth();
    let (r, g, b, a) = pf.offsets();
    let p = &mut buf[i * d..i * d + d];
    p[r] = c as u8;
    p[g] = (c >> 8) as u8;
    p[b] = (c >> 16) as u8;
    if let Some(a) = a {
        p[a] = alpha;
    }
}

struct Sweep {
    w: usize,
    h: usize,
}
fn sweep_dims(r: &mut Rng, n: usize) -> Sweep {
    let mut w = r.range(33, 700);
    w += w & 1;
    let mut h = n.div_ceil(w);
    h += h & 1;
    Sweep { w, h }
}

pub const CHUNK: usize = 1 << 16;

// C05
pub fn c05(o: &Opts, rep: &mut Report) {
    let perms = o.args.get("perms").and_then(|x| x.parse().ok()).unwrap_or(2u64);
    let srcs = [Pf::Argb, Pf::Bgra, Pf::Bgr];
    let dsts = [Pf::I444, Pf::Nv12, Pf::I420];
    let sets = o.sets.clone();
    let n = 256 * 4 * 3 * sets.len() as u64 * perms;
    par(o, rep, 1001, n, Scratch::new, |idx, r, sc, st| {
        let chunk = (idx % 256) as usize;
        let k = idx / 256;
        let cs = YUV_CS[(k % 4) as usize];
        let spf = srcs[(k / 4 % 3) as usize];
        let set = sets[(k / 12 % sets.len() as u64) as usize];
        let perm = k / 12 / sets.len() as u64;
        // both orders on every set, layout and color space
        let key = mix(o.seed ^ (perm << 32) ^ k) >> 1 | (perm & 1) << 63;
        use_set(set);
        let f = model::fwd(cs);
        let Sweep { w, h } = sweep_dims(r, CHUNK);
        let col = |i: usize| sweep_color(chunk, i, key);
        let sf = Fmt::new(spf, Cs::Rgb, 1);
        sc.src[0].resize(w * h * spf.depth(), 0);
        for i in 0..w * h {
            put_rgb(spf, &mut sc.src[0], i, col(i), (i * 7) as u8);
        }
        // full check on 4:4:4; luma of one subsampled format in turn
        let others = [dsts[0], dsts[1 + (chunk + k as usize) % 2]];
        for dpf in others {
            let df = Fmt::new(dpf, cs, Fmt::default_planes(dpf));
            conv(w, h, &sf, &sc.src, &df, &mut sc.dst, st)?;
            let mut worst = [0i64; 3];
            let np = if dpf == Pf::I444 { 3 } else { 1 };
            for i in 0..w * h {
                let c = col(i);
                let (cr, cg, cb) = ((c & 255) as i64, (c >> 8 & 255) as i64, (c >> 16) as i64);
                for p in 0..np {
                    let e = model::err(sc.dst[p][i], model::dot(&f.m[p], cr, cg, cb));
                    if e > worst[p] {
                        worst[p] = e;
                        if e > model::TOL_FWD {
                            return Err(format!(
                                "{spf:?}->{dpf:?} {cs:?} set={:?} {w}x{h}: component {p} of rgb ({cr},{cg},{cb}) at pixel {i} is {}, exact {:.4}",
                                SETS[set], sc.dst[p][i], model::dot(&f.m[p], cr, cg, cb) as f64 / model::S as f64
                            ));
                        }
                    }
                }
            }
            for p in 0..np {
                st.max(["max_err_y_e6", "max_err_cb_e6", "max_err_cr_e6"][p], (worst[p] as f64 / model::S as f64 * 1e6) as u64);
            }
            st.evaluations += (w * h) as u64;
            st.count(if np == 3 { "colors_checked_444" } else { "colors_checked_luma" }, CHUNK as u64);
        }
        st.distinct.insert(mix(k << 8 | chunk as u64));
        if chunk == 3 && st.samples.len() < 2 {
            st.samples.push(format!("{spf:?}->I444 {cs:?} set={:?} chunk {chunk} ({w}x{h}) first color {:#08x}", SETS[set], col(0)));
        }
        Ok(())
    });
    // random layouts
    let g = cfg(o);
    par(o, rep, 2, 60_000, || arena(o), |_, r, a, st| {
        let s = *r.pick(&srcs);
        let d = *r.pick(&dsts);
        let (sf, df) = gen::fmts(r, s, d);
        let c = gen::valid_for(r, &g, sf, df);
        content_case(&c, a, st)
    });
}

/// Execute and compare every visible sample with the exact formulas
pub fn content_case(c: &Case, a: &mut Arena, st: &mut Stats) -> R {
    let e = execute(c, a);
    note(st, c);
    if e.res != Ok(Res::Ok) {
        return bad(c, &format!("valid conversion returned {:?}", e.res));
    }
    let si = Img::new(c.src, c.w, c.h, c.ss.as_deref(), e.src_slices());
    let di = Img::new(c.dst, c.w, c.h, c.ds.as_deref(), e.dst_slices());
    if let Err(m) = model::verify(&si, &di, c.w as usize, c.h as usize) {
        return bad(c, &m);
    }
    drop((si, di));
    e.release();
    Ok(())
}

// C06
pub fn c06(o: &Opts, rep: &mut Report) {
    let perms = o.args.get("perms").and_then(|x| x.parse().ok()).unwrap_or(2u64);
    let kinds = [(Pf::I444, Pf::Bgra), (Pf::I444, Pf::Rgba), (Pf::I420, Pf::Bgra), (Pf::I420, Pf::Rgba), (Pf::Nv12, Pf::Bgra), (Pf::Nv12, Pf::Rgba), (Pf::Nv12, Pf::Rgb)];
    let sets = o.sets.clone();
    let nk = kinds.len() as u64;
    let n = 256 * 4 * nk * sets.len() as u64 * perms;
    par(o, rep, 1001, n, Scratch::new, |idx, r, sc, st| {
        let chunk = (idx % 256) as usize;
        let k = idx / 256;
        let cs = YUV_CS[(k % 4) as usize];
        let (spf, dpf) = kinds[(k / 4 % nk) as usize];
        let set = sets[(k / 4 / nk % sets.len() as u64) as usize];
        let perm = k / 4 / nk / sets.len() as u64;
        let key = mix(o.seed ^ (perm << 32) ^ k.wrapping_mul(977)) >> 1 | (perm & 1) << 63;
        use_set(set);
        let m = model::bwd(cs);
        let sf = Fmt::new(spf, cs, Fmt::default_planes(spf));
        let df = Fmt::new(dpf, Cs::Rgb, 1);
        let Sweep { w, h } = sweep_dims(r, CHUNK);
        let sub = spf != Pf::I444;
        let (cw, ch) = if sub { (w / 2, h / 2) } else { (w, h) };
        // per pixel (y,u,v); for subsampled sources each chroma pair meets all 256 lumas over 64 blocks
        for v in &mut sc.src {
            v.clear();
        }
        sc.src[0].resize(w * h, 0);
        match spf {
            Pf::Nv12 => sc.src[1].resize(cw * ch * 2, 0),
            _ => {
                sc.src[1].resize(cw * ch, 0);
                sc.src[2].resize(cw * ch, 0);
            }
        }
        for j in 0..cw * ch {
            let (u, v) = if sub {
                let b = (chunk * (CHUNK / 4) + j % (CHUNK / 4)) as u32;
                let b = if key >> 63 == 0 { scramble(b, key) } else { b ^ key as u32 } & 0x3F_FFFF;
                // 22-bit block index: 8 bits u, 8 bits v, 6 bits luma group
                let (bx, by) = (j % cw, j / cw);
                let grp = (b >> 16) as u8;
                for (q, (dx, dy)) in [(0, 0), (1, 0), (0, 1), (1, 1)].into_iter().enumerate() {
                    sc.src[0][(2 * by + dy) * w + 2 * bx + dx] = grp.wrapping_mul(4).wrapping_add(((q as u64 + key) & 3) as u8);
                }
                (b as u8, (b >> 8) as u8)
            } else {
                let c = sweep_color(chunk, j, key);
                sc.src[0][j] = c as u8;
                ((c >> 8) as u8, (c >> 16) as u8)
            };
            if spf == Pf::Nv12 {
                sc.src[1][2 * j] = u;
                sc.src[1][2 * j + 1] = v;
            } else {
                sc.src[1][j] = u;
                sc.src[2][j] = v;
            }
        }
        conv(w, h, &sf, &sc.src, &df, &mut sc.dst, st)?;
        let d = dpf.depth();
        let (ro, go, bo, ao) = dpf.offsets();
        let offs = [ro, go, bo];
        let mut worst = 0i64;
        for y in 0..h {
            for x in 0..w {
                let l = i64::from(sc.src[0][y * w + x]);
                let j = if sub { (y / 2) * cw + x / 2 } else { y * w + x };
                let (u, v) = if spf == Pf::Nv12 { (sc.src[1][2 * j], sc.src[1][2 * j + 1]) } else { (sc.src[1][j], sc.src[2][j]) };
                let p = &sc.dst[0][(y * w + x) * d..][..d];
                for q in 0..3 {
                    let e = model::err(p[offs[q]], model::dot(&m.m[q], l, i64::from(u), i64::from(v)));
                    if e > worst {
                        worst = e;
                        if e > model::TOL_BWD {
                            return Err(format!(
                                "{spf:?}->{dpf:?} {cs:?} set={:?} {w}x{h}: {} of yuv ({l},{u},{v}) at ({x},{y}) is {}, exact {:.4}",
                                SETS[set], ["r", "g", "b"][q], p[offs[q]],
                                model::dot(&m.m[q], l, i64::from(u), i64::from(v)) as f64 / model::S as f64
                            ));
                        }
                    }
                }
                if let Some(a) = ao {
                    if p[a] != 255 {
                        return Err(format!("alpha {} at ({x},{y}) of {dpf:?} {w}x{h} set={:?}", p[a], SETS[set]));
                    }
                }
            }
        }
        st.max("max_err_e6", (worst as f64 / model::S as f64 * 1e6) as u64);
        st.evaluations += (w * h) as u64;
        st.distinct.insert(mix(k << 8 | chunk as u64));
        st.count(if sub { "triples_420" } else { "triples_444" }, CHUNK as u64);
        if chunk == 5 && st.samples.len() < 2 {
            st.samples.push(format!("{spf:?}->{dpf:?} {cs:?} set={:?} {w}x{h} chunk {chunk}", SETS[set]));
        }
        Ok(())
    });
    let g = cfg(o);
    par(o, rep, 2, 60_000, || arena(o), |_, r, a, st| {
        let (s, d) = *r.pick(&kinds);
        let (sf, df) = gen::fmts(r, s, d);
        let c = gen::valid_for(r, &g, sf, df);
        content_case(&c, a, st)
    });
}

// ---------------------------------------------------------------- C07 alpha
pub fn c07(o: &Opts, rep: &mut Report) {
    let to_alpha: Vec<(Pf, Pf)> = pairs().into_iter().filter(|(_, d)| matches!(d, Pf::Bgra | Pf::Rgba)).collect();
    let from_alpha: Vec<(Pf, Pf)> = pairs().into_iter().filter(|(s, _)| matches!(s, Pf::Bgra | Pf::Argb)).collect();
    let opaque = |c: &Case, a: &mut Arena, st: &mut Stats| -> R {
        let e = execute(c, a);
        note(st, c);
        if e.res != Ok(Res::Ok) {
            return bad(c, &format!("valid conversion returned {:?}", e.res));
        }
        let di = Img::new(c.dst, c.w, c.h, c.ds.as_deref(), e.dst_slices());
        for y in 0..c.h as usize {
            for x in 0..c.w as usize {
                if let Err(m) = model::check_alpha(&di, x, y) {
                    return bad(c, &m);
                }
            }
        }
        st.count("alpha_bytes_checked", u64::from(c.w) * u64::from(c.h));
        drop(di);
        e.release();
        Ok(())
    };
    let ignored = |c: &Case, a: &mut Arena, st: &mut Stats, r: &mut Rng| -> R {
        let e = execute(c, a);
        note(st, c);
        if e.res != Ok(Res::Ok) {
            return bad(c, &format!("valid conversion returned {:?}", e.res));
        }
        let first: Vec<Vec<u8>> = e.dst.iter().map(|b| b.slice().to_vec()).collect();
        let ao = c.src.pf.offsets().3.unwrap();
        let p = layout(&c.src, c.w, c.h, c.ss.as_deref())[0];
        for mode in 0..3 {
            for y in 0..c.h as usize {
                for x in 0..c.w as usize {
                    let b = &mut e.src[0].slice_mut()[p.stride as usize * y + 4 * x + ao];
                    *b = match mode {
                        0 => !*b,
                        1 => r.u64() as u8,
                        _ => 255 * ((x + y) & 1) as u8,
                    };
                }
            }
            fill_dst(c, &e.dst);
            let s: Vec<&[u8]> = e.src.iter().map(|b| b.slice()).collect();
            let mut d: Vec<&mut [u8]> = e.dst.iter().map(|b| b.slice_mut()).collect();
            let res = call(c.w, c.h, &c.src, c.ss.as_deref(), &s, &c.dst, c.ds.as_deref(), &mut d);
            if res != Ok(Res::Ok) {
                return bad(c, &format!("conversion with other alpha returned {res:?}"));
            }
            for (i, b) in e.dst.iter().enumerate() {
                if let Some(k) = (0..b.len).find(|k| b.slice()[*k] != first[i][*k]) {
                    return bad(c, &format!("source alpha changed byte {k} of destination buffer {i}: {} -> {}", first[i][k], b.slice()[k]));
                }
            }
            st.count("alpha_variations", 1);
        }
        e.release();
        Ok(())
    };
    let cs = combos(o, false);
    par(o, rep, 1001, cs.len() as u64 * 200, || arena(o), |idx, r, a, st| {
        let cb = &cs[(idx % cs.len() as u64) as usize];
        let w = (idx / cs.len() as u64) as u32 + 1;
        for h in [1, 2, 3] {
            let (sp, dp) = (r.us(3) * r.us(9), r.us(3) * r.us(9));
            let c = tight(r, cb, w, h, sp, dp, Place::End(0));
            if matches!(c.dst.pf, Pf::Bgra | Pf::Rgba) {
                opaque(&c, a, st)?;
            }
            if matches!(c.src.pf, Pf::Bgra | Pf::Argb) {
                ignored(&c, a, st, r)?;
            }
        }
        Ok(())
    });
    let g = cfg(o);
    par(o, rep, 2, 60_000, || arena(o), |_, r, a, st| {
        let (s, d) = *r.pick(&to_alpha);
        let (sf, df) = gen::fmts(r, s, d);
        opaque(&gen::valid_for(r, &g, sf, df), a, st)
    });
    par(o, rep, 3, 60_000, || arena(o), |_, r, a, st| {
        let (s, d) = *r.pick(&from_alpha);
        let (sf, df) = gen::fmts(r, s, d);
        let c = gen::valid_for(r, &g, sf, df);
        ignored(&c, a, st, r)
    });
}

// ---------------------------------------------------------------- C08 instruction sets agree
pub fn c08(o: &Opts, rep: &mut Report) {
    let sets = o.sets.clone();
    let one = |c: &Case, a: &mut Arena, st: &mut Stats, valid: bool| -> R {
        let mut c = c.clone();
        let (src, dst) = prepare(&c, a);
        let mut first: Option<(Result<Res, String>, Vec<Vec<u8>>)> = None;
        for &set in &sets {
            c.set = set;
            use_set(set);
            fill_dst(&c, &dst);
            let s: Vec<&[u8]> = src.iter().map(|b| b.slice()).collect();
            let mut d: Vec<&mut [u8]> = dst.iter().map(|b| b.slice_mut()).collect();
            let res = call(c.w, c.h, &c.src, c.ss.as_deref(), &s, &c.dst, c.ds.as_deref(), &mut d);
            drop(d);
            note(st, &c);
            if valid && res != Ok(Res::Ok) {
                return bad(&c, &format!("valid conversion returned {res:?}"));
            }
            let out: Vec<Vec<u8>> = dst.iter().map(|b| b.slice().to_vec()).collect();
            match &first {
                None => first = Some((res, out)),
                Some((r0, o0)) => {
                    if *r0 != res {
                        return bad(&c, &format!("returned {res:?} but set {:?} returned {r0:?}", SETS[sets[0]]));
                    }
                    for i in 0..out.len() {
                        if let Some(k) = (0..out[i].len()).find(|k| out[i][*k] != o0[i][*k]) {
                            return bad(&c, &format!(
                                "byte {k} of destination buffer {i} is {} but {} with set {:?}",
                                out[i][k], o0[i][k], SETS[sets[0]]
                            ));
                        }
                    }
                    st.count("pairs_compared", 1);
                }
            }
        }
        for b in src.into_iter().chain(dst) {
            b.release();
        }
        Ok(())
    };
    let g = cfg(o);
    let o1 = Opts { sets: vec![0], args: o.args.clone(), start: o.start, ..*o };
    let cs = combos(&o1, true);
    let wmax = o.args.get("wmax").and_then(|x| x.parse().ok()).unwrap_or(140u64);
    par(o, rep, 1001, cs.len() as u64 * wmax, || arena(o), |idx, r, a, st| {
        let cb = &cs[(idx % cs.len() as u64) as usize];
        let w = (idx / cs.len() as u64) as u32 + 1;
        for h in [2, 4] {
            let (sp, dp) = (r.us(3) * r.us(9), r.us(3) * r.us(9));
            one(&tight(r, cb, w, h, sp, dp, Place::End(0)), a, st, true)?;
        }
        Ok(())
    });
    par(o, rep, 2, 60_000, || arena(o), |_, r, a, st| one(&gen::valid(r, &g), a, st, true));
    par(o, rep, 3, 100_000, || arena(o), |_, r, a, st| {
        let c = gen::hostile(r, &g);
        // rows that overlap in the destination have no defined final content
        if c.predict().is_none() {
            return Ok(());
        }
        one(&c, a, st, false)
    });
    // all colors, both directions, all color spaces: outputs of the sets compared directly
    let others: Vec<usize> = sets.iter().copied().filter(|s| *s != 1).collect();
    let kinds = [(Pf::Argb, Pf::I444), (Pf::Bgra, Pf::I444), (Pf::Bgr, Pf::I444), (Pf::Bgra, Pf::Nv12), (Pf::I444, Pf::Bgra), (Pf::Nv12, Pf::Bgra), (Pf::Nv12, Pf::Rgb), (Pf::I420, Pf::Rgba)];
    let nk = kinds.len() as u64;
    par(o, rep, 1004, 2 * 256 * 4 * nk, || (Scratch::new(), Scratch::new()), |idx, r, (sc, ref_), st| {
        let chunk = (idx % 256) as usize;
        let k = idx / 256;
        let cs = YUV_CS[(k % 4) as usize];
        let (spf, dpf) = kinds[(k / 4 % nk) as usize];
        let key = mix(o.seed ^ k.wrapping_mul(0xABCD)) >> 1 | (k / 4 / nk) << 63;
        let sf = Fmt::new(spf, if spf.is_rgb() { Cs::Rgb } else { cs }, Fmt::default_planes(spf));
        let df = Fmt::new(dpf, if dpf.is_rgb() { Cs::Rgb } else { cs }, Fmt::default_planes(dpf));
        let Sweep { w, h } = sweep_dims(r, CHUNK);
        let l = min_lens(&sf, w as u32, h as u32, None);
        for (b, n) in sc.src.iter_mut().zip(&l) {
            b.resize(*n as usize, 0);
        }
        for i in 0..w * h {
            let c = sweep_color(chunk, i, key);
            match spf {
                Pf::I444 => {
                    sc.src[0][i] = c as u8;
                    sc.src[1][i] = (c >> 8) as u8;
                    sc.src[2][i] = (c >> 16) as u8;
                }
                Pf::Nv12 => {
                    sc.src[0][i] = c as u8;
                    if i < w * h / 2 {
                        sc.src[1][i] = (c >> 8) as u8;
                    }
                }
                Pf::I420 => {
                    sc.src[0][i] = c as u8;
                    if i < w * h / 4 {
                        sc.src[1][i] = (c >> 8) as u8;
                        sc.src[2][i] = (c >> 16) as u8;
                    }
                }
                _ => put_rgb(spf, &mut sc.src[0], i, c, i as u8),
            }
        }
        use_set(1);
        conv(w, h, &sf, &sc.src, &df, &mut ref_.dst, st)?;
        for &set in &others {
            use_set(set);
            conv(w, h, &sf, &sc.src, &df, &mut sc.dst, st)?;
            for p in 0..df.planes as usize {
                if sc.dst[p] != ref_.dst[p] {
                    let i = (0..sc.dst[p].len()).find(|i| sc.dst[p][*i] != ref_.dst[p][*i]).unwrap();
                    return Err(format!(
                        "{spf:?}->{dpf:?} {cs:?} {w}x{h}: byte {i} of plane {p} is {} with set {:?}, {} with x86 (chunk {chunk})",
                        sc.dst[p][i], SETS[set], ref_.dst[p][i]
                    ));
                }
            }
            st.count("colors_compared", CHUNK as u64);
            st.evaluations += 1;
        }
        st.distinct.insert(mix(k << 8 | chunk as u64));
        Ok(())
    });
}

/// C22: one line for each call, to be compared with those of other builds of the same workload
pub fn c22(o: &Opts, rep: &mut Report) {
    let print = |line: &str| {
        #[cfg(target_arch = "wasm32")]
        crate::host::print(line);
        #[cfg(not(target_arch = "wasm32"))]
        println!("{line}");
    };
    let emit = |phase: u64, idx: u64, text: &str, d: [u64; 2]| {
        let key = text.bytes().fold(0, |k, b| mix(k ^ u64::from(b)));
        print(&format!("=c22 {phase} {idx} {key:016x} {:016x} {:016x}", d[0], d[1]));
        if o.only.is_some() {
            print(&format!("=case {text}"));
        }
    };
    let one = |phase: u64, idx: u64, c: &Case, a: &mut Arena, st: &mut Stats| -> R {
        let mut c = c.clone();
        c.set = 0;
        let text = c.describe();
        let (src, dst) = prepare(&c, a);
        let mut digests = [0u64; 2];
        for set in [0, 1] {
            use_set(set);
            fill_dst(&c, &dst);
            let s: Vec<&[u8]> = src.iter().map(|b| b.slice()).collect();
            let mut d: Vec<&mut [u8]> = dst.iter().map(|b| b.slice_mut()).collect();
            let res = call(c.w, c.h, &c.src, c.ss.as_deref(), &s, &c.dst, c.ds.as_deref(), &mut d);
            let mut h = match &res {
                Err(m) => return bad(&c, &format!("panic: {m}")),
                Ok(Res::Ok) => 1,
                Ok(Res::InvalidValue) => 2,
                Ok(Res::InvalidOperation) => 3,
                Ok(Res::NotEnoughData) => 4,
            };
            st.count(["", "ok", "invalid_value", "invalid_operation", "not_enough_data"][h as usize], 1);
            for p in &d {
                h = mix(h ^ p.len() as u64);
                let mut it = p.chunks_exact(8);
                for q in &mut it {
                    h = (h ^ u64::from_le_bytes(q.try_into().unwrap())).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(29);
                }
                for q in it.remainder() {
                    h = mix(h ^ u64::from(*q));
                }
            }
            digests[set] = mix(h);
        }
        note(st, &c);
        for b in src.into_iter().chain(dst) {
            b.release();
        }
        emit(phase, idx, &text, digests);
        Ok(())
    };
    // not those of this build
    let g = GenCfg { sets: vec![0], max_px: 40_000 };
    par(o, rep, 1, 30_000, || arena(o), |i, r, a, st| one(1, i, &gen::valid(r, &g), a, st));
    par(o, rep, 2, 30_000, || arena(o), |i, r, a, st| {
        let c = gen::hostile(r, &g);
        if c.predict().is_none() {
            return Ok(());
        }
        one(2, i, &c, a, st)
    });
    par(o, rep, 4, 50_000, || (), |i, r, (), st| {
        let (f, w, h, s, n) = any_query(r);
        // not the same on machines of 32 bits
        let bits = if w.max(h) >= 1 << 14 || s.iter().flatten().any(|s| *s >= 1 << 16) { usize::BITS } else { 0 };
        let mut out = [0usize; 6];
        let text = format!("size of {f:?} {w}x{h} strides {s:?} entries {n} {bits}");
        let d = match query(w, h, &f, s.as_deref(), &mut out[..n]) {
            Ok(x) => out.iter().fold(x as u64, |d, x| mix(d ^ *x as u64)),
            Err(m) => return Err(format!("panic: {m} | {text}")),
        };
        st.evaluations += 1;
        st.count("size_queries", 1);
        emit(4, i, &text, [d; 2]);
        Ok(())
    });
    let o1 = Opts { sets: vec![0], args: o.args.clone(), start: o.start, ..*o };
    let cs = combos(&o1, true);
    par(o, rep, 3, cs.len() as u64 * 3, || arena(o), |i, r, a, st| {
        let (w, h) = (254 + r.us(4) as u32, 254 + r.us(4) as u32);
        let mut c = tight(r, &cs[i as usize % cs.len()], w, h, 0, 0, Place::End(0));
        c.content = 0;
        one(3, i, &c, a, st)
    });
}

// ---------------------------------------------------------------- C09 layout independence
pub fn c09(o: &Opts, rep: &mut Report) {
    let g = cfg(o);
    // same picture under two layouts
    par(o, rep, 1, 90_000, || (arena(o), arena(o)), |_, r, (a, b), st| {
        let ps = pairs();
        let (s, d) = *r.pick(&ps);
        let (sf, df) = gen::fmts(r, s, d);
        let c = gen::valid_for(r, &g, sf, df);
        let e = execute(&c, a);
        note(st, &c);
        if e.res != Ok(Res::Ok) {
            return bad(&c, &format!("valid conversion returned {:?}", e.res));
        }
        let vis_s = visible(&c.src, c.w, c.h, c.ss.as_deref(), &e.src_slices());
        let vis_d = visible(&c.dst, c.w, c.h, c.ds.as_deref(), &e.dst_slices());
        // second layout: other strides, plane arrangement, placement; same set
        let sf2 = Fmt::new(s, sf.cs, gen::planes_of(r, s));
        let df2 = Fmt::new(d, df.cs, gen::planes_of(r, d));
        let mut c2 = gen::valid_sized(r, &g, sf2, df2, c.w, c.h);
        c2.set = c.set;
        let (src, dst) = prepare(&c2, b);
        let mut k = 0;
        for p in layout(&c2.src, c2.w, c2.h, c2.ss.as_deref()) {
            for y in 0..p.rows {
                let off = (p.off + y * p.stride) as usize;
                let n = p.row as usize;
                src[p.buf].slice_mut()[off..off + n].copy_from_slice(&vis_s[k..k + n]);
                k += n;
            }
        }
        let res = {
            let s: Vec<&[u8]> = src.iter().map(|b| b.slice()).collect();
            let mut d: Vec<&mut [u8]> = dst.iter().map(|b| b.slice_mut()).collect();
            call(c2.w, c2.h, &c2.src, c2.ss.as_deref(), &s, &c2.dst, c2.ds.as_deref(), &mut d)
        };
        if res != Ok(Res::Ok) {
            return bad(&c2, &format!("valid conversion returned {res:?}"));
        }
        let e2 = Exec { res, src, dst };
        let vis2 = visible(&c2.dst, c2.w, c2.h, c2.ds.as_deref(), &e2.dst_slices());
        if let Some(i) = (0..vis2.len()).find(|i| vis2[*i] != vis_d[*i]) {
            return bad(&c2, &format!("visible sample {i} is {} but {} under the layout {}", vis2[i], vis_d[i], c.describe()));
        }
        st.count("layout_pairs", 1);
        // crop of the first image, in place
        let al = if c.src.pf.is_420() || c.dst.pf.is_420() { 2 } else { 1 };
        let (w, h) = (c.w as usize, c.h as usize);
        for _ in 0..2 {
            let x0 = r.us(w / al) * al;
            let y0 = r.us(h / al) * al;
            let cw = (r.us((w - x0) / al) + 1) * al;
            let chh = (r.us((h - y0) / al) + 1) * al;
            crop(&c, &e, x0, y0, cw, chh, &vis_d, b, r, st)?;
        }
        e.release();
        Ok(())
    });
    // tall-and-wide sweep: pixels converted alone
    par(o, rep, 2, 25_000, || (arena(o), arena(o)), |_, r, (a, b), st| {
        let ps = pairs();
        let (s, d) = *r.pick(&ps);
        let (sf, df) = gen::fmts(r, s, d);
        let c = gen::valid_for(r, &g, sf, df);
        let e = execute(&c, a);
        note(st, &c);
        if e.res != Ok(Res::Ok) {
            return bad(&c, &format!("valid conversion returned {:?}", e.res));
        }
        let vis_d = visible(&c.dst, c.w, c.h, c.ds.as_deref(), &e.dst_slices());
        let al = if s.is_420() || d.is_420() { 2 } else { 1 };
        let (w, h) = (c.w as usize / al, c.h as usize / al);
        let n = if w * h <= 200 { w * h } else { 60 };
        for i in 0..n {
            let j = if n == w * h { i } else { r.us(w * h) };
            crop(&c, &e, (j % w) * al, (j / w) * al, al, al, &vis_d, b, r, st)?;
        }
        st.count("single_blocks", n as u64);
        e.release();
        Ok(())
    });
    // pictures of 8K screens, or larger: pieces of them converted alone
    #[cfg(target_pointer_width = "64")]
    let cs = combos(o, true);
    #[cfg(target_pointer_width = "64")]
    par(o, rep, 4, (cs.len() as u64 / 12).max(1), || (arena(o), arena(o)), |_, r, (a, b), st| {
        let (w, h) = match r.below(4) {
            0 => (r.range(4097, 9000), r.range(2200, 5000)),
            1 => (r.range(30_000, 60_000), r.range(300, 800)),
            _ => (7680, 4320),
        };
        let mut c = tight(r, r.clone().pick(&cs), w as u32, h as u32, 0, 0, Place::End(0));
        c.content = *r.pick(&[0, 3, 12]);
        let e = execute(&c, a);
        note(st, &c);
        if e.res != Ok(Res::Ok) {
            return bad(&c, &format!("valid conversion returned {:?}", e.res));
        }
        let vis_d = visible(&c.dst, c.w, c.h, c.ds.as_deref(), &e.dst_slices());
        let al = if c.src.pf.is_420() || c.dst.pf.is_420() { 2 } else { 1 };
        let (w, h) = (c.w as usize / al, c.h as usize / al);
        for i in 0..400 {
            let (cw, ch) = (r.range(1, 300).min(w), r.range(1, 40).min(h));
            let (x, y) = match i % 4 {
                0 => (w - cw, h - ch),
                1 => (r.us(w - cw + 1), h - ch),
                2 => (w - cw, r.us(h - ch + 1)),
                _ => (r.us(w - cw + 1), r.us(h - ch + 1)),
            };
            crop(&c, &e, x * al, y * al, cw * al, ch * al, &vis_d, b, r, st)?;
        }
        st.count("pictures_of_8k", 1);
        e.release();
        Ok(())
    });
    // planes carved out of one piece of memory: in any order, adjacent or nearly so, sources
    // possibly sharing bytes with each other
    if o.heap {
        return;
    }
    par(o, rep, 3, 60_000, || (arena(o), arena(o)), |_, r, (a, b), st| {
        let c = if r.chance(1, 3) {
            // mostly formats of several planes
            let (s, d) = *r.pick(&[(Pf::I444, Pf::Bgra), (Pf::I420, Pf::Rgba), (Pf::I420, Pf::Bgra), (Pf::Nv12, Pf::Rgb), (Pf::Bgr, Pf::I420),
                (Pf::Argb, Pf::I444), (Pf::Bgra, Pf::I420), (Pf::Bgr, Pf::Nv12), (Pf::Bgra, Pf::I444), (Pf::Argb, Pf::Nv12), (Pf::I444, Pf::Rgba)]);
            let (sf, df) = gen::fmts(r, s, d);
            gen::valid_for(r, &g, sf, df)
        } else {
            gen::valid(r, &g)
        };
        let (ns, nd) = (c.slens.len(), c.dlens.len());
        let lens: Vec<usize> = c.slens.iter().chain(&c.dlens).copied().collect();
        // which pieces, in which order; a source piece may lie over another
        let mut order: Vec<usize> = (0..ns + nd).collect();
        if !r.chance(1, 4) {
            for i in (1..order.len()).rev() {
                order.swap(i, r.us(i + 1));
            }
        }
        let gap = *r.pick(&[0usize, 0, 0, 1, 3, 40]);
        let mut offs = vec![0; ns + nd];
        let mut end = 0;
        let mut over = 0;
        for &i in &order {
            let placed: Vec<usize> = order.iter().take_while(|j| **j != i).copied().filter(|j| *j < ns).collect();
            if i < ns && !placed.is_empty() && r.chance(1, 4) {
                // the same bytes (or some of them) as another source buffer, if it is long enough
                let j = *r.pick(&placed);
                if lens[j] >= lens[i] {
                    offs[i] = offs[j] + if r.chance(1, 2) { 0 } else { r.us(lens[j] - lens[i] + 1) };
                    over += 1;
                    continue;
                }
            }
            offs[i] = end + if gap == 0 { 0 } else { r.us(gap + 1) };
            end = offs[i] + lens[i];
        }
        let place = gen::place(r);
        a.reset();
        let whole = a.take(end, place);
        let mut rr = Rng::new(c.cseed);
        fill_content(whole.slice_mut(), c.content, c.w as usize, &mut rr);
        let piece = |i: usize| unsafe { std::slice::from_raw_parts(whole.ptr.add(offs[i]), lens[i]) };
        // the same call in separate memory
        let (src, dst) = prepare(&c, b);
        for i in 0..ns {
            src[i].slice_mut().copy_from_slice(piece(i));
        }
        let before = whole.slice().to_vec();
        for i in 0..nd {
            dst[i].slice_mut().copy_from_slice(piece(ns + i));
        }
        use_set(c.set);
        let res0 = {
            let s: Vec<&[u8]> = src.iter().map(|b| b.slice()).collect();
            let mut d: Vec<&mut [u8]> = dst.iter().map(|b| b.slice_mut()).collect();
            call(c.w, c.h, &c.src, c.ss.as_deref(), &s, &c.dst, c.ds.as_deref(), &mut d)
        };
        let res = {
            let s: Vec<&[u8]> = (0..ns).map(piece).collect();
            let mut d: Vec<&mut [u8]> =
                (0..nd).map(|i| unsafe { std::slice::from_raw_parts_mut(whole.ptr.add(offs[ns + i]), lens[ns + i]) }).collect();
            call(c.w, c.h, &c.src, c.ss.as_deref(), &s, &c.dst, c.ds.as_deref(), &mut d)
        };
        note(st, &c);
        if res0 != Ok(Res::Ok) || res != Ok(Res::Ok) {
            return bad(&c, &format!("valid conversion returned {res0:?}, and {res:?} with all planes in one piece of memory at {offs:?}"));
        }
        let mut want = before;
        for i in 0..nd {
            want[offs[ns + i]..][..lens[ns + i]].copy_from_slice(dst[i].slice());
        }
        if let Some(k) = (0..end).find(|k| whole.slice()[*k] != want[*k]) {
            return bad(&c, &format!(
                "with planes at offsets {offs:?} of one piece of memory (lengths {lens:?}) byte {k} is {}, {} with planes apart", whole.slice()[k], want[k]
            ));
        }
        if let Some(k) = whole.damaged() {
            return bad(&c, &format!("byte at offset {k} of the piece of memory holding all planes was written"));
        }
        st.count("joined_layouts", 1);
        st.count("sources_sharing_bytes", over);
        for x in src.into_iter().chain(dst) {
            x.release();
        }
        whole.release();
        Ok(())
    });
}

/// Convert a rectangle of the case's source in place and compare with the whole image's result
#[allow(clippy::too_many_arguments)]
fn crop(c: &Case, e: &Exec, x0: usize, y0: usize, cw: usize, ch: usize, whole: &[u8], b: &mut Arena, r: &mut Rng, st: &mut Stats) -> R {
    // two-buffer (or planar) source view of the rectangle
    let lay = layout(&c.src, c.w, c.h, c.ss.as_deref());
    let sub = |pf: Pf, plane: usize| -> (usize, usize, usize) {
        // (bytes per x unit numerator, x divisor, y divisor)
        match pf {
            Pf::I420 if plane > 0 => (1, 2, 2),
            Pf::Nv12 if plane > 0 => (1, 1, 2),
            Pf::I420 | Pf::I444 | Pf::Nv12 => (1, 1, 1),
            _ => (pf.depth(), 1, 1),
        }
    };
    let mut sl: Vec<&[u8]> = vec![];
    let mut strides = vec![];
    for (i, p) in lay.iter().enumerate() {
        let (m, dx, dy) = sub(c.src.pf, i);
        let off = p.off as usize + p.stride as usize * (y0 / dy) + x0 * m / dx;
        let rows = ch / dy;
        let row = cw * m / dx;
        let end = off + p.stride as usize * (rows - 1) + row;
        sl.push(&e.src[p.buf].slice()[off..end]);
        strides.push(p.stride as usize);
    }
    let mut sf = c.src;
    if sf.pf == Pf::Nv12 {
        sf.planes = 2;
    }
    let mut df = c.dst;
    if df.pf == Pf::Nv12 {
        df.planes = 1 + r.below(2) as u32;
    }
    let ds = if r.chance(1, 2) { gen::strides(r, &df, cw as u32, ch as u32) } else { None };
    let need = min_lens(&df, cw as u32, ch as u32, ds.as_deref());
    b.reset();
    let dst: Vec<_> = need.iter().map(|n| b.take(*n as usize, gen::place(r))).collect();
    for d in &dst {
        r.fill(d.slice_mut());
    }
    let mut d: Vec<&mut [u8]> = dst.iter().map(|x| x.slice_mut()).collect();
    use_set(c.set);
    let res = call(cw as u32, ch as u32, &sf, Some(&strides), &sl, &df, ds.as_deref(), &mut d);
    drop(d);
    st.evaluations += 1;
    let what = || format!("crop {cw}x{ch}+{x0}+{y0} strides {ds:?} planes {}", df.planes);
    if res != Ok(Res::Ok) {
        return bad(c, &format!("{} returned {res:?}", what()));
    }
    let dsl: Vec<&[u8]> = dst.iter().map(|x| x.slice()).collect();
    let vis = visible(&df, cw as u32, ch as u32, ds.as_deref(), &dsl);
    // positions in the whole image's visible stream
    let wl = layout(&Fmt { planes: Fmt::default_planes(c.dst.pf), ..c.dst }, c.w, c.h, None);
    let mut base = 0;
    let mut k = 0;
    for (i, p) in wl.iter().enumerate() {
        let (m, dx, dy) = sub(c.dst.pf, i);
        let row = cw * m / dx;
        for y in 0..ch / dy {
            let o = base + p.row as usize * (y0 / dy + y) + x0 * m / dx;
            if vis[k..k + row] != whole[o..o + row] {
                let q = (0..row).find(|q| vis[k + q] != whole[o + q]).unwrap();
                return bad(c, &format!("{}: plane {i} row {y} byte {q} is {} but {} in the whole image", what(), vis[k + q], whole[o + q]));
            }
            k += row;
        }
        base += (p.row * p.rows) as usize;
    }
    st.count("crops", 1);
    for x in dst {
        x.release();
    }
    Ok(())
}

// ---------------------------------------------------------------- C10 size query
pub fn c10(o: &Opts, rep: &mut Report) {
    const POISON: usize = 0xDEAD_BEEF_0BAD_F00D_u64 as usize;
    let check = |f: &Fmt, w: u32, h: u32, s: Option<&[usize]>, n: usize, st: &mut Stats| -> Result<Option<Vec<usize>>, String> {
        let mut out = vec![POISON; n.max(4) + 2];
        let res = query(w, h, f, s, &mut out[..n]);
        st.evaluations += 1;
        let desc = || format!("{:?} planes {} {w}x{h} strides {s:?} entries {n}", f.pf, f.planes);
        let res = match res {
            Ok(r) => r,
            Err(m) => return Err(format!("panic {m} | {}", desc())),
        };
        if f.pf == Pf::I422 && f.planes == 1 {
            return Ok(None); // documentation contradicts itself
        }
        let p = f.planes as usize;
        let want = if !f.pf.planes_ok(f.planes) || !f.size_ok(w, h) {
            Res::InvalidValue
        } else if s.is_some_and(|s| s.len() < p) || n < p {
            Res::NotEnoughData
        } else {
            Res::Ok
        };
        let big = want == Res::Ok && query_sizes(f, w, h, s).iter().any(|x| *x > usize::MAX as u128);
        if big {
            st.count("unrepresentable", 1);
            if res == Res::Ok {
                return Err(format!("sizes {out:?} reported for an image that does not fit | {}", desc()));
            }
            return Ok(None); // any clean refusal
        }
        if res != want {
            return Err(format!("size query returned {res:?}, expected {want:?} | {}", desc()));
        }
        st.count(if want == Res::Ok { "ok" } else { "errors" }, 1);
        let used = if want == Res::Ok { p } else { 0 };
        if let Some(i) = (used..out.len()).find(|i| out[*i] != POISON) {
            return Err(format!("size query wrote entry {i} | {}", desc()));
        }
        if want == Res::Ok {
            let q = query_sizes(f, w, h, s);
            for i in 0..p {
                if out[i] as u128 != q[i] {
                    return Err(format!("size of plane {i} is {}, expected {} | {}", out[i], q[i], desc()));
                }
            }
            out.truncate(p);
            return Ok(Some(out));
        }
        Ok(None)
    };
    // all formats x plane counts x small sizes
    par(o, rep, 1001, 9 * 8 * 70 * 8, || (), |idx, r, (), st| {
        let pf = PFS[(idx % 9) as usize];
        let planes = [0, 1, 2, 3, 4, 5, u32::MAX, 1 << 31][(idx / 9 % 8) as usize];
        let w = (idx / 72 % 70) as u32;
        let f = Fmt::new(pf, *r.pick(&CSS), planes);
        for h in 0..9u32 {
            let h = h + 9 * (idx / 72 / 70) as u32;
            check(&f, w, h, None, planes.min(4) as usize, st)?;
            if pf.planes_ok(planes) && f.size_ok(w, h) && w > 0 && h > 0 {
                let s = gen::strides(r, &f, w, h);
                check(&f, w, h, s.as_deref(), planes as usize + r.us(2), st)?;
            }
        }
        st.distinct.insert(mix(idx));
        if idx % 9001 == 17 && st.samples.len() < 3 {
            st.samples.push(format!("{pf:?} planes {planes} width {w} heights 0..72"));
        }
        Ok(())
    });
    par(o, rep, 2, 1_500_000, || (), |_, r, (), st| {
        let (f, w, h, s, n) = any_query(r);
        if st.samples.len() < 4 && r.chance(1, 5000) {
            st.samples.push(format!("{f:?} {w}x{h} strides {s:?} entries {n}"));
        }
        st.distinct.insert(mix(mix(f.pf as u64 | u64::from(f.planes) << 8 | (w as u64 % 64) << 40) ^ s.as_ref().map_or(9, |s| s.len() as u64)));
        check(&f, w, h, s.as_deref(), n, st).map(|_| ())
    });
    // buffers of exactly the reported sizes are accepted and sufficient (fenced memory)
    let g = cfg(o);
    par(o, rep, 3, 150_000, || arena(o), |_, r, a, st| {
        let mut c = gen::valid(r, &g);
        for src in [true, false] {
            let (f, s) = if src { (c.src, c.ss.clone()) } else { (c.dst, c.ds.clone()) };
            let Some(q) = check(&f, c.w, c.h, s.as_deref(), f.planes as usize, st)? else {
                return bad(&c, "no sizes for a valid image");
            };
            if src {
                c.slens = q;
            } else {
                c.dlens = q;
            }
        }
        c.splace = c.slens.iter().map(|_| gen::place(r)).collect();
        c.dplace = c.dlens.iter().map(|_| gen::place(r)).collect();
        let e = execute(&c, a);
        note(st, &c);
        if e.res != Ok(Res::Ok) {
            return bad(&c, &format!("conversion with buffers of the reported sizes returned {:?}", e.res));
        }
        damaged(&c, &e)?;
        e.release();
        st.count("accepted_by_conversion", 1);
        Ok(())
    });
}

// ---------------------------------------------------------------- C11 format equivalences
fn planes3(f: &Fmt, w: usize, h: usize, s: Option<&[usize]>, bufs: &[&[u8]]) -> [Vec<u8>; 3] {
    let img = Img::new(*f, w as u32, h as u32, s, bufs.to_vec());
    let sh = usize::from(f.pf.is_420());
    let mut v = [vec![], vec![], vec![]];
    for y in 0..h {
        for x in 0..w {
            v[0].push(img.luma(x, y));
        }
    }
    for y in 0..h >> sh {
        for x in 0..w >> sh {
            let [a, b] = img.chroma(x, y);
            v[1].push(a);
            v[2].push(b);
        }
    }
    v
}

/// Run `c` with its visible source samples written by `put`, return the destination slices
fn run_with(c: &Case, a: &mut Arena, put: &dyn Fn(&Case, &[crate::arena::Buf])) -> Result<Exec, String> {
    let (src, dst) = prepare(c, a);
    put(c, &src);
    use_set(c.set);
    let res = {
        let s: Vec<&[u8]> = src.iter().map(|b| b.slice()).collect();
        let mut d: Vec<&mut [u8]> = dst.iter().map(|b| b.slice_mut()).collect();
        call(c.w, c.h, &c.src, c.ss.as_deref(), &s, &c.dst, c.ds.as_deref(), &mut d)
    };
    if res != Ok(Res::Ok) {
        return bad(c, &format!("valid conversion returned {res:?}")).map(|()| unreachable!());
    }
    Ok(Exec { res, src, dst })
}

/// Store an RGB picture (24-bit values) in the case's source
pub fn put_picture(c: &Case, src: &[crate::arena::Buf], pic: &[u32], w: usize) {
    let p = layout(&c.src, c.w, c.h, c.ss.as_deref())[0];
    let d = c.src.pf.depth();
    for y in 0..c.h as usize {
        let o = p.stride as usize * y;
        for x in 0..w {
            let a = src[0].slice()[o + x * d]; // arbitrary
            put_rgb(c.src.pf, &mut src[0].slice_mut()[o..], x, pic[y * w + x], a);
        }
    }
}

/// Store a YUV picture: luma plane, chroma planes of the format's own resolution
pub fn put_yuv(c: &Case, src: &[crate::arena::Buf], y: &[u8], u: &[u8], v: &[u8]) {
    let l = layout(&c.src, c.w, c.h, c.ss.as_deref());
    let put = |p: &Plane, f: &dyn Fn(usize, usize) -> u8| {
        for r in 0..p.rows as usize {
            let o = (p.off + p.stride * r as u128) as usize;
            for x in 0..p.row as usize {
                src[p.buf].slice_mut()[o + x] = f(x, r);
            }
        }
    };
    let w = c.w as usize;
    put(&l[0], &|x, r| y[r * w + x]);
    match c.src.pf {
        Pf::Nv12 => put(&l[1], &|x, r| if x % 2 == 0 { u[r * w / 2 + x / 2] } else { v[r * w / 2 + x / 2] }),
        Pf::I420 => {
            put(&l[1], &|x, r| u[r * w / 2 + x]);
            put(&l[2], &|x, r| v[r * w / 2 + x]);
        }
        _ => {
            put(&l[1], &|x, r| u[r * w + x]);
            put(&l[2], &|x, r| v[r * w + x]);
        }
    }
}

fn rgb_of(c: &Case, e: &Exec) -> Vec<[u8; 3]> {
    let img = Img::new(c.dst, c.w, c.h, c.ds.as_deref(), e.dst_slices());
    let mut v = Vec::with_capacity(c.w as usize * c.h as usize);
    for y in 0..c.h as usize {
        for x in 0..c.w as usize {
            v.push(img.rgb(x, y));
        }
    }
    v
}

pub fn dims(r: &mut Rng, even: bool) -> (usize, usize) {
    let (mut w, mut h);
    if r.chance(1, 2000) {
        (w, h) = gen::large(r);
    } else {
        w = gen::width(r);
        h = gen::height(r, w, 12_000);
    }
    if even {
        w += w & 1;
        h += h & 1;
    }
    (w, h)
}

pub fn c11(o: &Opts, rep: &mut Report) {
    let g = cfg(o);
    // RGB picture -> all YUV destinations, from all sources
    par(o, rep, 1, 25_000, || arena(o), |_, r, a, st| {
        let cs = *r.pick(&YUV_CS);
        let (w, h) = dims(r, true);
        let mut raw = vec![0u8; w * h * 3];
        fill_content(&mut raw, r.below(CONTENTS) as u8, 3 * w, r);
        let pic: Vec<u32> = raw.chunks(3).map(|p| u32::from(p[0]) | u32::from(p[1]) << 8 | u32::from(p[2]) << 16).collect();
        let mut seen: Vec<(Fmt, Fmt, usize, [Vec<u8>; 3])> = vec![];
        for spf in [Pf::Argb, Pf::Bgra, Pf::Bgr] {
            for (dpf, n) in [(Pf::I444, 3), (Pf::I420, 3), (Pf::Nv12, 1), (Pf::Nv12, 2)] {
                let c = gen::valid_sized(r, &g, Fmt::new(spf, Cs::Rgb, 1), Fmt::new(dpf, cs, n), w as u32, h as u32);
                let e = run_with(&c, a, &|c, s| put_picture(c, s, &pic, w))?;
                note(st, &c);
                let pl = planes3(&c.dst, w, h, c.ds.as_deref(), &e.dst_slices());
                for (sf0, df0, set0, p0) in &seen {
                    for k in 0..3 {
                        if k > 0 && df0.pf.is_420() != dpf.is_420() {
                            continue;
                        }
                        if let Some(i) = (0..pl[k].len()).find(|i| pl[k][*i] != p0[k][*i]) {
                            return bad(&c, &format!(
                                "component {k} sample {i} is {} but {} for {:?}->{:?} ({} planes, set {:?})",
                                pl[k][i], p0[k][i], sf0.pf, df0.pf, df0.planes, SETS[*set0]
                            ));
                        }
                        st.count("planes_compared", 1);
                    }
                }
                if seen.len() < 5 {
                    seen.push((c.src, c.dst, c.set, pl));
                }
                e.release();
            }
        }
        Ok(())
    });
    // YUV 4:2:0 picture -> all RGB destinations, from all sources
    par(o, rep, 2, 25_000, || arena(o), |_, r, a, st| {
        let cs = *r.pick(&YUV_CS);
        let (w, h) = dims(r, true);
        let kind = r.below(CONTENTS) as u8;
        let mut y = vec![0; w * h];
        let mut u = vec![0; w * h / 4];
        let mut v = vec![0; w * h / 4];
        for p in [&mut y, &mut u, &mut v] {
            fill_content(p, kind, w, r);
        }
        let rep4 = |p: &[u8]| -> Vec<u8> { (0..w * h).map(|i| p[(i / w / 2) * (w / 2) + (i % w) / 2]).collect() };
        let (u4, v4) = (rep4(&u), rep4(&v));
        let mut first: Option<(String, Vec<[u8; 3]>)> = None;
        for (spf, n) in [(Pf::I420, 3), (Pf::Nv12, 1), (Pf::Nv12, 2), (Pf::I444, 3)] {
            for dpf in [Pf::Bgra, Pf::Rgba, Pf::Rgb] {
                if !supported(spf, dpf) {
                    continue;
                }
                let c = gen::valid_sized(r, &g, Fmt::new(spf, cs, n), Fmt::new(dpf, Cs::Rgb, 1), w as u32, h as u32);
                let e = run_with(&c, a, &|c, s| {
                    if spf == Pf::I444 {
                        put_yuv(c, s, &y, &u4, &v4);
                    } else {
                        put_yuv(c, s, &y, &u, &v);
                    }
                })?;
                note(st, &c);
                let out = rgb_of(&c, &e);
                match &first {
                    None => first = Some((c.describe(), out)),
                    Some((d0, o0)) => {
                        if let Some(i) = (0..out.len()).find(|i| out[*i] != o0[*i]) {
                            return bad(&c, &format!("pixel ({},{}) is {:?} but {:?} for {d0}", i % w, i / w, out[i], o0[i]));
                        }
                        st.count("pictures_compared", 1);
                    }
                }
                e.release();
            }
        }
        Ok(())
    });
    // I444 with full-resolution chroma: BGRA and RGBA agree
    par(o, rep, 3, 15_000, || (arena(o), arena(o)), |_, r, (a, b), st| {
        let cs = *r.pick(&YUV_CS);
        let (w, h) = dims(r, false);
        let c1 = gen::valid_sized(r, &g, Fmt::new(Pf::I444, cs, 3), Fmt::new(Pf::Bgra, Cs::Rgb, 1), w as u32, h as u32);
        let c2 = gen::valid_sized(r, &g, Fmt::new(Pf::I444, cs, 3), Fmt::new(Pf::Rgba, Cs::Rgb, 1), w as u32, h as u32);
        let mut p = [vec![0; w * h], vec![0; w * h], vec![0; w * h]];
        let kind = r.below(CONTENTS) as u8;
        for x in &mut p {
            fill_content(x, kind, w, r);
        }
        let e1 = run_with(&c1, a, &|c, s| put_yuv(c, s, &p[0], &p[1], &p[2]))?;
        let e2 = run_with(&c2, b, &|c, s| put_yuv(c, s, &p[0], &p[1], &p[2]))?;
        note(st, &c1);
        note(st, &c2);
        let (o1, o2) = (rgb_of(&c1, &e1), rgb_of(&c2, &e2));
        if let Some(i) = (0..o1.len()).find(|i| o1[*i] != o2[*i]) {
            return bad(&c2, &format!("pixel ({},{}) is {:?} as RGBA but {:?} as BGRA", i % w, i / w, o2[i], o1[i]));
        }
        e1.release();
        e2.release();
        st.count("pictures_compared", 1);
        Ok(())
    });
}

// ---------------------------------------------------------------- C17 chroma subsampling
pub fn c17(o: &Opts, rep: &mut Report) {
    let g = cfg(o);
    par(o, rep, 1, 100_000, || arena(o), |_, r, a, st| {
        let s = *r.pick(&[Pf::Argb, Pf::Bgra, Pf::Bgr]);
        let d = *r.pick(&[Pf::I420, Pf::Nv12]);
        let (sf, df) = gen::fmts(r, s, d);
        let c = gen::valid_for(r, &g, sf, df);
        st.count("chroma_blocks", u64::from(c.w) * u64::from(c.h) / 4);
        content_case(&c, a, st)
    });
    // every block position influenced by its own four pixels only: a single odd pixel
    par(o, rep, 2, 60_000, || arena(o), |_, r, a, st| {
        let s = *r.pick(&[Pf::Argb, Pf::Bgra, Pf::Bgr]);
        let d = *r.pick(&[Pf::I420, Pf::Nv12]);
        let (sf, df) = gen::fmts(r, s, d);
        let (w, h) = dims(r, true);
        let c = gen::valid_sized(r, &g, sf, df, w as u32, h as u32);
        let bg = if r.chance(1, 2) { 0 } else { r.u64() as u32 & 0xFF_FFFF };
        let mut pic = vec![bg; w * h];
        let at = r.us(w * h);
        pic[at] = if r.chance(1, 2) { !bg & 0xFF_FFFF } else { r.u64() as u32 & 0xFF_FFFF };
        let e = run_with(&c, a, &|c, s| put_picture(c, s, &pic, w))?;
        note(st, &c);
        let di = Img::new(c.dst, c.w, c.h, c.ds.as_deref(), e.dst_slices());
        let si = Img::new(c.src, c.w, c.h, c.ss.as_deref(), e.src_slices());
        if let Err(m) = model::verify(&si, &di, w, h) {
            return bad(&c, &format!("odd pixel ({},{}): {m}", at % w, at / w));
        }
        let far = (0..w * h / 4).find(|i| {
            let (cx, cy) = (i % (w / 2), i / (w / 2));
            let own = cx == at % w / 2 && cy == at / w / 2;
            let first = if at % w / 2 == 0 && at / w / 2 == 0 { (w / 2 - 1, h / 2 - 1) } else { (0, 0) };
            !own && di.chroma(cx, cy) != di.chroma(first.0, first.1)
        });
        if let Some(i) = far {
            return bad(&c, &format!("block {i} changed although only pixel ({},{}) differs from the background", at % w, at / w));
        }
        st.count("single_pixel_images", 1);
        drop((di, si));
        e.release();
        Ok(())
    });
    // upsampling equals 4:4:4 with replicated chroma
    par(o, rep, 3, 60_000, || (arena(o), arena(o)), |_, r, (a, b), st| {
        let cs = *r.pick(&YUV_CS);
        let (w, h) = dims(r, true);
        let (spf, n) = *r.pick(&[(Pf::I420, 3), (Pf::Nv12, 1), (Pf::Nv12, 2)]);
        let dpf = *r.pick(&[Pf::Bgra, Pf::Rgba, Pf::Rgb]);
        let dpf = if supported(spf, dpf) { dpf } else { Pf::Bgra };
        let mut y = vec![0; w * h];
        let mut u = vec![0; w * h / 4];
        let mut v = vec![0; w * h / 4];
        let kind = r.below(CONTENTS) as u8;
        for p in [&mut y, &mut u, &mut v] {
            fill_content(p, kind, w, r);
        }
        let rep4 = |p: &[u8]| -> Vec<u8> { (0..w * h).map(|i| p[(i / w / 2) * (w / 2) + (i % w) / 2]).collect() };
        let (u4, v4) = (rep4(&u), rep4(&v));
        let c = gen::valid_sized(r, &g, Fmt::new(spf, cs, n), Fmt::new(dpf, Cs::Rgb, 1), w as u32, h as u32);
        let mut c4 = gen::valid_sized(r, &g, Fmt::new(Pf::I444, cs, 3), Fmt::new(Pf::Bgra, Cs::Rgb, 1), w as u32, h as u32);
        c4.set = c.set;
        let e = run_with(&c, a, &|c, s| put_yuv(c, s, &y, &u, &v))?;
        let e4 = run_with(&c4, b, &|c, s| put_yuv(c, s, &y, &u4, &v4))?;
        note(st, &c);
        let (o1, o2) = (rgb_of(&c, &e), rgb_of(&c4, &e4));
        if let Some(i) = (0..o1.len()).find(|i| o1[*i] != o2[*i]) {
            return bad(&c, &format!("pixel ({},{}) is {:?} but {:?} as 4:4:4 with replicated chroma", i % w, i / w, o1[i], o2[i]));
        }
        e.release();
        e4.release();
        st.count("pixels_upsampled", (w * h) as u64);
        Ok(())
    });
    // block sums, exhaustive over the sum of one pair of components and sampled over the third
    let sets = o.sets.clone();
    let srcs = [Pf::Argb, Pf::Bgra, Pf::Bgr];
    let step = o.args.get("sumstep").and_then(|x| x.parse().ok()).unwrap_or(8u64);
    let combos = 4 * 3 * 2 * sets.len() as u64;
    let bsums = 1021u64.div_ceil(step);
    par(o, rep, 1004, combos * bsums, Scratch::new, |idx, r, sc, st| {
        let k = idx % combos;
        let cs = YUV_CS[(k % 4) as usize];
        let spf = srcs[(k / 4 % 3) as usize];
        let dpf = [Pf::Nv12, Pf::I420][(k / 12 % 2) as usize];
        let set = sets[(k / 24) as usize];
        let sb = ((idx / combos) * step + (o.seed + k) % step).min(1020) as usize;
        // in quick runs: sr over a residue class, sg over all
        let rstep = (step as usize).max(1);
        use_set(set);
        let sg_all: Vec<usize> = (0..=1020).collect();
        let srs: Vec<usize> = (0..=1020).skip(r.us(rstep)).step_by(rstep).collect();
        let f = model::fwd(cs);
        let w = 2 * sg_all.len();
        let h = 2 * srs.len();
        let sf = Fmt::new(spf, Cs::Rgb, 1);
        let df = Fmt::new(dpf, cs, Fmt::default_planes(dpf));
        let d = spf.depth();
        sc.src[0].resize(w * h * d, 0);
        // split a sum 0..=1020 in four bytes
        let split = |s: usize, z: u64| -> [u8; 4] {
            let mut q = [(s / 4) as u8; 4];
            for i in 0..s % 4 {
                q[(i + z as usize) % 4] += 1;
            }
            // spread without changing the sum
            let m = (z >> 8) as usize % 4;
            let n = (m + 1 + (z >> 16) as usize % 3) % 4;
            let t = ((z >> 24) as u8).min(q[m]).min(255 - q[n]);
            q[m] -= t;
            q[n] += t;
            q
        };
        let zb = r.u64();
        for (j, sr) in srs.iter().enumerate() {
            for (i, sg) in sg_all.iter().enumerate() {
                let z = mix(zb ^ (j * 2048 + i) as u64);
                let (qr, qg, qb) = (split(*sr, z), split(*sg, z >> 13), split(sb, z >> 29));
                for t in 0..4 {
                    let pos = (2 * j + t / 2) * w + 2 * i + t % 2;
                    put_rgb(spf, &mut sc.src[0], pos, u32::from(qr[t]) | u32::from(qg[t]) << 8 | u32::from(qb[t]) << 16, z as u8);
                }
            }
        }
        conv(w, h, &sf, &sc.src, &df, &mut sc.dst, st)?;
        let mut worst = 0;
        for (j, sr) in srs.iter().enumerate() {
            for (i, sg) in sg_all.iter().enumerate() {
                let c = j * sg_all.len() + i;
                let out = if dpf == Pf::Nv12 { [sc.dst[1][2 * c], sc.dst[1][2 * c + 1]] } else { [sc.dst[1][c], sc.dst[2][c]] };
                for q in 0..2 {
                    let m = &f.m[1 + q];
                    let e = (m[0] * *sr as i64 + m[1] * *sg as i64 + m[2] * sb as i64) / 4 + m[3];
                    let er = model::err(out[q], e);
                    if er > worst {
                        worst = er;
                        if er > model::TOL_FWD {
                            return Err(format!(
                                "{spf:?}->{dpf:?} {cs:?} set={:?}: chroma[{q}] of block sums ({sr},{sg},{sb}) is {}, exact {:.4}",
                                SETS[set], out[q], e as f64 / model::S as f64
                            ));
                        }
                    }
                }
            }
        }
        st.max("max_err_chroma_e6", (worst as f64 / model::S as f64 * 1e6) as u64);
        st.count("block_sums_checked", (srs.len() * sg_all.len()) as u64);
        st.evaluations += 1;
        st.distinct.insert(mix(idx));
        Ok(())
    });
}

// ---------------------------------------------------------------- C18 round trip
pub fn c18(o: &Opts, rep: &mut Report) {
    let sets = o.sets.clone();
    let srcs = [(Pf::Bgra, Pf::Bgra), (Pf::Argb, Pf::Rgba), (Pf::Bgr, Pf::Bgra)];
    let n = 256 * 4 * 3;
    par(o, rep, 1001, n, || (Scratch::new(), vec![vec![], vec![], vec![]], vec![]), |idx, r, (sc, yuv, first), st| {
        let chunk = (idx % 256) as usize;
        let k = idx / 256;
        let cs = YUV_CS[(k % 4) as usize];
        let (spf, dpf) = srcs[(k / 4) as usize];
        let key = mix(o.seed ^ k.wrapping_mul(0x5151));
        let Sweep { w, h } = sweep_dims(r, CHUNK);
        let col = |i: usize| sweep_color(chunk, i, key);
        sc.src[0].resize(w * h * spf.depth(), 0);
        for i in 0..w * h {
            put_rgb(spf, &mut sc.src[0], i, col(i), 9);
        }
        let sf = Fmt::new(spf, Cs::Rgb, 1);
        let mf = Fmt::new(Pf::I444, cs, 3);
        let df = Fmt::new(dpf, Cs::Rgb, 1);
        let tol = if cs.full() { TOL_RT_FULL } else { TOL_RT_LIM };
        let (ro, go, bo, _) = dpf.offsets();
        for (si, &set) in sets.iter().enumerate() {
            use_set(set);
            conv(w, h, &sf, &sc.src, &mf, yuv, st)?;
            conv(w, h, &mf, yuv, &df, &mut sc.dst, st)?;
            if si == 0 {
                first.clone_from(&sc.dst[0]);
                let mut worst = 0;
                let mut worst_grey = 0;
                for i in 0..w * h {
                    let c = col(i);
                    let p = &sc.dst[0][4 * i..4 * i + 4];
                    let want = [c as u8, (c >> 8) as u8, (c >> 16) as u8];
                    let got = [p[ro], p[go], p[bo]];
                    for q in 0..3 {
                        let e = want[q].abs_diff(got[q]);
                        if e > worst {
                            worst = e;
                            if e > tol {
                                return Err(format!("{spf:?}->I444->{dpf:?} {cs:?} set={:?}: rgb {want:?} came back as {got:?}", SETS[set]));
                            }
                        }
                    }
                    if want[0] == want[1] && want[1] == want[2] {
                        let spread = got.iter().max().unwrap() - got.iter().min().unwrap();
                        worst_grey = worst_grey.max(spread);
                        if spread > 0 {
                            return Err(format!("{spf:?}->I444->{dpf:?} {cs:?} set={:?}: grey {want:?} came back as {got:?}", SETS[set]));
                        }
                        st.count("greys", 1);
                    }
                }
                st.max(if cs.full() { "max_err_full" } else { "max_err_limited" }, worst.into());
                st.max("max_grey_spread", worst_grey.into());
            } else if sc.dst[0] != *first {
                let i = (0..first.len()).find(|i| first[*i] != sc.dst[0][*i]).unwrap();
                return Err(format!("{spf:?}->I444->{dpf:?} {cs:?}: byte {i} is {} with set {:?}, {} with {:?}", sc.dst[0][i], SETS[set], first[i], SETS[sets[0]]));
            }
            st.evaluations += (w * h) as u64;
        }
        st.distinct.insert(mix(idx));
        st.count("colors", CHUNK as u64);
        if chunk == 1 && st.samples.len() < 2 {
            st.samples.push(format!("{spf:?}->I444->{dpf:?} {cs:?} first color {:#08x} {w}x{h}", col(0)));
        }
        Ok(())
    });
}
pub const TOL_RT_FULL: u8 = 1;
pub const TOL_RT_LIM: u8 = 2;

// ---------------------------------------------------------------- C19 RGB reorder
pub fn c19(o: &Opts, rep: &mut Report) {
    let g = cfg(o);
    let ps = [(Pf::Bgr, Pf::Rgb), (Pf::Bgra, Pf::Rgb), (Pf::Rgb, Pf::Bgra)];
    let mut cs = vec![];
    for (s, d) in ps {
        for &set in &o.sets {
            cs.push(Combo { sf: Fmt::new(s, Cs::Rgb, 1), df: Fmt::new(d, Cs::Rgb, 1), set });
        }
    }
    let wmax = o.args.get("wmax").and_then(|x| x.parse().ok()).unwrap_or(420u64);
    par(o, rep, 1001, cs.len() as u64 * wmax, || arena(o), |idx, r, a, st| {
        let cb = &cs[(idx % cs.len() as u64) as usize];
        let w = (idx / cs.len() as u64) as u32 + 1;
        for h in [1, 2, 3, 7] {
            for (sp, dp) in [(0, 0), (1, 0), (0, 1), (2, 0), (3, 5), (r.us(64), r.us(64))] {
                let at = *r.pick(&[Place::End(0), Place::Start(0), Place::End(3)]);
                let c = tight(r, cb, w, h, sp, dp, at);
                content_case(&c, a, st)?;
            }
        }
        Ok(())
    });
    par(o, rep, 2, 120_000, || arena(o), |_, r, a, st| {
        let (s, d) = *r.pick(&ps);
        let (sf, df) = gen::fmts(r, s, d);
        content_case(&gen::valid_for(r, &g, sf, df), a, st)
    });
    // BGRA -> RGB -> BGRA
    par(o, rep, 3, 40_000, || (arena(o), arena(o)), |_, r, (a, b), st| {
        let (w, h) = dims(r, false);
        let c1 = gen::valid_sized(r, &g, Fmt::new(Pf::Bgra, Cs::Rgb, 1), Fmt::new(Pf::Rgb, Cs::Rgb, 1), w as u32, h as u32);
        let c2 = gen::valid_sized(r, &g, Fmt::new(Pf::Rgb, Cs::Rgb, 1), Fmt::new(Pf::Bgra, Cs::Rgb, 1), w as u32, h as u32);
        let e1 = execute(&c1, a);
        if e1.res != Ok(Res::Ok) {
            return bad(&c1, &format!("valid conversion returned {:?}", e1.res));
        }
        let si = Img::new(c1.src, c1.w, c1.h, c1.ss.as_deref(), e1.src_slices());
        let mid = rgb_of(&c1, &e1);
        let e2 = run_with(&c2, b, &|c, s| {
            let pic: Vec<u32> = mid.iter().map(|p| u32::from(p[0]) | u32::from(p[1]) << 8 | u32::from(p[2]) << 16).collect();
            put_picture(c, s, &pic, w);
        })?;
        note(st, &c2);
        let out = rgb_of(&c2, &e2);
        for (i, p) in out.iter().enumerate() {
            if *p != si.rgb(i % w, i / w) {
                return bad(&c2, &format!("pixel {i} came back as {p:?}, was {:?}", si.rgb(i % w, i / w)));
            }
        }
        st.count("round_trips", 1);
        drop(si);
        e1.release();
        e2.release();
        Ok(())
    });
}

// ---------------------------------------------------------------- C20 neutral, ranges, ordering
pub fn c20(o: &Opts, rep: &mut Report) {
    let sets = o.sets.clone();
    let srcs = [Pf::Argb, Pf::Bgra, Pf::Bgr];
    // forward: tables over (fixed component value, two others) so neighbours are in the same image.
    // image x = component A, y = component B, C fixed to `chunk` and `chunk+1`
    let n = 256 * 4 * 3 * sets.len() as u64;
    par(o, rep, 1001, n, || (Scratch::new(), vec![vec![], vec![], vec![]]), |idx, r, (sc, nxt), st| {
        let ch = (idx % 256) as u32;
        let k = idx / 256;
        let cs = YUV_CS[(k % 4) as usize];
        let spf = srcs[(k / 4 % 3) as usize];
        let set = sets[(k / 12) as usize];
        use_set(set);
        let sf = Fmt::new(spf, Cs::Rgb, 1);
        let df = Fmt::new(Pf::I444, cs, 3);
        let rot = r.us(3) as u32; // which component is the fixed one
        let col = |x: u32, y: u32, z: u32| -> u32 {
            let v = [x, y, z];
            v[rot as usize % 3] | v[(rot as usize + 1) % 3] << 8 | v[(rot as usize + 2) % 3] << 16
        };
        sc.src[0].resize(65536 * spf.depth(), 0);
        let mut fill = |z: u32, sc: &mut Scratch| {
            for i in 0..65536u32 {
                put_rgb(spf, &mut sc.src[0], i as usize, col(i & 255, i >> 8, z), r.u64() as u8);
            }
        };
        fill(ch, sc);
        conv(256, 256, &sf, &sc.src, &df, &mut sc.dst, st)?;
        if ch < 255 {
            fill(ch + 1, sc);
            conv(256, 256, &sf, &sc.src, &df, nxt, st)?;
        }
        let (ylo, yhi, clo, chi) = if cs.full() { (0, 255, 0, 255) } else { (16, 235, 16, 240) };
        let desc = |i: usize| {
            let c = col(i as u32 & 255, i as u32 >> 8, ch);
            format!("{spf:?}->I444 {cs:?} set={:?} rgb ({},{},{})", SETS[set], c & 255, c >> 8 & 255, c >> 16)
        };
        for i in 0..65536usize {
            let y = sc.dst[0][i];
            let (u, v) = (sc.dst[1][i], sc.dst[2][i]);
            if y < ylo || y > yhi || u < clo || u > chi || v < clo || v > chi {
                return Err(format!("{}: yuv ({y},{u},{v}) outside the nominal range", desc(i)));
            }
            let up = [
                if i & 255 < 255 { sc.dst[0][i + 1] } else { y },
                if i < 65536 - 256 { sc.dst[0][i + 256] } else { y },
                if ch < 255 { nxt[0][i] } else { y },
            ];
            if up.iter().any(|x| *x < y) {
                return Err(format!("{}: luma {y} drops to {up:?} when one component rises by one", desc(i)));
            }
            let c = col(i as u32 & 255, i as u32 >> 8, ch);
            let (cr, cg, cb) = (c & 255, c >> 8 & 255, c >> 16);
            if cr == cg && cg == cb {
                st.count("greys", 1);
                if u != 128 || v != 128 {
                    return Err(format!("{}: grey has chroma ({u},{v})", desc(i)));
                }
                if cr == 0 && y != ylo || cr == 255 && y != yhi {
                    return Err(format!("{}: luma {y} of an extreme grey", desc(i)));
                }
            }
        }
        st.evaluations += 65536;
        st.count("colors_forward", 65536);
        st.distinct.insert(mix(idx));
        if ch == 2 && st.samples.len() < 2 {
            st.samples.push(desc(0));
        }
        Ok(())
    });
    // greys through the 4:2:0 formats: chroma exactly neutral
    let g = cfg(o);
    par(o, rep, 2, 20_000, || arena(o), |_, r, a, st| {
        let s = *r.pick(&srcs);
        let d = *r.pick(&[Pf::I420, Pf::Nv12, Pf::I444]);
        let (sf, df) = gen::fmts(r, s, d);
        let (w, h) = dims(r, true);
        let c = gen::valid_sized(r, &g, sf, df, w as u32, h as u32);
        let pic: Vec<u32> = (0..w * h).map(|_| (r.u64() as u32 & 255) * 0x10101).collect();
        let e = run_with(&c, a, &|c, s| put_picture(c, s, &pic, w))?;
        note(st, &c);
        let p = planes3(&c.dst, w, h, c.ds.as_deref(), &e.dst_slices());
        for k in 1..3 {
            if let Some(i) = p[k].iter().position(|x| *x != 128) {
                return bad(&c, &format!("grey picture has chroma {} at sample {i}", p[k][i]));
            }
        }
        st.count("grey_pictures", 1);
        e.release();
        Ok(())
    });
    // backward: monotone in luma for every chroma pair
    let kinds = [(Pf::I444, Pf::Bgra), (Pf::I444, Pf::Rgba), (Pf::Nv12, Pf::Rgb), (Pf::I420, Pf::Bgra), (Pf::Nv12, Pf::Rgba)];
    let nk = kinds.len() as u64;
    par(o, rep, 1003, 256 * 4 * nk * sets.len() as u64, Scratch::new, |idx, _r, sc, st| {
        let u = (idx % 256) as u8;
        let k = idx / 256;
        let cs = YUV_CS[(k % 4) as usize];
        let (spf, dpf) = kinds[(k / 4 % nk) as usize];
        let set = sets[(k / 4 / nk) as usize];
        use_set(set);
        let sf = Fmt::new(spf, cs, Fmt::default_planes(spf));
        let df = Fmt::new(dpf, Cs::Rgb, 1);
        // x: luma, rows: v (two rows per v when subsampled)
        let m = if spf.is_420() { 2 } else { 1 };
        let (w, h) = (256, 256 * m);
        for b in &mut sc.src {
            b.clear();
        }
        sc.src[0].extend((0..w * h).map(|i| (i % w) as u8));
        let (cw, ch) = (w / m, h / m);
        if spf == Pf::Nv12 {
            sc.src[1].extend((0..cw * ch).flat_map(|i| [u, (i / cw) as u8]));
        } else {
            sc.src[1].resize(cw * ch, u);
            sc.src[2].extend((0..cw * ch).map(|i| (i / cw) as u8));
        }
        conv(w, h, &sf, &sc.src, &df, &mut sc.dst, st)?;
        let d = dpf.depth();
        for y in 0..h {
            for x in 1..w {
                for q in 0..3 {
                    let off = if d == 4 && dpf == Pf::Bgra { q } else { q };
                    let (a, b) = (sc.dst[0][(y * w + x - 1) * d + off], sc.dst[0][(y * w + x) * d + off]);
                    if b < a {
                        return Err(format!("{spf:?}->{dpf:?} {cs:?} set={:?}: byte {q} drops from {a} to {b} between luma {} and {x} at chroma ({u},{})", SETS[set], x - 1, y / m));
                    }
                }
            }
        }
        // neutral chroma decodes to greys, with the nominal extremes mapped to black and white
        if u == 128 {
            let (lo, hi) = if cs.full() { (0, 255) } else { (16, 235) };
            for y in 128 * m..129 * m {
                for x in 0..w {
                    let p = &sc.dst[0][(y * w + x) * d..][..3];
                    if p[0] != p[1] || p[1] != p[2] || x <= lo && p[0] != 0 || x >= hi && p[0] != 255 {
                        return Err(format!("{spf:?}->{dpf:?} {cs:?} set={:?}: neutral yuv ({x},128,128) gives {p:?}", SETS[set]));
                    }
                }
            }
            st.count("neutral_triples", (m * w) as u64);
        }
        st.evaluations += (w * h) as u64;
        st.count("triples_backward", (w * h) as u64);
        st.distinct.insert(mix(idx ^ 0xFFFF_0000));
        Ok(())
    });
}
