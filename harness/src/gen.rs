//! Random cases.
use crate::arena::Place;
use crate::case::*;
use crate::fmt::*;
use crate::rng::Rng;

#[derive(Clone)]
pub struct GenCfg {
    pub sets: Vec<usize>,
    pub max_px: usize,
}

pub fn width(r: &mut Rng) -> usize {
    match r.below(20) {
        0..=8 => r.range(1, 70),
        9..=15 => r.range(1, 300),
        16..=18 => {
            let base = [8, 12, 16, 24, 32, 48, 64, 96, 128, 256, 512, 1024];
            let b = *r.pick(&base) * r.range(1, 4);
            (b + r.us(7)).saturating_sub(3).max(1)
        }
        _ => r.range(300, 5000),
    }
}
pub fn height(r: &mut Rng, w: usize, max_px: usize) -> usize {
    let h = match r.below(20) {
        0..=12 => r.range(1, 6),
        13..=16 => r.range(1, 24),
        17 => (*r.pick(&[8, 16, 32, 64, 128, 256, 512, 1024]) * r.range(1, 3) + r.us(3)).saturating_sub(1),
        18 => r.range(1, 130),
        _ => r.range(1, 1500),
    };
    h.min((max_px / w).max(2))
}

/// Sizes of screens and cameras, and dimensions beyond 16 bits
pub fn large(r: &mut Rng) -> (usize, usize) {
    match r.below(6) {
        0..=2 => *r.pick(&[(640, 480), (1024, 768), (1280, 720), (1366, 768), (1920, 1080), (2560, 1440), (3840, 2160), (4096, 2160)]),
        3 => (r.range(600, 3000), r.range(400, 1500)),
        4 => (r.range(65_500, 140_000), r.range(1, 5)),
        _ => (r.range(1, 70), r.range(65_500, 90_000)),
    }
}

pub fn stride(r: &mut Rng, row: usize) -> usize {
    match r.below(10) {
        0 | 1 => 0,
        2 => row,
        3 => row + 1,
        4 => row + 2,
        5 => row + r.range(0, 8),
        6 => row + r.range(0, 64),
        7 => row.div_ceil(16) * 16,
        8 => row.div_ceil(64) * 64,
        _ => row + r.range(0, 3 * row + 7),
    }
}

pub fn strides(r: &mut Rng, f: &Fmt, w: u32, h: u32) -> Option<Vec<usize>> {
    if r.chance(1, 4) {
        return None;
    }
    let l = layout(f, w, h, None);
    let mut v: Vec<usize> = (0..f.planes as usize)
        .map(|i| {
            let row = l.iter().find(|p| p.buf == i).unwrap().row as usize;
            stride(r, row)
        })
        .collect();
    let row = |i: usize| l.iter().find(|p| p.buf == i).unwrap().row as usize;
    let n = v.len();
    // strides that have something to do with each other, or round ones
    match r.below(14) {
        0 => {
            let most = (0..n).map(|i| v[i].max(row(i))).max().unwrap_or(0);
            v.fill(most);
        }
        1 => (0..n).for_each(|i| v[i] = row(i).next_power_of_two()),
        2 => {
            let unit = *r.pick(&[128, 256, 512, 1024, 4096]);
            (0..n).for_each(|i| v[i] = row(i).div_ceil(unit) * unit);
        }
        3 => {
            v[0] = v[0].max(row(0)) + (v[0] & 1);
            (1..n).for_each(|i| v[i] = (v[0] / 2).max(row(i)));
        }
        _ => {}
    }
    // entries beyond the format's planes are irrelevant
    if r.chance(1, 4) {
        for _ in 0..r.range(1, 2) {
            let x = *r.pick(&[0, 1, 3, usize::MAX, 12345]);
            v.push(x);
        }
    }
    Some(v)
}

pub fn place(r: &mut Rng) -> Place {
    match r.below(8) {
        0..=3 => Place::End(0),
        4 => Place::End(r.us(64)),
        5 | 6 => Place::Start(0),
        _ => Place::Start(r.us(64)),
    }
}

pub fn lens(r: &mut Rng, f: &Fmt, w: u32, h: u32, s: Option<&[usize]>) -> Vec<usize> {
    let min = min_lens(f, w, h, s);
    let full = query_sizes(f, w, h, s);
    let mut v: Vec<usize> = min
        .iter()
        .zip(&full)
        .map(|(m, f)| match r.below(5) {
            0..=2 => *m as usize,
            3 => *f as usize,
            _ => *m as usize + r.range(0, 80),
        })
        .collect();
    if r.chance(1, 8) {
        v.push(r.us(40));
    }
    v
}

pub fn planes_of(r: &mut Rng, pf: Pf) -> u32 {
    if pf == Pf::Nv12 {
        1 + r.below(2) as u32
    } else {
        Fmt::default_planes(pf)
    }
}

pub fn fmts(r: &mut Rng, src: Pf, dst: Pf) -> (Fmt, Fmt) {
    let mut cs = |pf: Pf| if pf.is_rgb() { Cs::Rgb } else { *r.pick(&YUV_CS) };
    let (a, b) = (cs(src), cs(dst));
    (
        Fmt::new(src, a, planes_of(r, src)),
        Fmt::new(dst, b, planes_of(r, dst)),
    )
}

/// A valid, convertible case for the given formats
pub fn valid_for(r: &mut Rng, g: &GenCfg, sf: Fmt, df: Fmt) -> Case {
    let (mut w, mut h);
    if g.max_px >= 40_000 && r.chance(1, 1500) {
        (w, h) = large(r);
    } else {
        w = width(r);
        h = height(r, w, g.max_px);
    }
    if sf.pf.even_w() || df.pf.even_w() {
        w += w & 1;
    }
    if sf.pf.even_h() || df.pf.even_h() {
        h += h & 1;
    }
    valid_sized(r, g, sf, df, w as u32, h as u32)
}

pub fn valid_sized(r: &mut Rng, g: &GenCfg, sf: Fmt, df: Fmt, w: u32, h: u32) -> Case {
    let mut ss = strides(r, &sf, w, h);
    let mut ds = strides(r, &df, w, h);
    if let (Some(s), Some(d)) = (&mut ss, &mut ds) {
        if r.chance(1, 12) {
            // the same distance between rows on both sides
            let both = (s[0] | d[0]).max(layout(&sf, w, h, None)[0].row as usize).max(layout(&df, w, h, None)[0].row as usize);
            (s[0], d[0]) = (both, both);
        }
    }
    let slens = lens(r, &sf, w, h, ss.as_deref());
    let dlens = lens(r, &df, w, h, ds.as_deref());
    let splace = slens.iter().map(|_| place(r)).collect();
    let dplace = dlens.iter().map(|_| place(r)).collect();
    Case {
        set: *r.pick(&g.sets),
        w,
        h,
        src: sf,
        dst: df,
        ss,
        ds,
        slens,
        dlens,
        splace,
        dplace,
        content: r.below(CONTENTS) as u8,
        cseed: r.u64(),
        fill: r.u64(),
    }
}

pub fn valid(r: &mut Rng, g: &GenCfg) -> Case {
    let ps = pairs();
    let (s, d) = *r.pick(&ps);
    let (sf, df) = fmts(r, s, d);
    valid_for(r, g, sf, df)
}

/// Some stride values chosen to provoke overflow and wrap-around in offset arithmetic
pub fn hostile_stride(r: &mut Rng, row: usize, rows: usize) -> usize {
    let n = rows.saturating_sub(1).max(1);
    match r.below(16) {
        0 => usize::MAX,
        1 => usize::MAX - r.us(300),
        2 => (isize::MAX as usize).wrapping_add(r.us(5)).wrapping_sub(2),
        3 => (usize::MAX / n).wrapping_add(r.us(5)).wrapping_sub(2),
        4 => (usize::MAX / rows.max(1)).wrapping_add(r.us(5)).wrapping_sub(2),
        // n * stride wraps to something small
        5 => (usize::MAX / n).wrapping_add(1).wrapping_add(r.us(row.max(1))),
        6 => (usize::MAX / n.saturating_mul(2).max(1)).wrapping_add(1).wrapping_add(r.us(3)),
        7 => (1usize << r.range(30, usize::BITS as usize - 1)).wrapping_add(r.us(row.saturating_add(2))),
        8 => 1,
        9 => r.range(1, 8),
        10 | 11 => row.saturating_sub(r.range(1, 40)).max(1),
        12 => r.range(1, row.max(1)),
        13 => (row / 2).max(1),
        14 => 0,
        _ => r.u64() as usize >> r.us(usize::BITS as usize),
    }
}

fn any_planes(r: &mut Rng, pf: Pf) -> u32 {
    match r.below(12) {
        0..=8 => planes_of(r, pf),
        9 => r.below(6) as u32,
        10 => *r.pick(&[u32::MAX, 1 << 31, (1 << 31) + 1, 65537, 257, 1 << 16]),
        _ => r.u64() as u32,
    }
}

fn any_dim(r: &mut Rng) -> u32 {
    match r.below(14) {
        0 => 0,
        1 => *r.pick(&[u32::MAX, u32::MAX - 1, 1 << 31, (1 << 31) - 1, (1 << 31) + 2]),
        2 => r.u64() as u32,
        3 => *r.pick(&[1431655766, 1073741824, 1073741826, 2147483648, 715827884]),
        _ => r.range(1, 80) as u32,
    }
}

/// A hostile case: anything goes. Work is bounded: executions that are predicted to run have at
/// most `max_px` pixels.
pub fn hostile(r: &mut Rng, g: &GenCfg) -> Case {
    loop {
        let mut c = hostile_once(r, g);
        // one or a few mutations of a valid case most of the time
        if r.chance(3, 4) {
            c = mutate(r, g);
        }
        if c.slens.iter().chain(&c.dlens).any(|l| *l > 4_000_000) {
            continue;
        }
        let px = u64::from(c.w) * u64::from(c.h);
        if px > g.max_px as u64 && !matches!(c.predict(), Some(x) if x != Res::Ok) {
            continue;
        }
        return c;
    }
}

fn hostile_once(r: &mut Rng, g: &GenCfg) -> Case {
    let ps = pairs();
    let (spf, dpf) = if r.chance(3, 4) { *r.pick(&ps) } else { (*r.pick(&PFS), *r.pick(&PFS)) };
    let (mut sf, mut df) = fmts(r, spf, dpf);
    if r.chance(1, 6) {
        sf.cs = *r.pick(&CSS);
    }
    if r.chance(1, 6) {
        df.cs = *r.pick(&CSS);
    }
    sf.planes = any_planes(r, spf);
    df.planes = any_planes(r, dpf);
    let (mut w, mut h) = (any_dim(r), any_dim(r));
    if r.chance(3, 4) {
        w &= !1;
        h &= !1;
    }
    let mk_strides = |r: &mut Rng, pf: Pf| -> Option<Vec<usize>> {
        if r.chance(1, 4) {
            return None;
        }
        let n = if r.chance(1, 5) { r.us(6) } else { Fmt::default_planes(pf) as usize };
        let row = (w as usize).wrapping_mul(pf.depth().max(1));
        Some((0..n).map(|_| hostile_stride(r, row, h as usize)).collect())
    };
    let ss = mk_strides(r, spf);
    let ds = mk_strides(r, dpf);
    let mk_lens = |r: &mut Rng, pf: Pf| -> Vec<usize> {
        let n = if r.chance(1, 5) { r.us(6) } else { Fmt::default_planes(pf) as usize };
        (0..n)
            .map(|_| match r.below(4) {
                0 => r.us(16),
                1 => r.us(400),
                _ => r.us(60000),
            })
            .collect()
    };
    let slens = mk_lens(r, spf);
    let dlens = mk_lens(r, dpf);
    let splace = slens.iter().map(|_| place(r)).collect();
    let dplace = dlens.iter().map(|_| place(r)).collect();
    Case {
        set: *r.pick(&g.sets),
        w,
        h,
        src: sf,
        dst: df,
        ss,
        ds,
        slens,
        dlens,
        splace,
        dplace,
        content: 0,
        cseed: r.u64(),
        fill: r.u64(),
    }
}

/// A valid case with one to three rules broken (or almost broken)
fn mutate(r: &mut Rng, g: &GenCfg) -> Case {
    let mut c = valid(r, g);
    for _ in 0..[1, 1, 1, 2, 3][r.us(5)] {
        let src = r.chance(1, 2);
        let (w, h) = (c.w, c.h);
        let f = if src { c.src } else { c.dst };
        match r.below(16) {
            0..=5 => {
                // shorten a buffer: just below what is needed, or by a few pixels, or to nothing
                let lens = if src { &mut c.slens } else { &mut c.dlens };
                if !lens.is_empty() {
                    let i = r.us(lens.len());
                    let cut = match r.below(6) {
                        0 | 1 => 1,
                        2 => r.range(1, 4),
                        3 => r.range(1, 64),
                        4 => r.range(1, lens[i].max(1)),
                        _ => (lens[i] / 3 * 2).max(1),
                    };
                    lens[i] = lens[i].saturating_sub(cut);
                }
            }
            6 => {
                let lens = if src { &mut c.slens } else { &mut c.dlens };
                let n = r.us(lens.len() + 1);
                lens.truncate(n);
            }
            7 => {
                let s = if src { &mut c.ss } else { &mut c.ds };
                if let Some(s) = s {
                    let n = r.us(s.len() + 1);
                    s.truncate(n);
                }
            }
            8 | 9 => {
                // a hostile stride for one plane, buffers unchanged
                let row = (w as usize).wrapping_mul(f.pf.depth().max(1));
                let x = hostile_stride(r, row, h as usize);
                let n = f.planes.min(4) as usize;
                let s = if src { &mut c.ss } else { &mut c.ds };
                let v = s.get_or_insert_with(|| vec![0; n]);
                if !v.is_empty() {
                    let i = r.us(v.len());
                    v[i] = x;
                }
            }
            10 => {
                // narrow strides with buffers that fit them exactly
                let l = layout(&f, w & !1, h & !1, None);
                if w > 1 && h > 1 && f.pf_cs_match() && f.pf.planes_ok(f.planes) {
                    let v: Vec<usize> = (0..f.planes as usize)
                        .map(|i| {
                            let row = l.iter().find(|p| p.buf == i).unwrap().row as usize;
                            match r.below(4) {
                                0 => r.range(1, 4),
                                1 => row.saturating_sub(r.range(1, 4)).max(1),
                                _ => r.range(1, row.max(1)),
                            }
                        })
                        .collect();
                    if f.size_ok(w, h) {
                        let m = min_lens(&f, w, h, Some(&v));
                        let lens: Vec<usize> = m.iter().map(|x| *x as usize).collect();
                        if src {
                            c.ss = Some(v);
                            c.slens = lens;
                        } else {
                            c.ds = Some(v);
                            c.dlens = lens;
                        }
                    }
                }
            }
            11 => {
                let p = any_planes(r, f.pf);
                if src {
                    c.src.planes = p;
                } else {
                    c.dst.planes = p;
                }
            }
            12 => {
                let x = *r.pick(&CSS);
                if src {
                    c.src.cs = x;
                } else {
                    c.dst.cs = x;
                }
            }
            13 => {
                let x = *r.pick(&PFS);
                if src {
                    c.src.pf = x;
                } else {
                    c.dst.pf = x;
                }
            }
            14 => c.w = if r.chance(1, 2) { any_dim(r) } else { c.w ^ 1 },
            _ => c.h = if r.chance(1, 2) { any_dim(r) } else { c.h ^ 1 },
        }
    }
    c.splace = c.slens.iter().map(|_| place(r)).collect();
    c.dplace = c.dlens.iter().map(|_| place(r)).collect();
    c
}
