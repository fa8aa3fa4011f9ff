//! Integer-exact evaluation of the real-valued ITU-R formulas, in units of 1/S of a code value.
use crate::fmt::*;

pub const S: i64 = 1 << 36;

fn fx(x: f64) -> i64 {
    (x * S as f64).round() as i64
}

/// Forward matrix rows (r, g, b, offset) for y, cb, cr
#[derive(Clone, Copy)]
pub struct Fwd {
    pub m: [[i64; 4]; 3],
}
/// Backward: coefficients of (y, cb, cr) and offset for r, g, b
#[derive(Clone, Copy)]
pub struct Bwd {
    pub m: [[i64; 4]; 3],
}

fn kr_kb(cs: Cs) -> (f64, f64) {
    match cs {
        Cs::Bt601 | Cs::Bt601FR => (0.299, 0.114),
        Cs::Bt709 | Cs::Bt709FR => (0.2126, 0.0722),
        Cs::Rgb => unreachable!(),
    }
}

pub fn fwd(cs: Cs) -> Fwd {
    let (kr, kb) = kr_kb(cs);
    let kg = 1.0 - kr - kb;
    let (sy, sc, y0) = if cs.full() {
        (1.0, 1.0, 0.0)
    } else {
        (219.0 / 255.0, 224.0 / 255.0, 16.0)
    };
    let db = 2.0 * (1.0 - kb);
    let dr = 2.0 * (1.0 - kr);
    Fwd {
        m: [
            [fx(sy * kr), fx(sy * kg), fx(sy * kb), fx(y0)],
            [fx(-sc * kr / db), fx(-sc * kg / db), fx(sc * 0.5), fx(128.0)],
            [fx(sc * 0.5), fx(-sc * kg / dr), fx(-sc * kb / dr), fx(128.0)],
        ],
    }
}

pub fn bwd(cs: Cs) -> Bwd {
    let (kr, kb) = kr_kb(cs);
    let kg = 1.0 - kr - kb;
    let (sy, sc, y0) = if cs.full() {
        (1.0, 1.0, 0.0)
    } else {
        (255.0 / 219.0, 255.0 / 224.0, 16.0)
    };
    let b_cb = sc * 2.0 * (1.0 - kb);
    let r_cr = sc * 2.0 * (1.0 - kr);
    let g_cb = -b_cb * kb / kg;
    let g_cr = -r_cr * kr / kg;
    let off = |cb: f64, cr: f64| fx(-sy * y0 - 128.0 * (cb + cr));
    Bwd {
        m: [
            [fx(sy), 0, fx(r_cr), off(0.0, r_cr)],
            [fx(sy), fx(g_cb), fx(g_cr), off(g_cb, g_cr)],
            [fx(sy), fx(b_cb), 0, off(b_cb, 0.0)],
        ],
    }
}

#[inline(always)]
pub fn dot(m: &[i64; 4], a: i64, b: i64, c: i64) -> i64 {
    m[0] * a + m[1] * b + m[2] * c + m[3]
}
#[inline(always)]
pub fn clamp(x: i64) -> i64 {
    x.clamp(0, 255 * S)
}

/// |out - clamp(exact)| in units of 1/S
#[inline(always)]
pub fn err(out: u8, exact: i64) -> i64 {
    (i64::from(out) * S - clamp(exact)).abs()
}

pub const TOL_FWD: i64 = (S / 100) * 52;
pub const TOL_BWD: i64 = (S / 100) * 55;

pub struct Img<'a> {
    pub f: Fmt,
    pub lay: Vec<Plane>,
    pub bufs: Vec<&'a [u8]>,
}

impl<'a> Img<'a> {
    pub fn new(f: Fmt, w: u32, h: u32, strides: Option<&[usize]>, bufs: Vec<&'a [u8]>) -> Self {
        Img { f, lay: layout(&f, w, h, strides), bufs }
    }
    #[inline]
    fn at(&self, plane: usize, x: usize, y: usize) -> u8 {
        let p = &self.lay[plane];
        self.bufs[p.buf][p.off as usize + p.stride as usize * y + x]
    }
    pub fn rgb(&self, x: usize, y: usize) -> [u8; 3] {
        let d = self.f.pf.depth();
        let (r, g, b, _) = self.f.pf.offsets();
        [
            self.at(0, x * d + r, y),
            self.at(0, x * d + g, y),
            self.at(0, x * d + b, y),
        ]
    }
    pub fn alpha(&self, x: usize, y: usize) -> Option<u8> {
        let d = self.f.pf.depth();
        self.f.pf.offsets().3.map(|a| self.at(0, x * d + a, y))
    }
    pub fn luma(&self, x: usize, y: usize) -> u8 {
        self.at(0, x, y)
    }
    /// Chroma of sample position (cx, cy) in the chroma grid
    pub fn chroma(&self, cx: usize, cy: usize) -> [u8; 2] {
        match self.f.pf {
            Pf::Nv12 => [self.at(1, 2 * cx, cy), self.at(1, 2 * cx + 1, cy)],
            _ => [self.at(1, cx, cy), self.at(2, cx, cy)],
        }
    }
}

/// Check every visible sample of `dst` against the exact conversion of `src`
pub fn verify(src: &Img, dst: &Img, w: usize, h: usize) -> Result<(), String> {
    match (src.f.pf.is_rgb(), dst.f.pf.is_rgb()) {
        (true, true) => {
            for y in 0..h {
                for x in 0..w {
                    let (a, b) = (src.rgb(x, y), dst.rgb(x, y));
                    if a != b {
                        return Err(format!("pixel ({x},{y}): source rgb {a:?}, destination rgb {b:?}"));
                    }
                    check_alpha(dst, x, y)?;
                }
            }
        }
        (true, false) => {
            let f = fwd(dst.f.cs);
            let sub = dst.f.pf.is_420();
            for y in 0..h {
                for x in 0..w {
                    let [r, g, b] = src.rgb(x, y).map(i64::from);
                    let e = dot(&f.m[0], r, g, b);
                    let o = dst.luma(x, y);
                    if err(o, e) > TOL_FWD {
                        return Err(format!(
                            "luma ({x},{y}): rgb ({r},{g},{b}) -> {o}, exact {:.4}",
                            e as f64 / S as f64
                        ));
                    }
                    if !sub {
                        let c = dst.chroma(x, y);
                        for k in 0..2 {
                            let e = dot(&f.m[1 + k], r, g, b);
                            if err(c[k], e) > TOL_FWD {
                                return Err(format!(
                                    "chroma[{k}] ({x},{y}): rgb ({r},{g},{b}) -> {}, exact {:.4}",
                                    c[k],
                                    e as f64 / S as f64
                                ));
                            }
                        }
                    }
                }
            }
            if sub {
                for cy in 0..h / 2 {
                    for cx in 0..w / 2 {
                        let mut s = [0i64; 3];
                        for (dx, dy) in [(0, 0), (1, 0), (0, 1), (1, 1)] {
                            let p = src.rgb(2 * cx + dx, 2 * cy + dy);
                            for k in 0..3 {
                                s[k] += i64::from(p[k]);
                            }
                        }
                        let c = dst.chroma(cx, cy);
                        for k in 0..2 {
                            let m = &f.m[1 + k];
                            let e = (m[0] * s[0] + m[1] * s[1] + m[2] * s[2]) / 4 + m[3];
                            if err(c[k], e) > TOL_FWD {
                                return Err(format!(
                                    "chroma[{k}] block ({cx},{cy}): rgb sums {s:?} -> {}, exact {:.4}",
                                    c[k],
                                    e as f64 / S as f64
                                ));
                            }
                        }
                    }
                }
            }
        }
        (false, true) => {
            let m = bwd(src.f.cs);
            let sh = usize::from(src.f.pf.is_420());
            for y in 0..h {
                for x in 0..w {
                    let l = i64::from(src.luma(x, y));
                    let [u, v] = src.chroma(x >> sh, y >> sh).map(i64::from);
                    let o = dst.rgb(x, y);
                    for k in 0..3 {
                        let e = dot(&m.m[k], l, u, v);
                        if err(o[k], e) > TOL_BWD {
                            return Err(format!(
                                "{}({x},{y}): yuv ({l},{u},{v}) -> {}, exact {:.4}",
                                ["r", "g", "b"][k],
                                o[k],
                                e as f64 / S as f64
                            ));
                        }
                    }
                    check_alpha(dst, x, y)?;
                }
            }
        }
        _ => unreachable!(),
    }
    Ok(())
}

pub fn check_alpha(dst: &Img, x: usize, y: usize) -> Result<(), String> {
    match dst.alpha(x, y) {
        Some(a) if a != 255 => Err(format!("alpha of destination pixel ({x},{y}) is {a}")),
        _ => Ok(()),
    }
}
