//! Independent description of formats, layouts and validation rules (taken from the documentation).
use dcv_color_primitives::{ColorSpace, ImageFormat, PixelFormat};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Pf {
    Argb,
    Bgra,
    Bgr,
    Rgba,
    Rgb,
    I444,
    I422,
    I420,
    Nv12,
}
pub const PFS: [Pf; 9] = [
    Pf::Argb,
    Pf::Bgra,
    Pf::Bgr,
    Pf::Rgba,
    Pf::Rgb,
    Pf::I444,
    Pf::I422,
    Pf::I420,
    Pf::Nv12,
];

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Cs {
    Rgb,
    Bt601,
    Bt709,
    Bt601FR,
    Bt709FR,
}
pub const CSS: [Cs; 5] = [Cs::Rgb, Cs::Bt601, Cs::Bt709, Cs::Bt601FR, Cs::Bt709FR];
pub const YUV_CS: [Cs; 4] = [Cs::Bt601, Cs::Bt709, Cs::Bt601FR, Cs::Bt709FR];

impl Pf {
    pub fn is_rgb(self) -> bool {
        self <= Pf::Rgb
    }
    /// Bytes per pixel of packed formats
    pub fn depth(self) -> usize {
        match self {
            Pf::Argb | Pf::Bgra | Pf::Rgba => 4,
            Pf::Bgr | Pf::Rgb => 3,
            _ => 0,
        }
    }
    /// Byte offsets of r, g, b and optionally alpha
    pub fn offsets(self) -> (usize, usize, usize, Option<usize>) {
        match self {
            Pf::Argb => (1, 2, 3, Some(0)),
            Pf::Bgra => (2, 1, 0, Some(3)),
            Pf::Bgr => (2, 1, 0, None),
            Pf::Rgba => (0, 1, 2, Some(3)),
            Pf::Rgb => (0, 1, 2, None),
            _ => unreachable!(),
        }
    }
    pub fn even_w(self) -> bool {
        matches!(self, Pf::I422 | Pf::I420 | Pf::Nv12)
    }
    pub fn even_h(self) -> bool {
        matches!(self, Pf::I420 | Pf::Nv12)
    }
    pub fn is_420(self) -> bool {
        self.even_h()
    }
    pub fn planes_ok(self, n: u32) -> bool {
        match self {
            Pf::I444 | Pf::I422 | Pf::I420 => n == 3,
            Pf::Nv12 => n == 1 || n == 2,
            _ => n == 1,
        }
    }
    pub fn lib(self) -> PixelFormat {
        match self {
            Pf::Argb => PixelFormat::Argb,
            Pf::Bgra => PixelFormat::Bgra,
            Pf::Bgr => PixelFormat::Bgr,
            Pf::Rgba => PixelFormat::Rgba,
            Pf::Rgb => PixelFormat::Rgb,
            Pf::I444 => PixelFormat::I444,
            Pf::I422 => PixelFormat::I422,
            Pf::I420 => PixelFormat::I420,
            Pf::Nv12 => PixelFormat::Nv12,
        }
    }
}

impl Cs {
    pub fn lib(self) -> ColorSpace {
        match self {
            Cs::Rgb => ColorSpace::Rgb,
            Cs::Bt601 => ColorSpace::Bt601,
            Cs::Bt709 => ColorSpace::Bt709,
            Cs::Bt601FR => ColorSpace::Bt601FR,
            Cs::Bt709FR => ColorSpace::Bt709FR,
        }
    }
    pub fn full(self) -> bool {
        matches!(self, Cs::Bt601FR | Cs::Bt709FR)
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub struct Fmt {
    pub pf: Pf,
    pub cs: Cs,
    pub planes: u32,
}
impl Fmt {
    pub fn new(pf: Pf, cs: Cs, planes: u32) -> Self {
        Fmt { pf, cs, planes }
    }
    pub fn default_planes(pf: Pf) -> u32 {
        match pf {
            Pf::I444 | Pf::I422 | Pf::I420 => 3,
            Pf::Nv12 => 2,
            _ => 1,
        }
    }
    pub fn lib(&self) -> ImageFormat {
        ImageFormat {
            pixel_format: self.pf.lib(),
            color_space: self.cs.lib(),
            num_planes: self.planes,
        }
    }
    pub fn pf_cs_match(&self) -> bool {
        self.pf.is_rgb() == (self.cs == Cs::Rgb)
    }
    pub fn size_ok(&self, w: u32, h: u32) -> bool {
        (!self.pf.even_w() || w % 2 == 0) && (!self.pf.even_h() || h % 2 == 0)
    }
}

/// Documented table of conversions (pixel formats)
pub fn supported(src: Pf, dst: Pf) -> bool {
    matches!(
        (src, dst),
        (Pf::Argb | Pf::Bgra | Pf::Bgr, Pf::I420 | Pf::I444 | Pf::Nv12)
            | (Pf::Bgra | Pf::Bgr, Pf::Rgb)
            | (Pf::Rgb, Pf::Bgra)
            | (Pf::I420 | Pf::I444, Pf::Bgra | Pf::Rgba)
            | (Pf::Nv12, Pf::Bgra | Pf::Rgb | Pf::Rgba)
    )
}

pub fn pairs() -> Vec<(Pf, Pf)> {
    let mut v = vec![];
    for s in PFS {
        for d in PFS {
            if supported(s, d) {
                v.push((s, d));
            }
        }
    }
    v
}

/// One logical component plane stored in a buffer: `rows` rows of `row` bytes
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Plane {
    pub buf: usize,
    pub off: u128,
    pub stride: u128,
    pub row: u128,
    pub rows: u128,
}
impl Plane {
    /// Bytes needed in the buffer so that all visible rows are inside
    pub fn end(&self) -> u128 {
        self.off + self.stride * (self.rows - 1) + self.row
    }
}

fn st(strides: Option<&[usize]>, i: usize, def: u128) -> u128 {
    match strides {
        Some(s) if s[i] != 0 => s[i] as u128,
        _ => def,
    }
}

/// Stored planes of an image (width and height must be nonzero and valid, strides sufficient in number)
pub fn layout(f: &Fmt, w: u32, h: u32, strides: Option<&[usize]>) -> Vec<Plane> {
    let (w, h) = (u128::from(w), u128::from(h));
    let mk = |buf, off, stride, row, rows| Plane { buf, off, stride, row, rows };
    match f.pf {
        Pf::I444 => (0..3).map(|i| mk(i, 0, st(strides, i, w), w, h)).collect(),
        Pf::I422 => (0..3)
            .map(|i| {
                let r = if i == 0 { w } else { w / 2 };
                mk(i, 0, st(strides, i, r), r, h)
            })
            .collect(),
        Pf::I420 => (0..3)
            .map(|i| {
                let (r, n) = if i == 0 { (w, h) } else { (w / 2, h / 2) };
                mk(i, 0, st(strides, i, r), r, n)
            })
            .collect(),
        Pf::Nv12 => {
            if f.planes == 2 {
                vec![
                    mk(0, 0, st(strides, 0, w), w, h),
                    mk(1, 0, st(strides, 1, w), w, h / 2),
                ]
            } else {
                let s = st(strides, 0, w);
                vec![mk(0, 0, s, w, h), mk(0, s * h, s, w, h / 2)]
            }
        }
        _ => {
            let r = w * f.pf.depth() as u128;
            vec![mk(0, 0, st(strides, 0, r), r, h)]
        }
    }
}

/// Minimum length of each buffer
pub fn min_lens(f: &Fmt, w: u32, h: u32, strides: Option<&[usize]>) -> Vec<u128> {
    let l = layout(f, w, h, strides);
    let mut v = vec![0; f.planes as usize];
    for p in l {
        v[p.buf] = v[p.buf].max(p.end());
    }
    v
}

/// Sizes the size query is documented to return (stride times rows, per buffer)
pub fn query_sizes(f: &Fmt, w: u32, h: u32, strides: Option<&[usize]>) -> Vec<u128> {
    let l = layout(f, w, h, strides);
    let mut v = vec![0; f.planes as usize];
    for p in l {
        v[p.buf] += p.stride * p.rows;
    }
    v
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Res {
    Ok,
    InvalidValue,
    InvalidOperation,
    NotEnoughData,
}
impl Res {
    pub fn of(r: &Result<(), dcv_color_primitives::ErrorKind>) -> Res {
        use dcv_color_primitives::ErrorKind::*;
        match r {
            Ok(()) => Res::Ok,
            Err(InvalidValue) => Res::InvalidValue,
            Err(InvalidOperation) => Res::InvalidOperation,
            Err(NotEnoughData) => Res::NotEnoughData,
        }
    }
}

/// Outcome required by the documentation. `None`: strides narrower than a row, any clean outcome
pub fn predict(
    w: u32,
    h: u32,
    sf: &Fmt,
    ss: Option<&[usize]>,
    slens: &[usize],
    df: &Fmt,
    ds: Option<&[usize]>,
    dlens: &[usize],
) -> Option<Res> {
    let fmt_ok = |f: &Fmt| f.pf_cs_match() && f.pf.planes_ok(f.planes) && f.size_ok(w, h);
    // the documentation contradicts itself about single-plane I422
    let vague = |f: &Fmt| f.pf == Pf::I422 && f.planes == 1;
    if vague(sf) || vague(df) {
        return None;
    }
    if !fmt_ok(sf) || !fmt_ok(df) {
        return Some(Res::InvalidValue);
    }
    if !supported(sf.pf, df.pf) {
        return Some(Res::InvalidOperation);
    }
    if w == 0 || h == 0 {
        return Some(Res::Ok);
    }
    let mut narrow = false;
    for (f, s, lens) in [(sf, ss, slens), (df, ds, dlens)] {
        let n = f.planes as usize;
        if s.map_or(false, |s| s.len() < n) || lens.len() < n {
            return Some(Res::NotEnoughData);
        }
        narrow |= layout(f, w, h, s).iter().any(|p| p.stride < p.row);
    }
    if narrow {
        return None;
    }
    for (f, s, lens) in [(sf, ss, slens), (df, ds, dlens)] {
        if min_lens(f, w, h, s).iter().zip(lens).any(|(m, l)| (*l as u128) < *m) {
            return Some(Res::NotEnoughData);
        }
    }
    Some(Res::Ok)
}
