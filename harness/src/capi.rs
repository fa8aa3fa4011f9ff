//! C12: the C interface, called through a shim compiled against the public header.
use crate::arena::{Arena, Buf, Place, CANARY};
use crate::case::*;
use crate::checks::{arena, cfg};
use crate::fault;
use crate::fmt::*;
use crate::gen;
use crate::rng::Rng;
use crate::run::*;
use crate::ledger::live;

type R = Result<(), String>;

extern "C" {
    fn shim_pixel_format(i: i32) -> i32;
    fn shim_color_space(i: i32) -> i32;
    fn shim_constant(i: i32) -> i32;
    fn shim_format(out: *mut u8, pf: i32, cs: i32, planes: u32);
    fn shim_convert(
        w: u32,
        h: u32,
        sf: *const u8,
        ss: *const usize,
        sb: *const *const u8,
        df: *const u8,
        ds: *const usize,
        db: *const *mut u8,
        err: *mut u8,
    ) -> i32;
    fn shim_sizes(w: u32, h: u32, f: *const u8, s: *const usize, out: *mut usize, err: *mut u8) -> i32;
    fn shim_error(err: *const u8) -> i32;
    fn shim_describe() -> *mut i8;
    fn shim_unref(s: *mut i8);
}

// ------------------------------------------------------------------ C level calls
fn words(a: &mut Arena, v: &[usize]) -> Buf {
    const WORD: usize = std::mem::size_of::<usize>();
    let b = a.take(v.len() * WORD, Place::End(0));
    for (i, x) in v.iter().enumerate() {
        b.slice_mut()[WORD * i..WORD * i + WORD].copy_from_slice(&x.to_ne_bytes());
    }
    b
}

const UNTOUCHED: [u8; 4] = [0x5A, 0xC3, 0x96, 0x7E];

/// A format argument: raw enum values, so that foreign ones can be expressed
#[derive(Clone, Copy, Debug)]
struct Raw {
    pf: i32,
    cs: i32,
    planes: u32,
}
fn raw(f: &Fmt) -> Raw {
    unsafe { Raw { pf: shim_pixel_format(f.pf as i32), cs: shim_color_space(f.cs as i32), planes: f.planes } }
}
fn format(a: &mut Arena, f: &Raw) -> Buf {
    let n = unsafe { shim_constant(6) } as usize;
    let b = a.take(n, Place::End(0));
    unsafe { shim_format(b.ptr, f.pf, f.cs, f.planes) };
    b
}

/// Result of a C call: the Res of success, or the one reported in the error variable (None if no
/// error variable was given)
fn outcome(r: i32, err: Option<&Buf>) -> Result<Option<Res>, String> {
    let e = err.map(|b| (b.slice().to_vec(), unsafe { shim_error(b.ptr) }));
    match r {
        0 => match e {
            Some((v, _)) if v != UNTOUCHED => Err("error variable written by a successful call".into()),
            _ => Ok(Some(Res::Ok)),
        },
        1 => match e {
            None => Ok(None),
            Some((_, 0)) => Ok(Some(Res::InvalidValue)),
            Some((_, 1)) => Ok(Some(Res::InvalidOperation)),
            Some((_, 2)) => Ok(Some(Res::NotEnoughData)),
            Some((v, _)) => Err(format!("failed call left error variable {v:?}")),
        },
        _ => Err("returned value is not a DcpResult".into()),
    }
}

fn agrees(got: Option<Res>, want: Res) -> bool {
    match got {
        Some(r) => r == want,
        None => want != Res::Ok,
    }
}

#[derive(Clone, Debug)]
struct CArgs {
    w: u32,
    h: u32,
    sf: Raw,
    df: Raw,
    ss: Option<Vec<usize>>,
    ds: Option<Vec<usize>>,
    null_sf: bool,
    null_df: bool,
    null_sb: bool,
    null_db: bool,
    err: bool,
}

/// The call, its argument arrays fenced (exactly as long as given) and read-only
fn c_convert(a: &mut Arena, c: &CArgs, sb: &[usize], db: &[usize]) -> Result<Option<Res>, String> {
    let first = a.used();
    let bufs = [
        format(a, &c.sf),
        format(a, &c.df),
        words(a, c.ss.as_deref().unwrap_or(&[])),
        words(a, c.ds.as_deref().unwrap_or(&[])),
        words(a, sb),
        words(a, db),
    ];
    // write protection for one call in sixteen (it serialises threads), comparison for the others
    let protect = !a.heap && (c.w ^ c.h ^ c.sf.planes ^ first as u32 ^ sb.first().map_or(0, |x| (x >> 4) as u32)) % 16 == 0;
    let before: Vec<Vec<u8>> = bufs.iter().map(|b| b.slice().to_vec()).collect();
    if protect {
        for i in 0..bufs.len() {
            a.region(first + i).protect(true);
        }
    }
    let err = a.take(4, Place::End(0));
    err.slice_mut().copy_from_slice(&UNTOUCHED);
    let p = |b: &Buf, null: bool| if null { std::ptr::null_mut() } else { b.ptr };
    let r = fault::in_call(|| unsafe {
        shim_convert(
            c.w,
            c.h,
            p(&bufs[0], c.null_sf),
            p(&bufs[2], c.ss.is_none()).cast(),
            p(&bufs[4], c.null_sb).cast::<*const u8>().cast_const(),
            p(&bufs[1], c.null_df),
            p(&bufs[3], c.ds.is_none()).cast(),
            p(&bufs[5], c.null_db).cast::<*mut u8>().cast_const(),
            p(&err, !c.err),
        )
    });
    if protect {
        for i in 0..bufs.len() {
            a.region(first + i).protect(false);
        }
    }
    let res = outcome(r, c.err.then_some(&err));
    let changed = bufs.iter().zip(&before).position(|(b, v)| b.slice() != &v[..]);
    let torn = err.damaged().or_else(|| bufs.iter().find_map(Buf::damaged));
    err.release();
    for b in bufs {
        b.release();
    }
    if let Some(i) = changed {
        return Err(format!("input argument array {i} was written"));
    }
    if let Some(o) = torn {
        return Err(format!("byte {o} next to an argument array was written"));
    }
    res
}

/// Buffers and arrays with exactly as many entries as planes
pub fn exact(c: &mut Case) {
    let n = |f: &Fmt| f.planes as usize;
    c.slens.truncate(n(&c.src));
    c.splace.truncate(n(&c.src));
    c.dlens.truncate(n(&c.dst));
    c.dplace.truncate(n(&c.dst));
    if let Some(s) = &mut c.ss {
        s.truncate(n(&c.src));
    }
    if let Some(s) = &mut c.ds {
        s.truncate(n(&c.dst));
    }
}

/// One conversion through the C interface, allocating nothing here
pub fn convert_plainly(c: &Case, src: &[Buf], dst: &[Buf]) -> i32 {
    let (mut f, mut d) = ([0u8; 64], [0u8; 64]);
    let (a, b) = (raw(&c.src), raw(&c.dst));
    let mut sp = [std::ptr::null(); 8];
    let mut dp = [std::ptr::null_mut(); 8];
    for (p, b) in sp.iter_mut().zip(src) {
        *p = b.ptr.cast_const();
    }
    for (p, b) in dp.iter_mut().zip(dst) {
        *p = b.ptr;
    }
    let s = c.ss.as_ref().map_or(std::ptr::null(), |v| v.as_ptr());
    let t = c.ds.as_ref().map_or(std::ptr::null(), |v| v.as_ptr());
    unsafe {
        shim_format(f.as_mut_ptr(), a.pf, a.cs, a.planes);
        shim_format(d.as_mut_ptr(), b.pf, b.cs, b.planes);
        shim_convert(c.w, c.h, f.as_ptr(), s, sp.as_ptr(), d.as_ptr(), t, dp.as_ptr(), std::ptr::null_mut())
    }
}

pub fn describe_and_release() {
    unsafe { shim_unref(shim_describe()) }
}

pub fn c12(o: &Opts, rep: &mut Report) {
    // ---- constants and layout
    par(o, rep, 1001, 1, || (), |_, _, (), st| {
        let chk = |what: &str, got: i64, want: i64| -> R {
            if got == want {
                return Ok(());
            }
            Err(format!("{what}: C header has {got}, library has {want}"))
        };
        unsafe {
            for (i, p) in PFS.iter().enumerate() {
                chk(&format!("{p:?}"), i64::from(shim_pixel_format(i as i32)), p.lib() as i64)?;
                st.evaluations += 1;
            }
            for (i, c) in CSS.iter().enumerate() {
                chk(&format!("{c:?}"), i64::from(shim_color_space(i as i32)), c.lib() as i64)?;
                st.evaluations += 1;
            }
            chk("LRGB", i64::from(shim_color_space(5)), Cs::Rgb.lib() as i64)?;
            use dcv_color_primitives::ErrorKind as E;
            chk("invalid value", i64::from(shim_constant(2)), E::InvalidValue as i64)?;
            chk("invalid operation", i64::from(shim_constant(3)), E::InvalidOperation as i64)?;
            chk("not enough data", i64::from(shim_constant(4)), E::NotEnoughData as i64)?;
            chk("stride auto", i64::from(shim_constant(5)), i64::from(dcv_color_primitives::STRIDE_AUTO == 0))?;
            chk("format size", i64::from(shim_constant(6)), std::mem::size_of::<dcv_color_primitives::ImageFormat>() as i64)?;
            chk("error size", i64::from(shim_constant(7)), std::mem::size_of::<E>() as i64)?;
            let f = dcv_color_primitives::ImageFormat {
                pixel_format: Pf::Nv12.lib(),
                color_space: Cs::Bt709FR.lib(),
                num_planes: 0x0102_0304,
            };
            let mut b = [0u8; 64];
            shim_format(b.as_mut_ptr(), shim_pixel_format(8), shim_color_space(4), 0x0102_0304);
            let n = std::mem::size_of_val(&f);
            let fb = std::slice::from_raw_parts(std::ptr::addr_of!(f).cast::<u8>(), n);
            if fb != &b[..n] {
                return Err(format!("image format structure: C has {:?}, Rust has {fb:?}", &b[..n]));
            }
        }
        st.count("abi_constants", 22);
        Ok(())
    });

    // ---- same image through both interfaces
    let differential = |c: &Case, err: bool, a: &mut Arena, st: &mut Stats| -> R {
        st.evaluations += 1;
        st.distinct.insert(c.sig());
        if st.samples.len() < 2 && st.evaluations % 97 == 1 {
            st.samples.push(c.describe());
        }
        let bad = |m: String| -> R { Err(format!("{m} | {}", c.describe())) };
        let e = execute(c, a);
        let rust: Vec<Vec<u8>> = e.dst.iter().map(|b| b.slice().to_vec()).collect();
        if e.res != Ok(Res::Ok) {
            return bad(format!("safe interface returned {:?}", e.res));
        }
        fill_dst(c, &e.dst);
        let args = CArgs {
            w: c.w,
            h: c.h,
            sf: raw(&c.src),
            df: raw(&c.dst),
            ss: c.ss.clone(),
            ds: c.ds.clone(),
            null_sf: false,
            null_df: false,
            null_sb: false,
            null_db: false,
            err,
        };
        let ptrs = |b: &[Buf]| -> Vec<usize> { b.iter().map(|b| b.ptr as usize).collect() };
        let got = c_convert(a, &args, &ptrs(&e.src), &ptrs(&e.dst));
        match got {
            Err(m) => return bad(m),
            Ok(r) if !agrees(r, Res::Ok) => return bad(format!("C interface returned {r:?}, safe interface Ok")),
            _ => {}
        }
        for (i, (b, r)) in e.dst.iter().zip(&rust).enumerate() {
            if let Some(k) = (0..b.len).find(|k| b.slice()[*k] != r[*k]) {
                return bad(format!(
                    "byte {k} of destination buffer {i}: C interface wrote {}, safe interface {}",
                    b.slice()[k], r[k]
                ));
            }
            if let Some(x) = b.damaged() {
                return bad(format!("byte at offset {x} of destination buffer {i} was written"));
            }
        }
        st.count("bytes_compared", rust.iter().map(|r| r.len() as u64).sum());
        e.release();
        Ok(())
    };
    let g = cfg(o);
    par(o, rep, 2, 40_000, || arena(o), |_, r, a, st| {
        let mut c = gen::valid(r, &g);
        exact(&mut c);
        differential(&c, r.chance(3, 4), a, st)
    });

    // ---- calls that must be refused: arrays fenced, planes inaccessible
    let nowhere = crate::arena::Region::new(1 << 20);
    nowhere.forbid();
    let hole = nowhere.start() as usize;
    par(o, rep, 3, 400_000, || arena(o), |_, r, a, st| {
        let c0 = loop {
            let mut c = gen::valid(r, &g);
            if c.w > 0 && c.h > 0 {
                exact(&mut c);
                break c;
            }
        };
        let mut c = CArgs {
            w: c0.w,
            h: c0.h,
            sf: raw(&c0.src),
            df: raw(&c0.dst),
            ss: c0.ss.clone(),
            ds: c0.ds.clone(),
            null_sf: false,
            null_df: false,
            null_sb: false,
            null_db: false,
            err: r.chance(4, 5),
        };
        a.reset();
        let foreign = |r: &mut Rng, n: i32| -> i32 {
            match r.below(8) {
                0 => n,
                1 => n + r.below(4) as i32,
                2 => -1 - r.below(4) as i32,
                3 => i32::MIN + r.below(10) as i32,
                4 => i32::MAX - r.below(3) as i32,
                // values that look valid when narrowed to 8 or 16 bits
                5 => 256 * (1 + r.below(100) as i32) + r.below(n as u64) as i32,
                6 => 65536 * (1 + r.below(100) as i32) + r.below(n as u64) as i32,
                _ => (r.u64() as i32).saturating_abs().max(n),
            }
        };
        let mut want = Res::InvalidValue;
        let mut null_plane = None;
        let mut vague = false;
        let kind = r.below(14);
        match kind {
            0 => c.null_sf = true,
            1 => c.null_df = true,
            2 => c.null_sb = true,
            3 => c.null_db = true,
            4 => c.sf.pf = foreign(r, 9),
            5 => c.df.pf = foreign(r, 9),
            6 => c.sf.cs = foreign(r, 5),
            7 => c.df.cs = foreign(r, 5),
            8 | 9 => {
                let f = if kind == 8 { &c0.src } else { &c0.dst };
                let p = loop {
                    let p = match r.below(4) {
                        0 => r.below(8) as u32,
                        1 => *r.pick(&[u32::MAX, 1 << 31, (1 << 31) + 1, 65536, 65537, 65539, 256, 257, 258, 259]),
                        _ => r.u64() as u32,
                    };
                    if !f.pf.planes_ok(p) {
                        break p;
                    }
                };
                if kind == 8 {
                    c.sf.planes = p;
                } else {
                    c.df.planes = p;
                }
            }
            10 => null_plane = Some((r.chance(1, 2), r.us(3))),
            11 => {
                // color space of the other family
                let other = if c0.src.pf.is_rgb() { Cs::Bt601 } else { Cs::Rgb };
                c.sf.cs = raw(&Fmt::new(c0.src.pf, other, 1)).cs;
            }
            12 => {
                // pair without a conversion, or size violations
                let (s, d) = loop {
                    let (s, d) = (*r.pick(&PFS), *r.pick(&PFS));
                    if !supported(s, d) {
                        break (s, d);
                    }
                };
                let (sf, df) = gen::fmts(r, s, d);
                c.sf = raw(&sf);
                c.df = raw(&df);
                vague = s == Pf::I422 && sf.planes == 1 || d == Pf::I422 && df.planes == 1;
                c.w = 1 + r.below(9) as u32;
                c.h = 1 + r.below(9) as u32;
                let n = |f: &Fmt, v: &mut Option<Vec<usize>>| {
                    if let Some(v) = v {
                        v.resize(f.planes as usize, 0);
                    }
                };
                n(&sf, &mut c.ss);
                n(&df, &mut c.ds);
                want = predict(c.w, c.h, &sf, None, &[0; 3], &df, None, &[0; 3]).unwrap();
                if want != Res::InvalidValue {
                    want = Res::InvalidOperation;
                }
            }
            _ => {
                // a stride no buffer can satisfy, with planes that must stay untouched
                let src = r.chance(1, 2);
                let (f, s) = if src { (&c0.src, &mut c.ss) } else { (&c0.dst, &mut c.ds) };
                let n = f.planes as usize;
                let v = s.get_or_insert_with(|| vec![0; n]);
                let i = r.us(n);
                let x = gen::hostile_stride(r, c0.w as usize * 4, c0.h as usize);
                v[i] = x;
                let big = vec![isize::MAX as usize; 3];
                match predict(c.w, c.h, &c0.src, c.ss.as_deref(), &big, &c0.dst, c.ds.as_deref(), &big) {
                    Some(Res::NotEnoughData) => want = Res::NotEnoughData,
                    // the call would run: give it a null plane instead
                    _ => null_plane = Some((r.chance(1, 2), 0)),
                }
            }
        }
        // plane pointers lead nowhere
        let mut sb: Vec<usize> = (0..c.sf.planes.min(3)).map(|i| hole + 4096 * i as usize).collect();
        let mut db: Vec<usize> = (0..c.df.planes.min(3)).map(|i| hole + 65536 + 4096 * i as usize).collect();
        if let Some((src, i)) = null_plane {
            let v = if src { &mut sb } else { &mut db };
            let n = v.len();
            v[i % n] = 0;
        }
        let trim = |v: &mut Option<Vec<usize>>, n: u32| {
            if let Some(v) = v {
                v.truncate(n.min(3) as usize);
            }
        };
        trim(&mut c.ss, c.sf.planes);
        trim(&mut c.ds, c.df.planes);
        let got = c_convert(a, &c, &sb, &db);
        st.evaluations += 1;
        st.count(
            ["null_source_format", "null_destination_format", "null_source_array", "null_destination_array",
             "foreign_source_format", "foreign_destination_format", "foreign_source_space", "foreign_destination_space",
             "source_planes", "destination_planes", "null_plane", "wrong_family", "unsupported", "unsatisfiable_stride"]
             [kind as usize],
            1,
        );
        let mut sig = kind;
        for x in [c.sf.pf, c.sf.cs, c.df.pf, c.df.cs, c.sf.planes.min(9) as i32, c.df.planes.min(9) as i32, i32::from(c.err)] {
            sig = crate::rng::mix(sig ^ i64::from(x) as u64);
        }
        st.distinct.insert(sig);
        match got {
            Err(m) => Err(format!("{m} | {c:?}")),
            Ok(r) if !vague && !agrees(r, want) => Err(format!("C interface returned {r:?}, expected {want:?} | {c:?}")),
            _ => Ok(()),
        }
    });

    // ---- size queries
    par(o, rep, 4, 400_000, || arena(o), |_, r, a, st| {
        a.reset();
        let (f, w, h, s, _) = crate::checks::any_query(r);
        let mut rw = raw(&f);
        let kind = r.below(8);
        let n = f.planes.min(3) as usize;
        let s = s.map(|mut v| {
            v.resize(n, 0);
            v
        });
        let mut want = {
            let mut out = vec![0x5AA5_usize; n];
            let q = query(w, h, &f, s.as_deref(), &mut out).map_err(|m| format!("panic: {m}"))?;
            (q, out)
        };
        let (mut null_f, mut null_out) = (false, false);
        match kind {
            0 => null_f = true,
            1 => null_out = true,
            2 => rw.pf = *r.pick(&[9, 10, -1, i32::MAX, i32::MIN, 256, 264, 65536, 0x0100_0001]),
            _ => {}
        }
        if kind < 3 {
            want = (Res::InvalidValue, vec![0x5AA5; n]);
        }
        let first = a.used();
        let bufs = [format(a, &rw), words(a, s.as_deref().unwrap_or(&[]))];
        let ro = !a.heap && r.chance(1, 16);
        if ro {
            a.region(first).protect(true);
            a.region(first + 1).protect(true);
        }
        let out = words(a, &vec![0x5AA5; n]);
        let err = a.take(4, Place::End(0));
        err.slice_mut().copy_from_slice(&UNTOUCHED);
        let with_err = r.chance(4, 5);
        let p = |b: &Buf, null: bool| if null { std::ptr::null_mut() } else { b.ptr };
        let ret = fault::in_call(|| unsafe {
            shim_sizes(w, h, p(&bufs[0], null_f), p(&bufs[1], s.is_none()).cast(), p(&out, null_out).cast(), p(&err, !with_err))
        });
        if ro {
            a.region(first).protect(false);
            a.region(first + 1).protect(false);
        }
        let res = outcome(ret, with_err.then_some(&err));
        let now: Vec<usize> = out.slice().chunks(std::mem::size_of::<usize>()).map(|c| usize::from_ne_bytes(c.try_into().unwrap())).collect();
        st.evaluations += 1;
        st.count("size_queries", 1);
        let what = || format!("{w}x{h} {rw:?} strides {s:?} null format {null_f} null output {null_out}");
        let bad = if err.damaged().is_some() || out.damaged().is_some() || bufs.iter().any(|b| b.damaged().is_some()) {
            Err(format!("memory next to an argument was written | {}", what()))
        } else {
            match res {
                Err(m) => Err(format!("{m} | {}", what())),
                Ok(r) if !agrees(r, want.0) => Err(format!("C query returned {r:?}, safe query {:?} | {}", want.0, what())),
                Ok(Some(Res::Ok)) if now != want.1 => Err(format!("C query gave {now:?}, safe query {:?} | {}", want.1, what())),
                Ok(Some(Res::InvalidValue)) if now.iter().any(|x| *x != 0x5AA5) => {
                    Err(format!("rejected query changed the sizes | {}", what()))
                }
                _ => Ok(()),
            }
        };
        err.release();
        out.release();
        for b in bufs {
            b.release();
        }
        bad
    });

    // ---- strings: histories of describe and unref
    let text = dcv_color_primitives::describe_acceleration();
    par(o, rep, 5, 20_000, || (), |_, r, (), st| {
        let mut strings = 0;
        let mut held: Vec<*mut i8> = Vec::with_capacity(64);
        let mut mem = Vec::with_capacity(64);
        // first uses may keep something
        fault::in_call(|| unsafe { shim_unref(shim_describe()) });
        let base = live();
        let per = {
            let p = fault::in_call(|| unsafe { shim_describe() });
            let l = live();
            fault::in_call(|| unsafe { shim_unref(p) });
            (l.0 - base.0, l.1 - base.1)
        };
        if live() != base {
            return Err(format!("description string not released: {:?} -> {:?}", base, live()));
        }
        let n = r.range(1, 40);
        for _ in 0..n {
            if held.len() < 60 && (held.is_empty() || r.chance(1, 2)) {
                let p = fault::in_call(|| unsafe { shim_describe() });
                if p.is_null() {
                    return Err("null description".into());
                }
                let s = unsafe { std::ffi::CStr::from_ptr(p.cast()) }.to_bytes();
                if s != text.as_bytes() {
                    return Err(format!("C description {:?}, safe description {text:?}", String::from_utf8_lossy(s)));
                }
                if held.contains(&p) {
                    return Err("the same string was handed out twice".into());
                }
                // the caller owns it: scribble
                if r.chance(1, 2) {
                    unsafe { *p = b'#' as i8 };
                    mem.push(b'#');
                } else {
                    mem.push(s[0]);
                }
                held.push(p);
                strings += 1;
            } else {
                let i = r.us(held.len());
                let p = held.swap_remove(i);
                let first = mem.swap_remove(i);
                let s = unsafe { std::ffi::CStr::from_ptr(p.cast()) }.to_bytes();
                if s[0] != first || s[1..] != text.as_bytes()[1..] {
                    return Err("a held string changed".into());
                }
                fault::in_call(|| unsafe { shim_unref(p) });
            }
            if r.chance(1, 8) {
                fault::in_call(|| unsafe { shim_unref(std::ptr::null_mut()) });
            }
            let k = held.len() as i64;
            let l = live();
            if (l.0 - base.0, l.1 - base.1) != (per.0 * k, per.1 * k) {
                return Err(format!("{k} strings held, {} allocations ({} bytes) live", l.0 - base.0, l.1 - base.1));
            }
            st.evaluations += 1;
        }
        for p in held.drain(..) {
            fault::in_call(|| unsafe { shim_unref(p) });
        }
        if live() != base {
            return Err(format!("strings leak: {:?} -> {:?}", base, live()));
        }
        st.count("strings", strings);
        st.distinct.insert(n as u64);
        Ok(())
    });
    // conversions must not leak either: memory held grows with each repetition
    par(o, rep, 6, 20_000, || arena(o), |_, r, a, st| {
        let mut c = gen::valid(r, &g);
        exact(&mut c);
        let e = execute(&c, a);
        let mut held = [(0, 0); 5];
        let mut ret = 0;
        for l in &mut held {
            ret |= fault::in_call(|| convert_plainly(&c, &e.src, &e.dst));
            *l = live();
        }
        st.evaluations += 1;
        st.count("leak_watched_conversions", 1);
        if ret != 0 {
            return Err(format!("C interface failed, safe interface Ok | {}", c.describe()));
        }
        if held.windows(2).all(|w| w[1].0 > w[0].0 || w[1].1 > w[0].1) {
            return Err(format!("each repetition of a conversion left memory behind: {held:?} | {}", c.describe()));
        }
        e.release();
        Ok(())
    });
    let _ = CANARY;
}
