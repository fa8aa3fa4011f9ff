//! Conversions under Valgrind's memcheck, told byte by byte what a call may touch: everything
//! around the slices is inaccessible, everything the destination held before is undefined, and
//! so is the memory the library gets for itself. Visible samples must be defined afterwards.
use crate::arena::{Arena, Buf, Place};
use crate::case::*;
use crate::checks::*;
use crate::fmt::*;
use crate::gen;
use crate::run::*;

const MC: usize = (b'M' as usize) << 24 | (b'C' as usize) << 16;

fn request(code: usize, a: usize, b: usize) -> usize {
    let args = [code, a, b, 0, 0, 0];
    let mut r = 0usize;
    unsafe {
        std::arch::asm!(
            "rol rdi, 3", "rol rdi, 13", "rol rdi, 61", "rol rdi, 51", "xchg rbx, rbx",
            in("rax") args.as_ptr(), inout("rdx") r,
        );
    }
    r
}
fn around(b: &Buf, code: usize) {
    let (lo, hi) = b.margins();
    request(MC + code, b.ptr as usize - lo, lo);
    request(MC + code, b.ptr as usize + b.len, hi);
}

pub fn vg(o: &Opts, rep: &mut Report) {
    if request(0x1001, 0, 0) == 0 {
        eprintln!("not under Valgrind");
        std::process::exit(2);
    }
    let cs = combos(o, false);
    let g = cfg(o);
    let acc = o.args.get("want").is_none_or(|x| x == "acc");
    par(o, rep, 1, 1500, || arena(o), |i, r, a: &mut Arena, st| {
        let hostile = acc && i % 3 == 2;
        let c = if hostile {
            gen::hostile(r, &g)
        } else if i % 2 == 0 {
            let cb = &cs[(i / 2) as usize % cs.len()];
            let wmax = if r.chance(1, 3) { 150 } else { 70 };
            let w = r.range(1, wmax) as u32;
            let (h, sp, dp) = (r.range(1, 5) as u32, r.us(2) * r.us(40), r.us(2) * r.us(40));
            tight(r, cb, w, h, sp, dp, Place::End(600))
        } else {
            let mut c = gen::valid(r, &g);
            while u64::from(c.w) * u64::from(c.h) > 5000 {
                c = gen::valid(r, &g);
            }
            c
        };
        let (src, dst) = prepare(&c, a);
        use_set(c.set);
        for b in src.iter().chain(&dst) {
            around(b, 0);
        }
        for b in &dst {
            request(MC + 1, b.ptr as usize, b.len);
        }
        let before = request(0x1201, 0, 0);
        let res = {
            let s: Vec<&[u8]> = src.iter().map(|b| b.slice()).collect();
            let mut d: Vec<&mut [u8]> = dst.iter().map(|b| b.slice_mut()).collect();
            call(c.w, c.h, &c.src, c.ss.as_deref(), &s, &c.dst, c.ds.as_deref(), &mut d)
        };
        let errors = request(0x1201, 0, 0) - before;
        let mut undefined = None;
        let mut seen = 0;
        let ok = c.w > 0 && c.h > 0 && res == Ok(Res::Ok) && c.predict() == Some(Res::Ok);
        for p in if ok { layout(&c.dst, c.w, c.h, c.ds.as_deref()) } else { vec![] } {
            for y in 0..p.rows {
                let at = dst[p.buf].ptr as usize + (p.off + y * p.stride) as usize;
                seen += p.row as u64;
                // silently: 1 if anything in the row is undefined
                let bad = request(MC + 5, at, p.row as usize);
                if bad != 0 && undefined.is_none() {
                    undefined = Some((p.buf, y, bad - at));
                }
            }
        }
        for b in src.iter().chain(&dst) {
            around(b, 2);
            request(MC + 2, b.ptr as usize, b.len);
        }
        st.evaluations += 1;
        st.distinct.insert(c.sig());
        st.count("samples_checked_for_definedness", seen);
        st.count("memcheck_errors", errors as u64);
        if st.samples.len() < 2 {
            st.samples.push(c.describe());
        }
        if !hostile && res != Ok(Res::Ok) {
            return Err(format!("valid conversion returned {res:?}: {}", c.describe()));
        }
        if acc {
            if errors > 0 {
                eprintln!("ERRORS-IN 1:{i} {}", c.describe());
            }
        } else if let Some((b, y, x)) = undefined {
            return Err(format!(
                "byte {x} of row {y} of destination buffer {b} depends on memory nobody wrote (prior destination content or uninitialised memory): {}",
                c.describe()
            ));
        }
        for b in src.into_iter().chain(dst) {
            b.release();
        }
        Ok(())
    });
}
