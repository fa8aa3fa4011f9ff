//! C16: processes whose CPUID and XGETBV instructions are answered from a table.
//!
//! The child is single-stepped through the library calls. Identification instructions are not
//! executed but answered for the machine of the trial, and every other instruction of the
//! executable is classified: none may belong to an extension that the described set excludes.
use crate::arena::Arena;
use crate::case::*;
use crate::conc::digest_case;
use crate::fault;
use crate::fmt::*;
use crate::forks::{forked_with, in_call, Slot};
use crate::gen::{self, GenCfg};
use crate::rng::{hash3, mix, Rng};
use crate::run::*;
use crate::step;
use dcv_color_primitives as dcp;
use std::cell::UnsafeCell;
use std::sync::atomic::AtomicI64;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Level {
    /// nothing beyond the baseline of the target
    Base,
    Avx2,
}

#[derive(Clone, Debug)]
pub struct Cpu {
    vendor: [u8; 12],
    max: u32,
    l1: [u32; 4],
    l7: [u32; 4],
    /// other sub-leaves of leaf 7
    l7x: [u32; 4],
    xcr0: u64,
    /// leaf beyond the last one: the data of the last one (Intel), or zeros
    last: bool,
    ext: [u32; 4],
    ext_max: u32,
    /// leaf 0xD, sub-leaf 1
    xs: u32,
    noise: u64,
}

impl Cpu {
    fn leaf(&self, eax: u32, ecx: u32) -> [u32; 4] {
        let v = &self.vendor;
        let cc = |i: usize| u32::from_le_bytes([v[i], v[i + 1], v[i + 2], v[i + 3]]);
        if eax >= 0x8000_0000 {
            return match eax {
                0x8000_0000 => [self.ext_max, 0, 0, 0],
                _ if eax > self.ext_max => self.beyond(ecx),
                0x8000_0001 => self.ext,
                _ => self.noise(eax),
            };
        }
        if eax >= 0x4000_0000 {
            return self.beyond(ecx);
        }
        if eax > self.max {
            return self.beyond(ecx);
        }
        match eax {
            0 => [self.max, cc(0), cc(8), cc(4)],
            1 => self.l1,
            7 if ecx == 0 => self.l7,
            7 => self.l7x,
            0xD if ecx == 1 => [self.xs, 0, 0, 0],
            _ => self.noise(eax),
        }
    }
    fn beyond(&self, ecx: u32) -> [u32; 4] {
        if self.last && self.max < 0x4000_0000 {
            self.leaf(self.max, ecx)
        } else {
            [0; 4]
        }
    }
    fn noise(&self, leaf: u32) -> [u32; 4] {
        let (a, b) = (mix(self.noise ^ u64::from(leaf)), mix(self.noise ^ u64::from(leaf) << 32));
        [a as u32, (a >> 32) as u32, b as u32, (b >> 32) as u32]
    }
    fn bit(x: u32, b: u32) -> bool {
        x >> b & 1 == 1
    }
    fn sse2(&self) -> bool {
        self.max >= 1 && Self::bit(self.l1[3], 26)
    }
    fn intel(&self) -> bool {
        &self.vendor == b"GenuineIntel"
    }
    fn amd(&self) -> bool {
        &self.vendor == b"AuthenticAMD" || &self.vendor == b"AMDisbetter!"
    }
    /// Is AVX2 usable? None: the machine contradicts itself (AVX2 without AVX, and so on)
    fn avx2(&self) -> Option<bool> {
        let c = self.l1[2];
        let has = self.max >= 7 && Self::bit(self.l7[1], 5);
        let os = self.max >= 1 && Self::bit(c, 26) && Self::bit(c, 27) && self.xcr0 & 6 == 6;
        if !has || !os {
            return Some(false);
        }
        // SSE3, SSSE3, SSE4.1, SSE4.2, POPCNT, AVX come with AVX2
        let whole = [0, 9, 19, 20, 23, 28].iter().all(|b| Self::bit(c, *b));
        if whole && self.sse2() {
            Some(true)
        } else {
            None
        }
    }
    /// Names of the instruction sets that the description may give
    fn sets(&self) -> Vec<&'static str> {
        if !self.sse2() {
            return if self.avx2() == Some(false) { vec!["X86"] } else { vec!["X86", "Sse2", "Avx2"] };
        }
        if self.amd() {
            return vec!["Sse2"];
        }
        match self.avx2() {
            Some(true) => vec!["Avx2"],
            Some(false) => vec!["Sse2"],
            None => vec!["Sse2", "Avx2"],
        }
    }
    fn describe(&self) -> String {
        format!(
            "vendor={:?} max leaf={:#x} leaf1={:x?} leaf7={:x?} xcr0={:#x} beyond={} ext={:#x}{:x?}",
            String::from_utf8_lossy(&self.vendor), self.max, self.l1, self.l7, self.xcr0, if self.last { "last leaf" } else { "zeros" },
            self.ext_max, self.ext
        )
    }
}

const VENDORS: [&[u8; 12]; 16] = [
    b"GenuineIntel", b"AuthenticAMD", b"AMDisbetter!", b"HygonGenuine", b"CentaurHauls", b"CyrixInstead", b"GenuineTMx86",
    b"  Shanghai  ", b"VIA VIA VIA ", b"KVMKVMKVM\0\0\0", b"GenuineIotel", b"GenuntelineI", b"AuthcAMDenti", b"authenticamd",
    b"AuthenticAMF", b"GenuineIntem",
];

/// Bits of real machines: fpu..sse2 and friends
const EDX1: u32 = 0x0789_FBFF;

fn random_cpu(r: &mut Rng) -> Cpu {
    let nv = if r.chance(1, 2) { 3 } else { VENDORS.len() };
    let mut vendor = **r.pick(&VENDORS[..nv]);
    if r.chance(1, 8) {
        // near misses: one character, or two words exchanged
        if r.chance(1, 2) {
            let i = r.us(12);
            vendor[i] ^= 1 << r.us(8);
        } else {
            let (a, b) = (r.us(3) * 4, r.us(3) * 4);
            for i in 0..4 {
                vendor.swap(a + i, b + i);
            }
        }
    }
    let max = match r.below(12) {
        0 => 0,
        1 => 1,
        2 => 2,
        3 => 5,
        4 => 6,
        5 | 6 => 7,
        7 => 0xD,
        8 => 0x16,
        _ => r.range(7, 0x20) as u32,
    };
    let rnd = r.u64() as u32;
    // every feature that matters present, each of them missing now and then
    let mut ecx = match r.below(4) {
        0 => rnd,
        _ => 0x7FFA_FBFF,
    };
    let mut edx = if r.chance(1, 4) { r.u64() as u32 } else { EDX1 | 1 << 28 };
    let mut ebx7 = if r.chance(1, 3) { r.u64() as u32 } else { 0x0000_0128 | r.u64() as u32 };
    let mut xcr0 = *r.pick(&[7u64, 7, 7, 0xE7, 0x1F, 0x2_07, 0x6, 0xE6, u64::MAX]);
    match r.below(14) {
        0 => edx &= !(1 << 26),
        1 => edx = EDX1 & !(1 << 26) | 1 << 25,
        2 => ecx &= !(1 << 27),
        3 => ecx &= !(1 << 26),
        4 => xcr0 = *r.pick(&[0, 1, 3, 5, 0xE1, 0xE3, 0xE5, 2, 4]),
        5 => ebx7 &= !(1 << 5),
        6 => ebx7 = !(1 << 5),
        7 => ebx7 = 1 << 5,
        8 => {
            // a processor with AVX but without AVX2
            ebx7 = 0x281;
            ecx |= 1 << 28 | 3 << 26;
        }
        9 => ecx &= !(7 << 26),
        10 => ebx7 |= 1 << 5 | 0xD003_0000, // AVX512
        _ => {}
    }
    if r.chance(3, 4) {
        ecx |= 1 | 1 << 9 | 1 << 19 | 1 << 20 | 1 << 23;
        if ecx >> 27 & 1 == 1 {
            ecx |= 1 << 28;
        }
    }
    let x7 = r.u64();
    let e = r.u64();
    Cpu {
        vendor,
        max,
        l1: [r.u64() as u32, r.u64() as u32, ecx, edx],
        l7: [r.below(3) as u32, ebx7, x7 as u32, (x7 >> 32) as u32],
        l7x: if r.chance(1, 2) { [0, 0, 0, 0] } else { [0, !ebx7, !ebx7, x7 as u32] },
        xcr0,
        last: r.chance(1, 2),
        ext: [e as u32, 0, (e >> 32) as u32, r.u64() as u32],
        ext_max: *r.pick(&[0x8000_0000, 0x8000_0001, 0x8000_0008, 0x8000_001E, 0]),
        xs: r.below(16) as u32,
        noise: r.u64(),
    }
}

/// All combinations of the features that the selection is about
fn table_cpu(i: u64) -> Cpu {
    let mut r = Rng::new(hash3(77, i, 0));
    let mut k = i as usize;
    let mut take = |n: usize| {
        let v = k % n;
        k /= n;
        v
    };
    let vendor = *VENDORS[take(4)];
    let max = [0u32, 1, 6, 7, 0x16][take(5)];
    let sse2 = take(2) == 0;
    let avx2 = take(2) == 0;
    let (osxsave, ymm) = [(true, 7u64), (true, 3), (true, 5), (false, 7)][take(4)];
    let mut c = random_cpu(&mut r);
    c.vendor = vendor;
    c.max = max;
    c.l1[3] = if sse2 { EDX1 } else { EDX1 & !(7 << 24) };
    c.l1[2] = 0x77FA_FBFF & !(1 << 27) & !(7 << 29);
    if osxsave {
        c.l1[2] |= 1 << 27;
    }
    c.l7[1] = if avx2 { 0x1C2F_BF | 1 << 5 } else { !(1 << 5) };
    c.xcr0 = ymm;
    c
}
const TABLE: u64 = 4 * 5 * 2 * 2 * 4;

/// The machine and the instruction monitor of this process
struct Machine {
    cpu: Option<Cpu>,
    level: Option<Level>,
    text: (usize, usize),
    steps: u64,
    classified: u64,
    vex: u64,
    cpuids: u64,
    xgetbvs: u64,
    bad: Option<(usize, [u8; 15])>,
}
struct Cell_(UnsafeCell<Machine>);
unsafe impl Sync for Cell_ {}
static MACHINE: Cell_ = Cell_(UnsafeCell::new(Machine {
    cpu: None,
    level: None,
    text: (0, 0),
    steps: 0,
    classified: 0,
    vex: 0,
    cpuids: 0,
    xgetbvs: 0,
    bad: None,
}));
#[allow(clippy::mut_from_ref)]
fn machine() -> &'static mut Machine {
    unsafe { &mut *MACHINE.0.get() }
}

unsafe fn observe(uc: *mut libc::ucontext_t) {
    let m = machine();
    loop {
        m.steps += 1;
        let g = &mut (*uc).uc_mcontext.gregs;
        let pc = g[libc::REG_RIP as usize] as usize;
        let p = pc as *const u8;
        if *p == 0x0F && *p.add(1) == 0xA2 {
            if let Some(c) = &m.cpu {
                let v = c.leaf(g[libc::REG_RAX as usize] as u32, g[libc::REG_RCX as usize] as u32);
                for (r, x) in [libc::REG_RAX, libc::REG_RBX, libc::REG_RCX, libc::REG_RDX].into_iter().zip(v) {
                    g[r as usize] = i64::from(x);
                }
                g[libc::REG_RIP as usize] += 2;
                m.cpuids += 1;
                continue;
            }
        }
        if *p == 0x0F && *p.add(1) == 0x01 && *p.add(2) == 0xD0 {
            if let Some(c) = &m.cpu {
                let v = if g[libc::REG_RCX as usize] as u32 == 0 { c.xcr0 } else { 0 };
                g[libc::REG_RAX as usize] = i64::from(v as u32);
                g[libc::REG_RDX as usize] = (v >> 32) as i64;
                g[libc::REG_RIP as usize] += 3;
                m.xgetbvs += 1;
                // without OSXSAVE the instruction does not exist
                if c.l1[2] >> 27 & 1 == 0 && m.bad.is_none() {
                    let mut b = [0; 15];
                    b[..3].copy_from_slice(&[0x0F, 0x01, 0xD0]);
                    m.bad = Some((pc, b));
                }
                continue;
            }
        }
        if pc < m.text.0 || pc >= m.text.1 {
            return;
        }
        if let Some(l) = m.level {
            m.classified += 1;
            let b = std::slice::from_raw_parts(p, 15.min(m.text.1 - pc));
            if matches!(b[0], 0xC4 | 0xC5) {
                m.vex += 1;
            }
            if !allowed(b, l) && m.bad.is_none() {
                let mut x = [0; 15];
                x[..b.len()].copy_from_slice(b);
                m.bad = Some((pc, x));
            }
        }
        return;
    }
}

/// Does an instruction exist on a processor with the extensions of the level only?
fn allowed(b: &[u8], l: Level) -> bool {
    let at = |i: usize| b.get(i).copied().unwrap_or(0);
    let (mut i, mut rep, mut opsize) = (0, 0u8, false);
    loop {
        match at(i) {
            0x66 => opsize = true,
            x @ (0xF2 | 0xF3) => rep = x,
            0x2E | 0x36 | 0x3E | 0x26 | 0x64 | 0x65 | 0x67 | 0xF0 => {}
            _ => break,
        }
        i += 1;
        if i > 14 {
            return true;
        }
    }
    if (0x40..0x50).contains(&at(i)) {
        i += 1;
    }
    let avx2 = l == Level::Avx2;
    match at(i) {
        0x62 => false,
        0x8F => at(i + 1) >> 3 & 7 == 0, // XOP
        0xC5 => avx2,
        0xC4 => avx2 && vex(at(i + 1) & 0x1F, at(i + 3)),
        0x0F => match at(i + 1) {
            0x38 => {
                let o = at(i + 2);
                avx2 && (matches!(o, 0x00..=0x0B | 0x10 | 0x14 | 0x15 | 0x17 | 0x1C..=0x1E | 0x20..=0x25 | 0x28..=0x2B | 0x30..=0x35 | 0x37..=0x41)
                    || matches!(o, 0xF0 | 0xF1) && rep == 0xF2)
            }
            0x3A => avx2 && matches!(at(i + 2), 0x08..=0x0F | 0x14..=0x17 | 0x20..=0x22 | 0x40..=0x42 | 0x60..=0x63),
            // SSE3 forms
            0xF0 if rep == 0xF2 => avx2,
            0x7C | 0x7D | 0xD0 if rep == 0xF2 || opsize => avx2,
            0x12 if rep != 0 => avx2,
            0x16 if rep == 0xF3 => avx2,
            // POPCNT; LZCNT does something else on older machines. TZCNT is a plain BSF there, and
            // compilers use it as such
            0xB8 if rep == 0xF3 => avx2,
            0xBD if rep == 0xF3 => false,
            // SSE4a
            0x78 | 0x79 => false,
            0x2B if rep != 0 => false,
            // MMX or 3DNow! leftovers
            0x0E | 0x0F => false,
            _ => true,
        },
        _ => true,
    }
}

/// Three-byte VEX: instructions that come with AVX and AVX2
fn vex(map: u8, o: u8) -> bool {
    match map {
        1 => true,
        2 => matches!(o, 0x00..=0x0F | 0x16..=0x1A | 0x1C..=0x1E | 0x20..=0x25 | 0x28..=0x41 | 0x45..=0x47 | 0x58..=0x5A
            | 0x78 | 0x79 | 0x8C | 0x8E | 0x90..=0x93),
        3 => matches!(o, 0x00..=0x02 | 0x04..=0x06 | 0x08..=0x0F | 0x14..=0x19 | 0x20..=0x22 | 0x38 | 0x39 | 0x40..=0x42
            | 0x46 | 0x4A..=0x4C | 0x60..=0x63),
        _ => false,
    }
}

/// The conversions whose bytes must not depend on the machine: every documented one
fn cases(o: &Opts) -> Vec<Case> {
    let g = GenCfg { sets: vec![0], max_px: 260 };
    pairs()
        .into_iter()
        .enumerate()
        .flat_map(|(i, (s, d))| {
            let g = g.clone();
            (0..2u64).map(move |k| {
                let mut r = Rng::new(hash3(o_seed(), i as u64, k));
                let (sf, df) = gen::fmts(&mut r, s, d);
                let w = 2 * r.range(8, 36) as u32;
                gen::valid_sized(&mut r, &g, sf, df, w, 2)
            })
        })
        .map(|mut c| {
            c.cseed ^= o.seed;
            c
        })
        .collect()
}
fn o_seed() -> u64 {
    0xC16
}

fn perform(c: &Case, a: &mut Arena, calls: &AtomicI64, stepped: bool) -> u64 {
    let (src, dst) = prepare(c, a);
    let s: Vec<&[u8]> = src.iter().map(|b| b.slice()).collect();
    let mut d: Vec<&mut [u8]> = dst.iter().map(|b| b.slice_mut()).collect();
    let (sf, df) = (c.src.lib(), c.dst.lib());
    let res = in_call(calls, || {
        if stepped {
            step::stepped(observe, || dcp::convert_image(c.w, c.h, &sf, c.ss.as_deref(), &s, &df, c.ds.as_deref(), &mut d))
        } else {
            dcp::convert_image(c.w, c.h, &sf, c.ss.as_deref(), &s, &df, c.ds.as_deref(), &mut d)
        }
    });
    let d: Vec<&[u8]> = dst.iter().map(|b| b.slice()).collect();
    let g = digest_case(c, &Ok(Res::of(&res)), &d);
    for b in src.into_iter().chain(dst) {
        b.release();
    }
    g
}

fn disassembly(b: &[u8; 15]) -> String {
    b[..11].iter().map(|x| format!("{x:02x} ")).collect()
}

pub fn c16(o: &Opts, rep: &mut Report) {
    step::install();
    let all = cases(o);
    // what this machine makes of the conversions
    let mut want: Vec<u64> = vec![];
    let mut avx2 = false;
    forked_with(
        &Opts { only: None, args: o.args.clone(), sets: vec![], ..*o },
        rep, 1000, 1, 1, 60,
        &mut |_, _, s: &mut Slot| {
            let calls = unsafe { &*std::ptr::from_ref(&s.calls) };
            let mut a = Arena::new(false, 16384);
            s.val(u64::from(is_x86_feature_detected!("avx2")));
            for c in &all {
                let d = perform(c, &mut a, calls, false);
                s.val(d);
            }
        },
        |_, s, _| {
            avx2 = s.vals[0] == 1;
            want = s.vals[1..s.nvals].to_vec();
        },
    );
    if !rep.violations.is_empty() {
        return;
    }
    let heavy = o.args.contains_key("deep");
    let mut seen: std::collections::BTreeMap<String, u64> = std::collections::BTreeMap::new();
    let totals = ["instructions_stepped", "instructions_classified", "vex_instructions", "cpuid_answered", "xgetbv_answered", "conversions"];
    for (phase, n) in [(1001, TABLE), (2, 700)] {
        let descriptions = std::cell::RefCell::new(vec![]);
        forked_with(
            o, rep, phase, if phase == 2 { ((n as f64 * o.scale) as u64).max(1) } else { n }, o.threads, 120,
            &mut |i, r: &mut Rng, s: &mut Slot| {
                let cpu = if phase == 1001 { table_cpu(i) } else { random_cpu(r) };
                let calls = unsafe { &*std::ptr::from_ref(&s.calls) };
                if VERBOSE.load(std::sync::atomic::Ordering::Relaxed) {
                    eprintln!("machine: {}", cpu.describe());
                }
                let allowed_sets = cpu.sets();
                let m = machine();
                m.cpu = Some(cpu.clone());
                m.text = step::text_range();
                let mut a = Arena::new(false, 16384);
                // the first call is a conversion or the description
                let first = r.chance(1, 2).then(|| r.us(all.len()));
                if let Some(k) = first {
                    if avx2 || !allowed_sets.contains(&"Avx2") {
                        let d = perform(&all[k], &mut a, calls, true);
                        if d != want[k] {
                            return s.fail(&format!("first conversion differs from that of another machine: {}: {}", all[k].describe(), cpu.describe()));
                        }
                    }
                }
                let text = in_call(calls, || step::stepped(observe, dcp::describe_acceleration));
                let field = |k: &str| -> String {
                    let t = text.split(k).nth(1).unwrap_or("");
                    t.chars().skip_while(|c| !c.is_alphanumeric()).take_while(|c| c.is_alphanumeric()).collect()
                };
                let (vendor, set) = (field("cpu-manufacturer"), field("instruction-set"));
                let names: &[&str] = match (cpu.intel(), cpu.amd(), cpu.max) {
                    (true, _, 0) => &["Intel", "Unknown"],
                    (true, _, _) => &["Intel"],
                    (_, true, 0) => &["Amd", "Unknown"],
                    (_, true, _) => &["Amd"],
                    _ => &[],
                };
                let vendor_ok = if names.is_empty() { vendor != "Intel" && vendor != "Amd" } else { names.contains(&&vendor[..]) };
                if !vendor_ok || !allowed_sets.contains(&&set[..]) {
                    return s.fail(&format!("described as {text:?}, expected vendor {names:?} and one of {allowed_sets:?}: {}", cpu.describe()));
                }
                s.evaluations += 1;
                s.sig(mix(u64::from(cpu.max.min(8)) << 32 | u64::from(cpu.l1[3] >> 24 & 7) << 20 | u64::from(cpu.l1[2] >> 26 & 7) << 16
                    | u64::from(cpu.l7[1] >> 5 & 1) << 12 | (cpu.xcr0 & 7) << 8 | u64::from(cpu.vendor[0]) ^ u64::from(cpu.vendor[11]) << 3));
                let mut convs = 0;
                if set != "Avx2" || avx2 {
                    machine().level = Some(if set == "Avx2" { Level::Avx2 } else { Level::Base });
                    for (k, c) in all.iter().enumerate() {
                        // some are watched instruction by instruction
                        let watch = r.chance(if heavy { 4 } else { 1 }, 8);
                        let d = perform(c, &mut a, calls, watch);
                        convs += 1;
                        if d != want[k] {
                            return s.fail(&format!("conversion differs from that of another machine: {}: {text} {}", c.describe(), cpu.describe()));
                        }
                        if let Some((pc, b)) = machine().bad {
                            return s.fail(&format!(
                                "executed an instruction outside of the described set at {:#x} (bytes {}): {}: {text} {}",
                                pc, disassembly(&b), c.describe(), cpu.describe()
                            ));
                        }
                    }
                    s.evaluations += convs;
                }
                if let Some((pc, b)) = machine().bad {
                    return s.fail(&format!("executed an instruction that the machine lacks at {pc:#x} (bytes {}): {text} {}", disassembly(&b), cpu.describe()));
                }
                let m = machine();
                for v in [m.steps, m.classified, m.vex, m.cpuids, m.xgetbvs, convs] {
                    s.val(v);
                }
                s.val(["X86", "Sse2", "Avx2"].iter().position(|x| *x == set).unwrap() as u64);
                s.val(["Unknown", "Intel", "Amd"].iter().position(|x| *x == vendor).unwrap_or(3) as u64);
            },
            |_, s, st| {
                for (k, v) in totals.iter().zip(&s.vals) {
                    st.count(k, *v);
                }
                descriptions.borrow_mut().push((s.vals[6] as usize, s.vals[7] as usize));
                st.count("machines", 1);
            },
        );
        for (s, v) in descriptions.into_inner() {
            *seen.entry(format!("described_{}_{}", ["unknown", "intel", "amd", "other"][v.min(3)], ["x86", "sse2", "avx2"][s])).or_insert(0) += 1;
        }
    }
    for (k, v) in seen {
        rep.stats.count(&k, v);
    }
    for i in [0, 5, 41] {
        rep.stats.samples.push(table_cpu(i).describe());
    }
    // monitors that saw nothing prove nothing
    let need = ["instructions_classified", "cpuid_answered", "machines"];
    if rep.violations.is_empty() && o.only.is_none() && need.iter().any(|k| rep.stats.counters.get(*k).copied().unwrap_or(0) == 0) {
        eprintln!("the machine monitor observed nothing");
        std::process::exit(3);
    }
    let _ = fault::page();
}
