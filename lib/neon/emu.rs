//! The NEON intrinsics used by the library, in plain Rust, after the Arm C language extensions
//! and the Arm ARM pseudocode. Loads touch exactly the bytes the instruction touches.
#![allow(non_camel_case_types, dead_code, clippy::all, clippy::pedantic, unused_macros, unused_imports)]
use core::arch::asm;

macro_rules! vec_types {
    ($($n:ident $t:ty, $l:expr;)*) => {
        $(#[derive(Clone, Copy, Debug)] #[repr(C)] pub struct $n(pub [$t; $l]);)*
    };
}
vec_types! {
    int8x8_t i8, 8; uint8x8_t u8, 8; int16x4_t i16, 4; uint16x4_t u16, 4; int32x2_t i32, 2; uint32x2_t u32, 2;
    int64x1_t i64, 1; uint64x1_t u64, 1;
    int8x16_t i8, 16; uint8x16_t u8, 16; int16x8_t i16, 8; uint16x8_t u16, 8; int32x4_t i32, 4; uint32x4_t u32, 4;
    int64x2_t i64, 2; uint64x2_t u64, 2;
}
macro_rules! tuples {
    ($($n:ident $e:ident $($f:ty)*;)*) => { $(#[derive(Clone, Copy, Debug)] pub struct $n($(pub tuples!(@ $e $f)),*);)* };
    (@ $e:ident $f:ty) => { $e };
}
tuples! {
    uint8x8x2_t uint8x8_t () (); uint8x8x3_t uint8x8_t () () (); uint8x8x4_t uint8x8_t () () () ();
    uint8x16x2_t uint8x16_t () (); uint8x16x3_t uint8x16_t () () (); uint8x16x4_t uint8x16_t () () () ();
    int16x4x2_t int16x4_t () (); int16x8x2_t int16x8_t () (); uint16x8x2_t uint16x8_t () ();
}

macro_rules! is_aarch64_feature_detected {
    ($($t:tt)*) => {
        true
    };
}
pub(crate) use is_aarch64_feature_detected;

fn pick<T: Copy, const N: usize>(f: impl FnMut(usize) -> T) -> [T; N] {
    core::array::from_fn(f)
}

// ------------------------------------------------------------------ memory
/// Loads that are never narrowed or dropped, whatever becomes of the bytes
#[inline(always)]
unsafe fn load<const N: usize>(p: *const u8) -> [u8; N] {
    let mut out = [0u8; N];
    let mut i = 0;
    while i + 16 <= N {
        let v: core::arch::x86_64::__m128i;
        asm!("movdqu {v}, [{p}]", v = out(xmm_reg) v, p = in(reg) p.add(i), options(readonly, nostack, preserves_flags));
        core::ptr::write_unaligned(out.as_mut_ptr().add(i).cast(), v);
        i += 16;
    }
    if i + 8 <= N {
        let v: u64;
        asm!("mov {v}, [{p}]", v = out(reg) v, p = in(reg) p.add(i), options(readonly, nostack, preserves_flags));
        core::ptr::write_unaligned(out.as_mut_ptr().add(i).cast(), v);
        i += 8;
    }
    assert!(i == N);
    out
}
#[inline(always)]
unsafe fn store<const N: usize>(p: *mut u8, v: [u8; N]) {
    core::ptr::copy_nonoverlapping(v.as_ptr(), p, N);
}

macro_rules! structured {
    ($($ld:ident $st:ident $t:ident $e:ident $l:literal $k:literal $n:literal: [$($i:tt)*];)*) => { $(
        #[inline(always)]
        pub unsafe fn $ld(p: *const u8) -> $t {
            let b = load::<$n>(p);
            $t($($e(pick::<u8, $l>(|j| b[$k * j + $i]))),*)
        }
        #[inline(always)]
        pub unsafe fn $st(p: *mut u8, v: $t) {
            let lanes = [$(structured!(@ v $i).0),*];
            store::<$n>(p, pick(|j| lanes[j % $k][j / $k]));
        }
    )* };
    (@ $v:ident 0) => { $v.0 }; (@ $v:ident 1) => { $v.1 }; (@ $v:ident 2) => { $v.2 }; (@ $v:ident 3) => { $v.3 };
}
structured! {
    vld2_u8 vst2_u8 uint8x8x2_t uint8x8_t 8 2 16: [0 1];
    vld3_u8 vst3_u8 uint8x8x3_t uint8x8_t 8 3 24: [0 1 2];
    vld4_u8 vst4_u8 uint8x8x4_t uint8x8_t 8 4 32: [0 1 2 3];
    vld2q_u8 vst2q_u8 uint8x16x2_t uint8x16_t 16 2 32: [0 1];
    vld3q_u8 vst3q_u8 uint8x16x3_t uint8x16_t 16 3 48: [0 1 2];
    vld4q_u8 vst4q_u8 uint8x16x4_t uint8x16_t 16 4 64: [0 1 2 3];
}
#[inline(always)]
pub unsafe fn vld1_u8(p: *const u8) -> uint8x8_t {
    uint8x8_t(load(p))
}
#[inline(always)]
pub unsafe fn vld1q_u8(p: *const u8) -> uint8x16_t {
    uint8x16_t(load(p))
}
#[inline(always)]
pub unsafe fn vst1_u8(p: *mut u8, v: uint8x8_t) {
    store(p, v.0);
}
#[inline(always)]
pub unsafe fn vst1q_u8(p: *mut u8, v: uint8x16_t) {
    store(p, v.0);
}
/// The lane is a constant of the instruction, given in the legacy position
#[inline(always)]
pub unsafe fn vst1_lane_u32(p: *mut u32, v: uint32x2_t, lane: i32) {
    store(p.cast(), v.0[lane as usize].to_ne_bytes());
}

// ------------------------------------------------------------------ lanes
macro_rules! lanewise {
    ($($n:ident $v:ident $t:ident $op:ident;)*) => { $(
        #[inline(always)]
        pub unsafe fn $n(a: $v, b: $v) -> $v {
            $v(pick(|i| a.0[i].$op(b.0[i])))
        }
    )* };
}
lanewise! {
    vadd_s16 int16x4_t i16 wrapping_add; vaddq_s16 int16x8_t i16 wrapping_add; vaddq_u16 uint16x8_t u16 wrapping_add;
    vaddq_s32 int32x4_t i32 wrapping_add; vaddq_u32 uint32x4_t u32 wrapping_add; vaddq_u8 uint8x16_t u8 wrapping_add;
    vsubq_s16 int16x8_t i16 wrapping_sub; vsubq_u16 uint16x8_t u16 wrapping_sub; vsubq_s32 int32x4_t i32 wrapping_sub;
    vqaddq_s16 int16x8_t i16 saturating_add; vqaddq_u16 uint16x8_t u16 saturating_add;
    vqsubq_s16 int16x8_t i16 saturating_sub; vqsubq_u16 uint16x8_t u16 saturating_sub;
    vmulq_s16 int16x8_t i16 wrapping_mul; vmulq_u16 uint16x8_t u16 wrapping_mul; vmulq_s32 int32x4_t i32 wrapping_mul;
    vminq_s16 int16x8_t i16 min; vmaxq_s16 int16x8_t i16 max; vminq_u16 uint16x8_t u16 min; vmaxq_u16 uint16x8_t u16 max;
}
macro_rules! dup {
    ($($n:ident $v:ident $t:ident;)*) => { $(
        #[inline(always)]
        pub unsafe fn $n(x: $t) -> $v {
            $v([x; core::mem::size_of::<$v>() / core::mem::size_of::<$t>()])
        }
    )* };
}
dup! {
    vdupq_n_s16 int16x8_t i16; vdupq_n_u16 uint16x8_t u16; vdupq_n_u8 uint8x16_t u8; vdup_n_u8 uint8x8_t u8;
    vdupq_n_s32 int32x4_t i32; vdupq_n_u32 uint32x4_t u32; vdup_n_s16 int16x4_t i16; vdup_n_u16 uint16x4_t u16;
}
macro_rules! halves {
    ($($c:ident $lo:ident $hi:ident $h:ident $q:ident $n:literal;)*) => { $(
        #[inline(always)]
        pub unsafe fn $c(l: $h, h: $h) -> $q {
            $q(pick(|i| if i < $n { l.0[i] } else { h.0[i - $n] }))
        }
        #[inline(always)]
        pub unsafe fn $lo(a: $q) -> $h {
            $h(pick(|i| a.0[i]))
        }
        #[inline(always)]
        pub unsafe fn $hi(a: $q) -> $h {
            $h(pick(|i| a.0[i + $n]))
        }
    )* };
}
halves! {
    vcombine_s16 vget_low_s16 vget_high_s16 int16x4_t int16x8_t 4;
    vcombine_u16 vget_low_u16 vget_high_u16 uint16x4_t uint16x8_t 4;
    vcombine_u8 vget_low_u8 vget_high_u8 uint8x8_t uint8x16_t 8;
    vcombine_s32 vget_low_s32 vget_high_s32 int32x2_t int32x4_t 2;
    vcombine_u32 vget_low_u32 vget_high_u32 uint32x2_t uint32x4_t 2;
}
macro_rules! reinterpret {
    ($($n:ident $a:ident $b:ident;)*) => { $(
        #[inline(always)]
        pub unsafe fn $n(a: $a) -> $b {
            core::mem::transmute(a)
        }
    )* };
}
reinterpret! {
    vreinterpret_s16_u16 uint16x4_t int16x4_t; vreinterpret_u16_s16 int16x4_t uint16x4_t;
    vreinterpretq_s16_u16 uint16x8_t int16x8_t; vreinterpretq_u16_s16 int16x8_t uint16x8_t;
    vreinterpret_u32_u8 uint8x8_t uint32x2_t; vreinterpret_u8_u32 uint32x2_t uint8x8_t;
    vreinterpretq_s32_u32 uint32x4_t int32x4_t; vreinterpretq_u32_s32 int32x4_t uint32x4_t;
    vreinterpretq_u8_u16 uint16x8_t uint8x16_t; vreinterpretq_u16_u8 uint8x16_t uint16x8_t;
}

// ------------------------------------------------------------------ widening
#[inline(always)]
pub unsafe fn vmovl_u8(a: uint8x8_t) -> uint16x8_t {
    uint16x8_t(pick(|i| u16::from(a.0[i])))
}
#[inline(always)]
pub unsafe fn vmovl_high_u8(a: uint8x16_t) -> uint16x8_t {
    uint16x8_t(pick(|i| u16::from(a.0[i + 8])))
}
macro_rules! widening {
    ($($mull:ident $mlal:ident $mlsl:ident $hmull:ident $hmlal:ident $hmlsl:ident $h:ident $q:ident $t:ident $w:ident $wt:ident;)*) => { $(
        #[inline(always)]
        pub unsafe fn $mull(a: $h, b: $t) -> $w {
            $w(pick(|i| $wt::from(a.0[i]).wrapping_mul($wt::from(b))))
        }
        #[inline(always)]
        pub unsafe fn $mlal(s: $w, a: $h, b: $t) -> $w {
            $w(pick(|i| s.0[i].wrapping_add($wt::from(a.0[i]).wrapping_mul($wt::from(b)))))
        }
        #[inline(always)]
        pub unsafe fn $mlsl(s: $w, a: $h, b: $t) -> $w {
            $w(pick(|i| s.0[i].wrapping_sub($wt::from(a.0[i]).wrapping_mul($wt::from(b)))))
        }
        #[inline(always)]
        pub unsafe fn $hmull(a: $q, b: $t) -> $w {
            $w(pick(|i| $wt::from(a.0[i + 4]).wrapping_mul($wt::from(b))))
        }
        #[inline(always)]
        pub unsafe fn $hmlal(s: $w, a: $q, b: $t) -> $w {
            $w(pick(|i| s.0[i].wrapping_add($wt::from(a.0[i + 4]).wrapping_mul($wt::from(b)))))
        }
        #[inline(always)]
        pub unsafe fn $hmlsl(s: $w, a: $q, b: $t) -> $w {
            $w(pick(|i| s.0[i].wrapping_sub($wt::from(a.0[i + 4]).wrapping_mul($wt::from(b)))))
        }
    )* };
}
widening! {
    vmull_n_s16 vmlal_n_s16 vmlsl_n_s16 vmull_high_n_s16 vmlal_high_n_s16 vmlsl_high_n_s16 int16x4_t int16x8_t i16 int32x4_t i32;
    vmull_n_u16 vmlal_n_u16 vmlsl_n_u16 vmull_high_n_u16 vmlal_high_n_u16 vmlsl_high_n_u16 uint16x4_t uint16x8_t u16 uint32x4_t u32;
}

// ------------------------------------------------------------------ shifts and narrowing
macro_rules! shifts {
    ($($rn:ident $n:ident $q:ident $w:ident $wt:ident $h:ident $t:ident $big:ident;)*) => { $(
        #[inline(always)]
        pub unsafe fn $rn<const N: i32>(a: $w) -> $h {
            $h(pick(|i| (($big::from(a.0[i]) + (1 << (N - 1))) >> N) as $t))
        }
        #[inline(always)]
        pub unsafe fn $n<const N: i32>(a: $w) -> $h {
            $h(pick(|i| (a.0[i] >> N) as $t))
        }
        #[inline(always)]
        pub unsafe fn $q<const N: i32>(a: $w) -> $w {
            // a shift by the whole width leaves the sign
            $w(pick(|i| ($big::from(a.0[i]) >> N) as $wt))
        }
    )* };
}
shifts! {
    vrshrn_n_s32 vshrn_n_s32 vshrq_n_s32 int32x4_t i32 int16x4_t i16 i64;
    vrshrn_n_u32 vshrn_n_u32 vshrq_n_u32 uint32x4_t u32 uint16x4_t u16 u64;
    vrshrn_n_u16 vshrn_n_u16 vshrq_n_u16 uint16x8_t u16 uint8x8_t u8 u32;
    vrshrn_n_s16 vshrn_n_s16 vshrq_n_s16 int16x8_t i16 int8x8_t i8 i32;
}
#[inline(always)]
pub unsafe fn vqmovn_u16(a: uint16x8_t) -> uint8x8_t {
    uint8x8_t(pick(|i| a.0[i].min(255) as u8))
}
#[inline(always)]
pub unsafe fn vqmovun_s16(a: int16x8_t) -> uint8x8_t {
    uint8x8_t(pick(|i| a.0[i].clamp(0, 255) as u8))
}
#[inline(always)]
pub unsafe fn vmovn_u16(a: uint16x8_t) -> uint8x8_t {
    uint8x8_t(pick(|i| a.0[i] as u8))
}

// ------------------------------------------------------------------ pairs
#[inline(always)]
pub unsafe fn vpaddq_u16(a: uint16x8_t, b: uint16x8_t) -> uint16x8_t {
    uint16x8_t(pick(|i| {
        let s = if i < 4 { &a.0 } else { &b.0 };
        s[2 * (i % 4)].wrapping_add(s[2 * (i % 4) + 1])
    }))
}
#[inline(always)]
pub unsafe fn vpaddlq_u8(a: uint8x16_t) -> uint16x8_t {
    uint16x8_t(pick(|i| u16::from(a.0[2 * i]) + u16::from(a.0[2 * i + 1])))
}
macro_rules! zips {
    ($($n1:ident $n2:ident $v:ident $l:literal;)*) => { $(
        #[inline(always)]
        pub unsafe fn $n1(a: $v, b: $v) -> $v {
            $v(pick(|i| if i % 2 == 0 { a.0[i / 2] } else { b.0[i / 2] }))
        }
        #[inline(always)]
        pub unsafe fn $n2(a: $v, b: $v) -> $v {
            $v(pick(|i| if i % 2 == 0 { a.0[$l / 2 + i / 2] } else { b.0[$l / 2 + i / 2] }))
        }
    )* };
}
zips! {
    vzip1_s16 vzip2_s16 int16x4_t 4; vzip1_u16 vzip2_u16 uint16x4_t 4; vzip1_u8 vzip2_u8 uint8x8_t 8;
    vzip1q_s16 vzip2q_s16 int16x8_t 8; vzip1q_u16 vzip2q_u16 uint16x8_t 8; vzip1q_u8 vzip2q_u8 uint8x16_t 16;
}
