//! The standard library with `std::arch::aarch64` and `std::arch::wasm32` for a machine that has neither: the
//! intrinsics as functions on integers, as the Arm and WebAssembly manuals define them. yasai is compiled against
//! it (see rustc.sh) so that its NEON and wasm code runs here. Intrinsics that are missing make that build fail, which is
//! reported as "not built" and decides nothing.
#![no_std]
extern crate std as real;
pub use real::*;

pub mod arch {
    pub use real::arch::*;

    #[allow(non_camel_case_types, clippy::missing_safety_doc)]
    pub mod aarch64 {
        macro_rules! vector {
            ($($t:ident = [$e:ty; $n:expr], $al:literal;)*) => {$(
                #[derive(Clone, Copy, Debug)]
                #[repr(C, align($al))]
                pub struct $t([$e; $n]);
            )*};
        }
        vector! {
            uint64x2_t = [u64; 2], 16; uint32x4_t = [u32; 4], 16; uint16x8_t = [u16; 8], 16; uint8x16_t = [u8; 16], 16;
            int64x2_t = [i64; 2], 16; int32x4_t = [i32; 4], 16; int8x16_t = [i8; 16], 16;
            uint64x1_t = [u64; 1], 8; uint32x2_t = [u32; 2], 8; uint16x4_t = [u16; 4], 8; uint8x8_t = [u8; 8], 8;
        }
        macro_rules! lanewise {
            ($t:ident: $($f:ident |$a:ident, $b:ident| $e:expr;)*) => {$(
                #[inline(always)]
                pub fn $f(x: $t, y: $t) -> $t {
                    let mut r = x;
                    for i in 0..r.0.len() {
                        let ($a, $b) = (x.0[i], y.0[i]);
                        r.0[i] = $e;
                    }
                    r
                }
            )*};
        }
        lanewise! { uint64x2_t:
            vandq_u64 |a, b| a & b; vorrq_u64 |a, b| a | b; veorq_u64 |a, b| a ^ b; vbicq_u64 |a, b| a & !b; vornq_u64 |a, b| a | !b;
            vaddq_u64 |a, b| a.wrapping_add(b); vsubq_u64 |a, b| a.wrapping_sub(b);
            vqaddq_u64 |a, b| a.saturating_add(b); vqsubq_u64 |a, b| a.saturating_sub(b);
            vceqq_u64 |a, b| if a == b { !0 } else { 0 }; vtstq_u64 |a, b| if a & b != 0 { !0 } else { 0 };
            vcgtq_u64 |a, b| if a > b { !0 } else { 0 }; vcgeq_u64 |a, b| if a >= b { !0 } else { 0 };
            vcltq_u64 |a, b| if a < b { !0 } else { 0 }; vcleq_u64 |a, b| if a <= b { !0 } else { 0 };
        }
        lanewise! { uint32x4_t: vandq_u32 |a, b| a & b; vorrq_u32 |a, b| a | b; veorq_u32 |a, b| a ^ b; vbicq_u32 |a, b| a & !b;
            vceqq_u32 |a, b| if a == b { !0 } else { 0 }; vtstq_u32 |a, b| if a & b != 0 { !0 } else { 0 };
            vaddq_u32 |a, b| a.wrapping_add(b); vsubq_u32 |a, b| a.wrapping_sub(b); vmaxq_u32 |a, b| if a > b { a } else { b }; }
        lanewise! { uint8x16_t: vandq_u8 |a, b| a & b; vorrq_u8 |a, b| a | b; veorq_u8 |a, b| a ^ b; vbicq_u8 |a, b| a & !b;
            vceqq_u8 |a, b| if a == b { !0 } else { 0 }; vtstq_u8 |a, b| if a & b != 0 { !0 } else { 0 };
            vaddq_u8 |a, b| a.wrapping_add(b); vsubq_u8 |a, b| a.wrapping_sub(b); vmaxq_u8 |a, b| if a > b { a } else { b }; }
        lanewise! { uint64x1_t: vand_u64 |a, b| a & b; vorr_u64 |a, b| a | b; veor_u64 |a, b| a ^ b; vbic_u64 |a, b| a & !b;
            vadd_u64 |a, b| a.wrapping_add(b); vsub_u64 |a, b| a.wrapping_sub(b); vceq_u64 |a, b| if a == b { !0 } else { 0 }; }
        lanewise! { uint32x2_t: vand_u32 |a, b| a & b; vorr_u32 |a, b| a | b; veor_u32 |a, b| a ^ b; vpmax_u32_ |a, b| if a > b { a } else { b }; }

        macro_rules! misc {
            ($($f:ident ($($x:ident: $t:ty),*) -> $r:ty { $e:expr })*) => {$(
                #[inline(always)]
                pub fn $f($($x: $t),*) -> $r { $e }
            )*};
        }
        misc! {
            vdupq_n_u64(a: u64) -> uint64x2_t { uint64x2_t([a; 2]) }
            vmovq_n_u64(a: u64) -> uint64x2_t { uint64x2_t([a; 2]) }
            vdupq_n_u32(a: u32) -> uint32x4_t { uint32x4_t([a; 4]) }
            vdupq_n_u8(a: u8) -> uint8x16_t { uint8x16_t([a; 16]) }
            vdup_n_u64(a: u64) -> uint64x1_t { uint64x1_t([a]) }
            vmov_n_u64(a: u64) -> uint64x1_t { uint64x1_t([a]) }
            vcreate_u64(a: u64) -> uint64x1_t { uint64x1_t([a]) }
            vcombine_u64(a: uint64x1_t, b: uint64x1_t) -> uint64x2_t { uint64x2_t([a.0[0], b.0[0]]) }
            vget_low_u64(a: uint64x2_t) -> uint64x1_t { uint64x1_t([a.0[0]]) }
            vget_high_u64(a: uint64x2_t) -> uint64x1_t { uint64x1_t([a.0[1]]) }
            vceqzq_u64(a: uint64x2_t) -> uint64x2_t { uint64x2_t(a.0.map(|x| if x == 0 { !0 } else { 0 })) }
            vceqzd_u64(a: u64) -> u64 { if a == 0 { !0 } else { 0 } }
            vaddvq_u64(a: uint64x2_t) -> u64 { a.0[0].wrapping_add(a.0[1]) }
            vpaddd_u64(a: uint64x2_t) -> u64 { a.0[0].wrapping_add(a.0[1]) }
            vpaddq_u64(a: uint64x2_t, b: uint64x2_t) -> uint64x2_t { uint64x2_t([a.0[0].wrapping_add(a.0[1]), b.0[0].wrapping_add(b.0[1])]) }
            vqmovn_u64(a: uint64x2_t) -> uint32x2_t { uint32x2_t(a.0.map(|x| if x > u32::MAX as u64 { u32::MAX } else { x as u32 })) }
            vmovn_u64(a: uint64x2_t) -> uint32x2_t { uint32x2_t(a.0.map(|x| x as u32)) }
            vmaxvq_u32(a: uint32x4_t) -> u32 { a.0.into_iter().max().unwrap() }
            vminvq_u32(a: uint32x4_t) -> u32 { a.0.into_iter().min().unwrap() }
            vaddvq_u32(a: uint32x4_t) -> u32 { a.0.into_iter().fold(0, u32::wrapping_add) }
            vmaxvq_u8(a: uint8x16_t) -> u8 { a.0.into_iter().max().unwrap() }
            vminvq_u8(a: uint8x16_t) -> u8 { a.0.into_iter().min().unwrap() }
            vaddvq_u8(a: uint8x16_t) -> u8 { a.0.into_iter().fold(0, u8::wrapping_add) }
            vaddlvq_u8(a: uint8x16_t) -> u16 { a.0.into_iter().map(|x| x as u16).sum() }
            vcntq_u8(a: uint8x16_t) -> uint8x16_t { uint8x16_t(a.0.map(|x| x.count_ones() as u8)) }
            vmvnq_u8(a: uint8x16_t) -> uint8x16_t { uint8x16_t(a.0.map(|x| !x)) }
            vmvnq_u32(a: uint32x4_t) -> uint32x4_t { uint32x4_t(a.0.map(|x| !x)) }
            vrbitq_u8(a: uint8x16_t) -> uint8x16_t { uint8x16_t(a.0.map(|x| x.reverse_bits())) }
            vbslq_u64(m: uint64x2_t, a: uint64x2_t, b: uint64x2_t) -> uint64x2_t {
                uint64x2_t([m.0[0] & a.0[0] | !m.0[0] & b.0[0], m.0[1] & a.0[1] | !m.0[1] & b.0[1]]) }
            vzip1q_u64(a: uint64x2_t, b: uint64x2_t) -> uint64x2_t { uint64x2_t([a.0[0], b.0[0]]) }
            vzip2q_u64(a: uint64x2_t, b: uint64x2_t) -> uint64x2_t { uint64x2_t([a.0[1], b.0[1]]) }
            vshlq_u64(a: uint64x2_t, b: int64x2_t) -> uint64x2_t { uint64x2_t([shl(a.0[0], b.0[0]), shl(a.0[1], b.0[1])]) }
            vdupq_n_s64(a: i64) -> int64x2_t { int64x2_t([a; 2]) }
        }
        #[inline(always)]
        fn shl(a: u64, by: i64) -> u64 {
            match by as i8 {
                n @ 0..=63 => a << n,
                n @ -63..=-1 => a >> -n,
                _ => 0,
            }
        }
        #[inline(always)]
        pub fn vshlq_n_u64<const N: i32>(a: uint64x2_t) -> uint64x2_t {
            uint64x2_t(a.0.map(|x| x << N))
        }
        #[inline(always)]
        pub fn vshrq_n_u64<const N: i32>(a: uint64x2_t) -> uint64x2_t {
            uint64x2_t(a.0.map(|x| if N == 64 { 0 } else { x >> N }))
        }
        #[inline(always)]
        pub fn vextq_u64<const N: i32>(a: uint64x2_t, b: uint64x2_t) -> uint64x2_t {
            if N == 0 { a } else { uint64x2_t([a.0[1], b.0[0]]) }
        }
        #[inline(always)]
        pub fn vdupq_laneq_u64<const N: i32>(a: uint64x2_t) -> uint64x2_t {
            uint64x2_t([a.0[N as usize]; 2])
        }
        #[inline(always)]
        pub fn vgetq_lane_u64<const N: i32>(a: uint64x2_t) -> u64 {
            a.0[N as usize]
        }
        #[inline(always)]
        pub fn vget_lane_u64<const N: i32>(a: uint64x1_t) -> u64 {
            a.0[N as usize]
        }
        #[inline(always)]
        pub fn vget_lane_u32<const N: i32>(a: uint32x2_t) -> u32 {
            a.0[N as usize]
        }
        #[inline(always)]
        pub fn vgetq_lane_u32<const N: i32>(a: uint32x4_t) -> u32 {
            a.0[N as usize]
        }
        #[inline(always)]
        pub fn vsetq_lane_u64<const N: i32>(a: u64, b: uint64x2_t) -> uint64x2_t {
            let mut b = b;
            b.0[N as usize] = a;
            b
        }
        macro_rules! reinterpret {
            ($($f:ident: $a:ty => $b:ty;)*) => {$(
                #[inline(always)]
                pub fn $f(a: $a) -> $b { unsafe { real::mem::transmute(a) } }
            )*};
        }
        reinterpret! {
            vreinterpret_u64_u32: uint32x2_t => uint64x1_t; vreinterpret_u32_u64: uint64x1_t => uint32x2_t;
            vreinterpret_u8_u64: uint64x1_t => uint8x8_t; vreinterpret_u64_u8: uint8x8_t => uint64x1_t;
            vreinterpretq_u8_u64: uint64x2_t => uint8x16_t; vreinterpretq_u64_u8: uint8x16_t => uint64x2_t;
            vreinterpretq_u32_u64: uint64x2_t => uint32x4_t; vreinterpretq_u64_u32: uint32x4_t => uint64x2_t;
            vreinterpretq_u16_u64: uint64x2_t => uint16x8_t; vreinterpretq_u64_u16: uint16x8_t => uint64x2_t;
            vreinterpretq_s64_u64: uint64x2_t => int64x2_t; vreinterpretq_u64_s64: int64x2_t => uint64x2_t;
            vreinterpretq_u8_u32: uint32x4_t => uint8x16_t; vreinterpretq_u32_u8: uint8x16_t => uint32x4_t;
        }
        #[inline(always)]
        pub unsafe fn vld1q_u64(p: *const u64) -> uint64x2_t {
            uint64x2_t(*(p as *const [u64; 2]))
        }
        #[inline(always)]
        pub unsafe fn vst1q_u64(p: *mut u64, a: uint64x2_t) {
            *(p as *mut [u64; 2]) = a.0
        }
        #[inline(always)]
        pub unsafe fn vld1_u64(p: *const u64) -> uint64x1_t {
            uint64x1_t([*p])
        }
        #[inline(always)]
        pub unsafe fn vst1_u64(p: *mut u64, a: uint64x1_t) {
            *p = a.0[0]
        }
    }

    #[allow(non_camel_case_types, clippy::missing_safety_doc)]
    pub mod wasm32 {
        #[derive(Clone, Copy, Debug)]
        #[repr(C, align(16))]
        pub struct v128([u64; 2]);
        use real::mem::transmute;

        pub const fn u64x2(a: u64, b: u64) -> v128 {
            v128([a, b])
        }
        pub const fn i64x2(a: i64, b: i64) -> v128 {
            v128([a as u64, b as u64])
        }
        pub const fn u64x2_splat(a: u64) -> v128 {
            v128([a, a])
        }
        pub const fn i64x2_splat(a: i64) -> v128 {
            v128([a as u64; 2])
        }
        macro_rules! binary {
            ($($f:ident |$a:ident, $b:ident| $e:expr;)*) => {$(
                #[inline(always)]
                pub fn $f(x: v128, y: v128) -> v128 {
                    let mut r = x;
                    for i in 0..2 {
                        let ($a, $b) = (x.0[i], y.0[i]);
                        r.0[i] = $e;
                    }
                    r
                }
            )*};
        }
        binary! {
            v128_and |a, b| a & b; v128_or |a, b| a | b; v128_xor |a, b| a ^ b; v128_andnot |a, b| a & !b;
            u64x2_add |a, b| a.wrapping_add(b); u64x2_sub |a, b| a.wrapping_sub(b); u64x2_mul |a, b| a.wrapping_mul(b);
            i64x2_add |a, b| a.wrapping_add(b); i64x2_sub |a, b| a.wrapping_sub(b); i64x2_mul |a, b| a.wrapping_mul(b);
            u64x2_eq |a, b| if a == b { !0 } else { 0 }; u64x2_ne |a, b| if a != b { !0 } else { 0 };
            i64x2_eq |a, b| if a == b { !0 } else { 0 }; i64x2_ne |a, b| if a != b { !0 } else { 0 };
            i64x2_lt |a, b| if (a as i64) < b as i64 { !0 } else { 0 }; i64x2_gt |a, b| if a as i64 > b as i64 { !0 } else { 0 };
        }
        #[inline(always)]
        pub fn v128_not(a: v128) -> v128 {
            v128([!a.0[0], !a.0[1]])
        }
        #[inline(always)]
        pub fn v128_bitselect(a: v128, b: v128, c: v128) -> v128 {
            v128_or(v128_and(a, c), v128_andnot(b, c))
        }
        #[inline(always)]
        pub fn v128_any_true(a: v128) -> bool {
            a.0 != [0, 0]
        }
        #[inline(always)]
        pub fn u64x2_all_true(a: v128) -> bool {
            a.0[0] != 0 && a.0[1] != 0
        }
        pub use u64x2_all_true as i64x2_all_true;
        #[inline(always)]
        pub fn u64x2_shl(a: v128, n: u32) -> v128 {
            v128(a.0.map(|x| x << (n & 63)))
        }
        pub use u64x2_shl as i64x2_shl;
        #[inline(always)]
        pub fn u64x2_shr(a: v128, n: u32) -> v128 {
            v128(a.0.map(|x| x >> (n & 63)))
        }
        #[inline(always)]
        pub fn i64x2_shr(a: v128, n: u32) -> v128 {
            v128(a.0.map(|x| ((x as i64) >> (n & 63)) as u64))
        }
        #[inline(always)]
        pub fn u64x2_extract_lane<const N: usize>(a: v128) -> u64 {
            a.0[N]
        }
        #[inline(always)]
        pub fn i64x2_extract_lane<const N: usize>(a: v128) -> i64 {
            a.0[N] as i64
        }
        #[inline(always)]
        pub fn u64x2_replace_lane<const N: usize>(a: v128, x: u64) -> v128 {
            let mut a = a;
            a.0[N] = x;
            a
        }
        #[inline(always)]
        pub fn u64x2_shuffle<const I: usize, const J: usize>(a: v128, b: v128) -> v128 {
            let x = [a.0[0], a.0[1], b.0[0], b.0[1]];
            v128([x[I], x[J]])
        }
        #[inline(always)]
        pub fn i8x16_popcnt(a: v128) -> v128 {
            let x: [u8; 16] = unsafe { transmute(a) };
            unsafe { transmute(x.map(|b| b.count_ones() as u8)) }
        }
        pub use i8x16_popcnt as u8x16_popcnt;
        #[inline(always)]
        pub unsafe fn v128_load(p: *const v128) -> v128 {
            p.read_unaligned()
        }
        #[inline(always)]
        pub unsafe fn v128_store(p: *mut v128, a: v128) {
            p.write_unaligned(a)
        }
    }
}
