//! Lane-wise models of the few x86 intrinsics Kani cannot execute.  These are ASSUMED contracts
//! (Intel SDM semantics); every other intrinsic is executed from core::arch's own source.
#![allow(dead_code, non_snake_case)]
#[cfg(kani)]
pub use m::*;
#[cfg(kani)]
mod m {
    use core::arch::x86_64::*;
    use core::mem::transmute as t;
    pub unsafe fn mm256_max_epi16(a: __m256i, b: __m256i) -> __m256i {
        let (a, b): ([i16; 16], [i16; 16]) = (t(a), t(b));
        let mut o = [0i16; 16];
        let mut i = 0;
        while i < 16 { o[i] = if a[i] > b[i] { a[i] } else { b[i] }; i += 1; }
        t(o)
    }
    pub unsafe fn mm256_min_epi16(a: __m256i, b: __m256i) -> __m256i {
        let (a, b): ([i16; 16], [i16; 16]) = (t(a), t(b));
        let mut o = [0i16; 16];
        let mut i = 0;
        while i < 16 { o[i] = if a[i] < b[i] { a[i] } else { b[i] }; i += 1; }
        t(o)
    }
    pub unsafe fn mm_max_epi16(a: __m128i, b: __m128i) -> __m128i {
        let (a, b): ([i16; 8], [i16; 8]) = (t(a), t(b));
        let mut o = [0i16; 8];
        let mut i = 0;
        while i < 8 { o[i] = if a[i] > b[i] { a[i] } else { b[i] }; i += 1; }
        t(o)
    }
    pub unsafe fn mm_min_epi16(a: __m128i, b: __m128i) -> __m128i {
        let (a, b): ([i16; 8], [i16; 8]) = (t(a), t(b));
        let mut o = [0i16; 8];
        let mut i = 0;
        while i < 8 { o[i] = if a[i] < b[i] { a[i] } else { b[i] }; i += 1; }
        t(o)
    }
    fn sat(x: i16) -> u8 { if x < 0 { 0 } else if x > 255 { 255 } else { x as u8 } }
    pub unsafe fn mm_packus_epi16(a: __m128i, b: __m128i) -> __m128i {
        let (a, b): ([i16; 8], [i16; 8]) = (t(a), t(b));
        let mut o = [0u8; 16];
        let mut i = 0;
        while i < 8 { o[i] = sat(a[i]); o[8 + i] = sat(b[i]); i += 1; }
        t(o)
    }
    pub unsafe fn mm256_packus_epi16(a: __m256i, b: __m256i) -> __m256i {
        let (a, b): ([i16; 16], [i16; 16]) = (t(a), t(b));
        let mut o = [0u8; 32];
        let mut i = 0;
        while i < 8 {
            o[i] = sat(a[i]); o[8 + i] = sat(b[i]);
            o[16 + i] = sat(a[8 + i]); o[24 + i] = sat(b[8 + i]);
            i += 1;
        }
        t(o)
    }
    pub unsafe fn mm256_permute2x128_si256<const IMM8: i32>(a: __m256i, b: __m256i) -> __m256i {
        let (a, b): ([u128; 2], [u128; 2]) = (t(a), t(b));
        let pick = |c: i32| -> u128 {
            if c & 8 != 0 { 0 } else { match c & 3 { 0 => a[0], 1 => a[1], 2 => b[0], _ => b[1] } }
        };
        t([pick(IMM8), pick(IMM8 >> 4)])
    }
    pub unsafe fn mm_loadl_epi64(p: *const __m128i) -> __m128i {
        let lo: [i16; 4] = core::ptr::read_unaligned(p.cast());
        t([lo[0], lo[1], lo[2], lo[3], 0, 0, 0, 0])
    }
}
