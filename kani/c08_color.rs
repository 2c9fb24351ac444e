//! Contract of every colour conversion: out[k] = formula(y[k], cb[k], cr[k]) for all 16 lanes,
//! position advanced by exactly 16 pixels, frame condition on every other byte.
#![allow(dead_code)]
use super::*;
use crate::vp_shim::{any, any_in_u};

fn clamp8(v: i16) -> u8 { if v < 0 { 0 } else if v > 255 { 255 } else { v as u8 } }
/// The property's formula, all intermediate values fit an i16 for samples in 0..=255.
fn spec(y: i16, cb: i16, cr: i16) -> [u8; 3] {
    let (b, r) = (cb - 128, cr - 128);
    [clamp8(y + ((45 * r) >> 5)), clamp8(y - ((11 * b + 23 * r) >> 5)), clamp8(y + ((113 * b) >> 6))]
}
fn samples() -> [i16; 16] {
    let v: [u8; 16] = any();
    let mut o = [0i16; 16];
    let mut i = 0;
    while i < 16 { o[i] = i16::from(v[i]); i += 1; }
    o
}

macro_rules! values {
    ($name:ident, $f:expr, $ch:expr, $alpha:expr, [$($st:meta),*]) => {
        #[cfg_attr(kani, kani::proof, kani::unwind(65) $(, $st)*)]
        pub fn $name() {
            const N: usize = 16 * $ch;
            const PRE: usize = 3;
            const LEN: usize = PRE + N + 2;
            let (y, cb, cr) = (samples(), samples(), samples());
            let init: u8 = any();
            let mut out = [init; LEN];
            let mut pos = PRE;
            ($f)(&y, &cb, &cr, &mut out, &mut pos);
            assert!(pos == PRE + N, "output position advances by exactly 16 pixels");
            let mut i = 0;
            while i < 16 {
                let s = spec(y[i], cb[i], cr[i]);
                let o = PRE + i * $ch;
                assert!(out[o] == s[0], "red follows the formula");
                assert!(out[o + 1] == s[1], "green follows the formula");
                assert!(out[o + 2] == s[2], "blue follows the formula");
                if $ch == 4 && $alpha { assert!(out[o + $ch - 1] == 255, "alpha is opaque"); }
                i += 1;
            }
            assert!(out[0] == init && out[1] == init && out[2] == init && out[LEN - 2] == init && out[LEN - 1] == init,
                "bytes outside the 16 pixels are unchanged");
            crate::vp_cover!(pos > 0);
        }
    };
}
macro_rules! frame {
    ($name:ident, $f:expr, $ch:expr, [$($st:meta),*]) => {
        /// The same contract at an arbitrary position, for one fixed colour.
        #[cfg_attr(kani, kani::proof, kani::unwind(132) $(, $st)*)]
        pub fn $name() {
            const N: usize = 16 * $ch;
            const LEN: usize = N + 24;
            let (a, b, c) = (90i16, 140i16, 110i16);
            let init: u8 = 77;
            let mut out = [init; LEN];
            let start = any_in_u(0, LEN - N);
            let mut pos = start;
            ($f)(&[a; 16], &[b; 16], &[c; 16], &mut out, &mut pos);
            assert!(pos == start + N, "output position advances by exactly 16 pixels");
            let k = any_in_u(0, LEN - 1);
            let s = spec(a, b, c);
            if k < start || k >= start + N { assert!(out[k] == init, "bytes outside the 16 pixels are unchanged"); }
            else if (k - start) % $ch < 3 { assert!(out[k] == s[(k - start) % $ch], "pixel follows the formula at any position"); }
            crate::vp_cover!(start > 7);
        }
    };
}

values!(c08_rgb_scalar, scalar::ycbcr_to_rgb_16_scalar, 3, false, []);
values!(c08_rgba_scalar, scalar::ycbcr_to_rgba_16_scalar, 4, true, []);
values!(c08_rgb_sse, sse::ycbcr_to_rgb_sse_16, 3, false, [
    kani::stub(core::arch::x86_64::_mm_max_epi16, crate::vp_models::mm_max_epi16),
    kani::stub(core::arch::x86_64::_mm_min_epi16, crate::vp_models::mm_min_epi16)]);
values!(c08_rgba_sse, sse::ycbcr_to_rgba_sse_16, 4, true, [
    kani::stub(core::arch::x86_64::_mm_packus_epi16, crate::vp_models::mm_packus_epi16)]);
values!(c08_rgb_avx, avx::ycbcr_to_rgb_avx2, 3, false, [
    kani::stub(core::arch::x86_64::_mm256_max_epi16, crate::vp_models::mm256_max_epi16),
    kani::stub(core::arch::x86_64::_mm256_min_epi16, crate::vp_models::mm256_min_epi16)]);
values!(c08_rgba_avx, avx::ycbcr_to_rgba_avx2, 4, true, [
    kani::stub(core::arch::x86_64::_mm256_packus_epi16, crate::vp_models::mm256_packus_epi16),
    kani::stub(core::arch::x86_64::_mm256_permute2x128_si256, crate::vp_models::mm256_permute2x128_si256)]);
values!(c08_rgbx_avx, avx::ycbcr_to_rgbx_avx2, 4, false, [
    kani::stub(core::arch::x86_64::_mm256_packus_epi16, crate::vp_models::mm256_packus_epi16),
    kani::stub(core::arch::x86_64::_mm256_permute2x128_si256, crate::vp_models::mm256_permute2x128_si256)]);
frame!(c08_frame_rgb_scalar, scalar::ycbcr_to_rgb_16_scalar, 3, []);
frame!(c08_frame_rgba_scalar, scalar::ycbcr_to_rgba_16_scalar, 4, []);

/// Native only: every selection the decoder can make, exhaustively over all 2^24 triples.
#[cfg(feature = "vp")]
pub fn c08_select_exhaustive() {
    for (cs, unsafe_, ch) in [(ColorSpace::RGB, true, 3), (ColorSpace::RGB, false, 3), (ColorSpace::RGBA, true, 4),
        (ColorSpace::RGBA, false, 4), (ColorSpace::RGBX, true, 4), (ColorSpace::RGBX, false, 4)] {
        let f = choose_ycbcr_to_rgb_convert_func(cs, unsafe_).expect("a conversion is selected");
        for cb in 0..256i16 { for cr in 0..256i16 { for y0 in (0..256i16).step_by(16) {
            let mut y = [0i16; 16];
            for k in 0..16 { y[k] = y0 + k as i16; }
            let mut out = vec![7u8; 16 * ch + 1];
            let mut p = 0;
            f(&y, &[cb; 16], &[cr; 16], &mut out, &mut p);
            assert!(p == 16 * ch && out[16 * ch] == 7, "selected conversion writes exactly 16 pixels");
            for k in 0..16 {
                let s = spec(y[k], cb, cr);
                assert!(out[k * ch..k * ch + 3] == s[..], "selected {:?} unsafe={} conversion of y={} cb={} cr={}: got {:?} want {:?}", cs, unsafe_, y[k], cb, cr, &out[k * ch..k * ch + 3], s);
                if cs == ColorSpace::RGBA { assert!(out[k * ch + 3] == 255, "alpha is opaque"); }
            }
        } } }
    }
    for cs in [ColorSpace::YCbCr, ColorSpace::GRAYSCALE] {
        for u in [true, false] { assert!(choose_ycbcr_to_rgb_convert_func(cs, u).is_none(), "no RGB conversion for {:?}", cs); }
    }
}
#[cfg(feature = "vp")]
pub const TABLE: &[(&str, fn())] = &[
    ("c08_rgb_scalar", c08_rgb_scalar), ("c08_rgba_scalar", c08_rgba_scalar), ("c08_rgb_sse", c08_rgb_sse),
    ("c08_rgba_sse", c08_rgba_sse), ("c08_rgb_avx", c08_rgb_avx), ("c08_rgba_avx", c08_rgba_avx),
    ("c08_rgbx_avx", c08_rgbx_avx), ("c08_frame_rgb_scalar", c08_frame_rgb_scalar),
    ("c08_frame_rgba_scalar", c08_frame_rgba_scalar), ("c08_select_exhaustive", c08_select_exhaustive)];
