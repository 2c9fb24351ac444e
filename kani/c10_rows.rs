//! Contract of the row assembly: crop to the image width, keep rows in order and without gaps.
//! The 16-pixel colour conversion is a parameter of the code under contract: here it is a function
//! that keeps each pixel's samples recognisable (C08 is the contract of the real ones).
#![allow(dead_code)]
use super::*;
use crate::vp_shim::{any, any_sample};

fn tag3(y: &[i16; 16], cb: &[i16; 16], cr: &[i16; 16], out: &mut [u8], pos: &mut usize) {
    let o = &mut out[*pos..*pos + 48];
    let mut i = 0;
    while i < 16 { o[3 * i] = y[i] as u8; o[3 * i + 1] = cb[i] as u8; o[3 * i + 2] = cr[i] as u8; i += 1; }
    *pos += 48;
}
fn tag4(y: &[i16; 16], cb: &[i16; 16], cr: &[i16; 16], out: &mut [u8], pos: &mut usize) {
    let o = &mut out[*pos..*pos + 64];
    let mut i = 0;
    while i < 16 { o[4 * i] = y[i] as u8; o[4 * i + 1] = cb[i] as u8; o[4 * i + 2] = cr[i] as u8; o[4 * i + 3] = 255; i += 1; }
    *pos += 64;
}
/// Samples of `rows` rows of `padded` samples, output of `rows * width` pixels of `ch` bytes.
pub fn check(ch: usize, out: &[u8], c: &[Vec<i16>; 3], padded: usize, rows: usize, width: usize) {
    let mut r = 0;
    while r < rows {
        let mut x = 0;
        while x < width {
            let i = r * padded + x;
            let o = (r * width + x) * ch;
            assert!(out[o] == c[0][i] as u8, "the first sample of a pixel comes from its own row and column");
            if ch >= 3 {
                assert!(out[o + 1] == c[1][i] as u8, "the second sample of a pixel comes from its own row and column");
                assert!(out[o + 2] == c[2][i] as u8, "the third sample of a pixel comes from its own row and column");
            }
            if ch == 4 { assert!(out[o + 3] == 255, "alpha is written"); }
            x += 1;
        }
        r += 1;
    }
}
fn vec_any(n: usize) -> Vec<i16> { let mut v = vec![0i16; n]; let mut i = 0; while i < n { v[i] = any_sample(); i += 1; } v }
pub fn run(cs: ColorSpace, ch: usize, c: &mut [Vec<i16>; 3], comps: &[Components], width: usize, rows: usize) -> Vec<u8> {
    let mut out = vec![7u8; rows * width * ch];
    post_process_inner(c, comps, if ch == 4 { tag4 } else { tag3 }, ColorSpace::YCbCr, cs, &mut out, width);
    out
}
fn comps() -> [Components; 3] {
    [Components::from([1, 0x11, 0]).unwrap(), Components::from([2, 0x11, 0]).unwrap(), Components::from([3, 0x11, 0]).unwrap()]
}
macro_rules! layout {
    ($name:ident, $cs:expr, $ch:expr, $padded:expr, $width:expr) => {
        #[cfg_attr(kani, kani::proof, kani::unwind(300), kani::stub(alloc::fmt::format, crate::vp_common::fmt_stub))]
        pub fn $name() {
            let n = 8 * $padded;
            let mut c = [vec_any(n), vec_any(n), vec_any(n)];
            let k = comps();
            let out = run($cs, $ch, &mut c, &k, $width, 8);
            check($ch, &out, &c, $padded, 8, $width);
            crate::vp_cover!(out[0] != out[1]);
            std::mem::forget(c);
            std::mem::forget(out);
            std::mem::forget(k);
        }
    };
}
layout!(c10_rgb_19, ColorSpace::RGB, 3, 24, 19);
layout!(c10_rgba_17, ColorSpace::RGBA, 4, 24, 17);
layout!(c10_rgb_5, ColorSpace::RGB, 3, 8, 5);
layout!(c10_rgb_16, ColorSpace::RGB, 3, 16, 16);
layout!(c10_ycc_5, ColorSpace::YCbCr, 3, 8, 5);
layout!(c10_ycc_9, ColorSpace::YCbCr, 3, 16, 9);
layout!(c10_gray_5, ColorSpace::GRAYSCALE, 1, 8, 5);
layout!(c10_gray_12, ColorSpace::GRAYSCALE, 1, 16, 12);

#[cfg(feature = "vp")]
mod native {
    use super::*;
    use crate::vp_imgs::{any_space, rng};
    pub fn c10_widths() {
        let mut r = rng();
        // MCU geometry as the drivers pass it: two MCU rows at once when the chroma is subsampled horizontally
        let (h, v) = [(1usize, 1usize), (2, 1), (1, 2), (2, 2)][r.below(4) as usize];
        let mcus = 1 + r.below(9) as usize;
        let padded = mcus * 8 * h;
        let width = padded - r.below(8 * h as u64) as usize;
        let rows = 8 * h * v;
        let cs = any_space(&mut r);
        let ch = match cs { ColorSpace::GRAYSCALE => 1, ColorSpace::RGB | ColorSpace::YCbCr => 3, _ => 4 };
        let mut k = comps();
        k[0].horizontal_sample = h;
        k[0].vertical_sample = v;
        fn same(v: &[i16], _: usize) -> Vec<i16> { v.to_vec() }
        k[1].up_sampler = same;
        k[2].up_sampler = same;
        let mut mk = |n: usize| -> Vec<i16> { (0..n).map(|_| r.below(256) as i16).collect() };
        let mut c = [mk(rows * padded), mk(rows * padded), mk(rows * padded)];
        let out = run(cs, ch, &mut c, &k, width, rows);
        check(ch, &out, &c, padded, rows, width);
    }
}
#[cfg(feature = "vp")]
pub use native::*;
#[cfg(feature = "vp")]
pub const TABLE: &[(&str, fn())] = &[("c10_rgb_19", c10_rgb_19), ("c10_rgba_17", c10_rgba_17), ("c10_rgb_5", c10_rgb_5), ("c10_rgb_16", c10_rgb_16), ("c10_ycc_5", c10_ycc_5), ("c10_ycc_9", c10_ycc_9),
    ("c10_gray_5", c10_gray_5), ("c10_gray_12", c10_gray_12), ("c10_widths", c10_widths)];
