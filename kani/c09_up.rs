//! Contracts of the chroma upsamplers.
#![allow(dead_code)]
use super::*;
use crate::vp_shim::{any, any_sample};

fn blend(near: i16, far: i16) -> i16 { (3 * near + far + 2) >> 2 }
/// Sample `o` of the doubled row.
fn h_spec(row: &[i16], o: usize) -> i16 {
    let n = row.len();
    let k = o / 2;
    if o == 0 { row[0] } else if o == 2 * n - 1 { row[n - 1] }
    else if o % 2 == 0 { blend(row[k], row[k - 1]) } else { blend(row[k], row[k + 1]) }
}
/// The two source rows (near, far) output row `o` of 16 blends.
fn v_rows(o: usize) -> (usize, usize) {
    let k = o / 2;
    if k == 0 { (0, 0) } else if k == 7 { (7, 7) } else if o % 2 == 0 { (k, k + 1) } else { (k + 1, k) }
}
fn v_spec(at: impl Fn(usize) -> i16, o: usize) -> i16 { let (a, b) = v_rows(o); blend(at(a), at(b)) }

fn check_h(row: &[i16], out: &[i16]) {
    assert!(out.len() == 2 * row.len(), "a horizontally upsampled row is twice as long");
    let mut o = 0;
    while o < out.len() { assert!(out[o] == h_spec(row, o), "horizontal upsampling blends 3:1 with the next nearest sample"); o += 1; }
}
macro_rules! horiz {
    ($name:ident, $n:expr, $f:expr) => {
        #[cfg_attr(kani, kani::proof, kani::unwind(90), kani::stub(core::arch::x86_64::_mm_loadl_epi64, crate::vp_models::mm_loadl_epi64))]
        pub fn $name() {
            let mut row = [0i16; $n];
            let mut i = 0;
            while i < $n { row[i] = any_sample(); i += 1; }
            let out = ($f)(&row, 2 * $n);
            check_h(&row, &out);
            crate::vp_cover!(out[1] != out[2]);
            std::mem::forget(out);
        }
    };
}
horiz!(c09_h3, 3, upsample_horizontal);
horiz!(c09_h8, 8, upsample_horizontal);
horiz!(c09_h40, 40, upsample_horizontal);
horiz!(c09_h8_sse, 8, upsample_horizontal_sse);
horiz!(c09_h40_sse, 40, upsample_horizontal_sse);

macro_rules! vert {
    ($name:ident, $w:expr) => {
        #[cfg_attr(kani, kani::proof, kani::unwind(34))]
        pub fn $name() {
            let mut v = [0i16; 8 * $w];
            let mut i = 0;
            while i < 8 * $w { v[i] = any_sample(); i += 1; }
            let out = upsample_vertical(&v, 16 * $w);
            assert!(out.len() == 16 * $w, "vertical upsampling doubles the rows");
            let mut o = 0;
            while o < 16 {
                let mut x = 0;
                while x < $w {
                    assert!(out[o * $w + x] == v_spec(|r| v[r * $w + x], o), "vertical upsampling blends 3:1 with the row below");
                    x += 1;
                }
                o += 1;
            }
            crate::vp_cover!(out[1] != out[$w * 15]);
            std::mem::forget(out);
        }
    };
}
vert!(c09_v2, 2);

/// 4:2:2: sixteen rows, each on its own.
#[cfg_attr(kani, kani::proof, kani::unwind(100))]
pub fn c09_hrows() {
    const W: usize = 3;
    let mut v = [0i16; 16 * W];
    let mut i = 0;
    while i < 16 * W { v[i] = any_sample(); i += 1; }
    let out = choose_horizontal_samp_function(false)(&v, 32 * W);
    assert!(out.len() == 32 * W, "horizontal upsampling doubles the columns");
    let mut k = 0;
    while k < 16 { check_h(&v[k * W..(k + 1) * W], &out[2 * k * W..2 * (k + 1) * W]); k += 1; }
    crate::vp_cover!(out[1] != out[2]);
    std::mem::forget(out);
}
/// 4:2:0: two MCU rows of eight rows, vertical then horizontal.
#[cfg_attr(kani, kani::proof, kani::unwind(200))]
pub fn c09_hv() {
    const W: usize = 3;
    let mut v = [0i16; 16 * W];
    let mut i = 0;
    while i < 16 * W { v[i] = any_sample(); i += 1; }
    let out = choose_hv_samp_function(false)(&v, 64 * W);
    assert!(out.len() == 64 * W, "4:2:0 upsampling doubles rows and columns");
    let mut o = 0;
    while o < 32 {
        let m = &v[(o / 16) * 8 * W..];
        let mut mid = [0i16; W];
        let mut x = 0;
        while x < W { mid[x] = v_spec(|k| m[k * W + x], o % 16); x += 1; }
        check_h(&mid, &out[o * 2 * W..(o + 1) * 2 * W]);
        o += 1;
    }
    crate::vp_cover!(out[1] != out[2]);
    std::mem::forget(out);
}

#[cfg(feature = "vp")]
mod native {
    use super::*;
    use crate::vp_imgs::rng;
    pub fn c09_rows() {
        let mut r = rng();
        let w = 8 * (1 + r.below(12) as usize);
        let style = r.below(4);
        let mut fill = |n: usize| -> Vec<i16> { (0..n).map(|i| match style { 0 => (r.below(2) * 255) as i16, 1 => (i % 256) as i16, _ => r.below(256) as i16 }).collect() };
        // portable routine: any length from 3
        let any_row = fill(3 + w / 3);
        check_h(&any_row, &upsample_horizontal(&any_row, any_row.len() * 2));
        let row = fill(w);
        check_h(&row, &upsample_horizontal(&row, 2 * w));
        check_h(&row, &upsample_horizontal_sse(&row, 2 * w));
        let v = fill(8 * w);
        let out = upsample_vertical(&v, 16 * w);
        assert_eq!(out.len(), 16 * w, "vertical upsampling doubles the rows");
        for o in 0..16 { for x in 0..w { assert_eq!(out[o * w + x], v_spec(|k| v[k * w + x], o), "row {} column {} of a vertically upsampled MCU row", o, x); } }
        // the two MCU rows of 8 sample rows that are processed at once
        let two = fill(16 * w);
        for uns in [false, true] {
            let out = choose_horizontal_samp_function(uns)(&two, 32 * w);
            assert_eq!(out.len(), 32 * w, "horizontal upsampling doubles the columns");
            for k in 0..16 { check_h(&two[k * w..(k + 1) * w], &out[2 * k * w..2 * (k + 1) * w]); }
            let out = choose_hv_samp_function(uns)(&two, 64 * w);
            assert_eq!(out.len(), 64 * w, "4:2:0 upsampling doubles rows and columns");
            for o in 0..32 {
                let m = &two[(o / 16) * 8 * w..];
                let mid: Vec<i16> = (0..w).map(|x| v_spec(|k| m[k * w + x], o % 16)).collect();
                for x in 0..2 * w { assert_eq!(out[o * 2 * w + x], h_spec(&mid, x), "row {} column {} of a 4:2:0 upsampled pair of MCU rows ({} wide)", o, x, w); }
            }
        }
    }
}
#[cfg(feature = "vp")]
pub use native::*;
#[cfg(feature = "vp")]
pub const TABLE: &[(&str, fn())] = &[("c09_h3", c09_h3), ("c09_h8", c09_h8), ("c09_h40", c09_h40), ("c09_h8_sse", c09_h8_sse), ("c09_h40_sse", c09_h40_sse),
    ("c09_v2", c09_v2), ("c09_hrows", c09_hrows), ("c09_hv", c09_hv), ("c09_rows", c09_rows)];
