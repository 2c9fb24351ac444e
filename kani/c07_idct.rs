//! Contract of the inverse transforms: accuracy, clamping and placement of every block.
#![allow(dead_code)]
#[cfg(feature = "vp")]
mod native {
    use crate::decoder::IDCTPtr;
    use crate::misc::Aligned32;
    use crate::vp_imgs::rng;
    use crate::vp_refjpeg::*;

    pub fn impls() -> Vec<(&'static str, IDCTPtr)> {
        let mut v: Vec<(&'static str, IDCTPtr)> = vec![("portable", super::super::choose_idct_func(false))];
        v.push(("selected", super::super::choose_idct_func(true)));
        v
    }
    /// Coefficients with a dequantised absolute sum of at most `sum`.
    fn coefs(r: &mut Rng, q: &[i32; 64], sum: i64) -> [i16; 64] {
        let mut out = [0i16; 64];
        let mut left = sum;
        let style = r.below(8);
        let n = match style { 0 => 1, 1 => 64, 2 => 2, 3 => 8, 4 => 16, _ => 1 + r.below(10) };
        let line = r.below(8) as usize;
        for i in 0..n {
            let k = match style { 0 => if r.chance(1, 2) { 0 } else { r.below(64) as usize }, 1 => i as usize, 3 => 8 * line + i as usize, 4 => ((i % 8) * 8) as usize + line, _ => r.below(64) as usize };
            let m = left / i64::from(q[k]);
            if m == 0 { continue; }
            let m = if n > 4 { m.min(1 + sum / i64::from(q[k]) / n as i64 * 2) } else { m };
            let v = if r.chance(1, 3) { if r.chance(1, 2) { m } else { -m } } else { r.range(-m, m) };
            left -= (v.abs() - i64::from(out[k]).abs()) * i64::from(q[k]);
            out[k] = v as i16;
        }
        out
    }
    pub fn c07_blocks() {
        let mut r = rng();
        let mut q = Aligned32([1i32; 64]);
        let style = r.below(3);
        for k in 0..64 { q.0[k] = match style { 0 => 1, 1 => 1 + r.below(255) as i32, _ => 1 + r.below(12) as i32 }; }
        let per_row = 1 + r.below(5) as usize;
        // (h*v, v) as the callers pass them, and the block rows that gives
        let (samp, vs) = [(1usize, 1usize), (2, 1), (2, 2), (4, 1), (4, 2)][r.below(5) as usize];
        let rows = samp / vs;
        let stride = per_row * 8;
        let mut data = vec![];
        let mut sums = vec![];
        let mut blocks = vec![];
        for _ in 0..per_row * rows {
            let sum = [8192, 2048, 1000, 40][r.below(4) as usize];
            let b = coefs(&mut r, &q.0, sum);
            let mut d = [0i32; 64];
            for k in 0..64 { d[k] = i32::from(b[k]) * q.0[k]; }
            sums.push(d.iter().map(|x| x.abs()).sum::<i32>());
            blocks.push(d);
            data.extend_from_slice(&b);
        }
        let exact: Vec<[f64; 64]> = blocks.iter().map(|d| idct_exact(d)).collect();
        let mut outs = vec![];
        for (name, f) in impls() {
            let out = f(&data, &q, stride, samp, vs);
            assert_eq!(out.len(), data.len(), "{} inverse DCT returns another number of samples", name);
            for row in 0..rows { for b in 0..per_row {
                let n = row * per_row + b;
                let lim = if sums[n] <= 2048 { 1.0 } else { 2.0 };
                for y in 0..8 { for x in 0..8 {
                    let got = out[row * per_row * 64 + y * stride + b * 8 + x];
                    let want = exact[n][y * 8 + x].clamp(0.0, 255.0);
                    assert!((0..=255).contains(&got) && (f64::from(got) - want).abs() < lim,
                        "{} inverse DCT gives {} instead of {:.3} at ({},{}) of block {} of {} for {:?}", name, got, want, x, y, n, per_row * rows, blocks[n]);
                } }
            } }
            outs.push(out);
        }
        for o in &outs { for (i, (a, b)) in o.iter().zip(&outs[0]).enumerate() {
            assert!(a == b, "implementations disagree at sample {}: {} {}", i, a, b);
        } }
    }
}
#[cfg(feature = "vp")]
pub use native::*;
#[cfg(feature = "vp")]
pub const TABLE: &[(&str, fn())] = &[("c07_blocks", c07_blocks)];
