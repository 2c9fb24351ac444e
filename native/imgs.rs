//! Random valid images from coefficients, random progressive scripts and the pixel oracle.
//! Uses the public API of the decoder only.
#![allow(dead_code, clippy::all)]
use crate::vp_refjpeg::*;
use crate::{ColorSpace, Decoder, ZuneJpegOptions};
use std::num::NonZeroU32;

pub const SAMP: [&[(usize, usize)]; 5] =
    [&[(1, 1)], &[(1, 1), (1, 1), (1, 1)], &[(2, 1), (1, 1), (1, 1)], &[(1, 2), (1, 1), (1, 1)], &[(2, 2), (1, 1), (1, 1)]];

pub struct Case { pub img: Img, pub prog: bool, pub script: Vec<Scan>, pub kind: usize }

/// A generator seeded from the harness's byte source (so a failing case can be replayed).
pub fn rng() -> Rng { Rng::new(crate::vp_shim::any::<u64>()) }

fn dims(r: &mut Rng) -> (usize, usize) {
    match r.below(8) {
        0 => (1 + r.below(9) as usize, 1 + r.below(9) as usize),
        1 => (1 + r.below(300) as usize, 1 + r.below(6) as usize),
        2 => (1 + r.below(6) as usize, 1 + r.below(120) as usize),
        3 => (8 * (1 + r.below(9) as usize), 8 * (1 + r.below(6) as usize)),
        _ => (1 + r.below(70) as usize, 1 + r.below(50) as usize),
    }
}
/// Random coefficients whose dequantised absolute values sum to at most `sum`.
fn block(r: &mut Rng, q: &[u8; 64], sum: i64, maxac: i64, out: &mut [i16; 64]) {
    let mut left = sum;
    let mut put = |r: &mut Rng, k: usize, lim: i64, out: &mut [i16; 64]| {
        let m = (left / i64::from(q[k])).min(lim);
        if m <= 0 { return; }
        let v = if r.chance(1, 4) { r.range(-m, m) } else { let s = m.min(1 << r.below(8)); r.range(-s, s) };
        left += (i64::from(out[k]).abs() - v.abs()) * i64::from(q[k]);
        out[k] = v as i16;
    };
    let lim0 = 1020 / i64::from(q[0]).max(1);
    put(r, 0, lim0.max(1), out);
    let style = r.below(9);
    let n = match style { 0 | 1 => 0, 2 => 63, 3 => 20, 4 => 1, _ => r.below(7) };
    if n == 63 { for k in 1..64 { put(r, ZZ[k], maxac.min(9), out); } }
    else { for _ in 0..n { let k = if style == 4 { 63 } else { r.range(1, 63) as usize }; put(r, ZZ[k], maxac, out); } }
}
pub struct Gen { pub kind: Option<usize>, pub prog: Option<bool>, pub restart: bool, pub sum: i64, pub small: bool }
impl Default for Gen { fn default() -> Gen { Gen { kind: None, prog: None, restart: true, sum: 8000, small: false } } }

pub fn gen(r: &mut Rng, g: &Gen) -> Case {
    let (mut w, mut h) = dims(r);
    if g.small { w = 1 + w % 40; h = 1 + h % 40; }
    let kind = g.kind.unwrap_or_else(|| r.below(5) as usize);
    let prog = g.prog.unwrap_or_else(|| r.chance(1, 2));
    let mut img = blank(w, h, SAMP[kind]);
    img.qt = vec![None; 4];
    for c in 0..img.comps.len() {
        if r.chance(1, 3) { img.comps[c].tq = r.below(4) as usize; }
        img.comps[c].td = if r.chance(1, 3) { r.below(4) as usize } else { usize::from(c > 0) };
        img.comps[c].ta = if r.chance(1, 3) { r.below(4) as usize } else { usize::from(c > 0) };
    }
    for t in 0..4 {
        if t < 2 || img.comps.iter().any(|c| c.tq == t) {
            let mut q = [1u8; 64];
            let style = r.below(4);
            for k in 0..64 { q[k] = match style { 0 => 1, 1 => 1 + r.below(16) as u8, 2 => 1 + r.below(255) as u8, _ => 1 + (ZZ[k] % 32) as u8 }; }
            img.qt[t] = Some(q);
        }
        if t < 2 || img.comps.iter().any(|c| c.td == t) {
            img.dc[t] = Some(Huff::random(r, &(0..=11).collect::<Vec<u8>>(), 2));
        }
        if t < 2 || img.comps.iter().any(|c| c.ta == t) {
            img.ac[t] = Some(Huff::random(r, &if prog { ac_syms_prog(10) } else { ac_syms(10) }, 2));
        }
    }
    let flat = r.chance(1, 6);
    for c in 0..img.comps.len() {
        let q = img.qt[img.comps[c].tq].unwrap();
        let sum = g.sum;
        let dc0 = r.range(-900, 900) / i64::from(q[0]);
        for b in &mut img.comps[c].coefs {
            if flat { b[0] = dc0 as i16; } else { block(r, &q, sum, 1000, b); }
        }
    }
    let mut script = vec![];
    if prog {
        script = self::script(r, img.comps.len());
        // blocks that non-interleaved scans do not carry stay zero
        let (hm, vm) = (img.hmax(), img.vmax());
        for c in &mut img.comps {
            let bw = ((w * c.h + hm - 1) / hm + 7) / 8;
            let bh = ((h * c.v + vm - 1) / vm + 7) / 8;
            for y in 0..c.bh { for x in 0..c.bw { if x >= bw || y >= bh { c.coefs[y * c.bw + x] = [0; 64]; } } }
        }
    }
    if g.restart && r.chance(1, 3) { let m = if r.chance(1, 4) { 40 } else { 5 }; img.restart = 1 + r.below(m) as usize; }
    Case { img, prog, script, kind }
}

/// A random valid progression: DC first, everything refined down to the last bit.
pub fn script(r: &mut Rng, nc: usize) -> Vec<Scan> {
    let mut out = vec![];
    let al = r.below(4) as u8;
    let sets = |r: &mut Rng| -> Vec<Vec<usize>> {
        if nc == 1 { return vec![vec![0]]; }
        match r.below(4) { 0 => vec![vec![0], vec![1], vec![2]], 1 => vec![vec![0, 1], vec![2]], 2 => vec![vec![0], vec![1, 2]], _ => vec![vec![0, 1, 2]] }
    };
    for s in sets(r) { out.push(Scan { comps: s, ss: 0, se: 0, ah: 0, al }); }
    let mut queues: Vec<Vec<Scan>> = vec![];
    let mut q = vec![];
    for a in (0..al).rev() { for s in sets(r) { q.push(Scan { comps: s, ss: 0, se: 0, ah: a + 1, al: a }); } }
    queues.push(q);
    for c in 0..nc {
        let mut q = vec![];
        let mut bands = vec![];
        let mut lo = 1u8;
        while lo <= 63 {
            let hi = if r.chance(1, 2) { 63 } else { (lo + r.below(20) as u8).min(63) };
            bands.push((lo, hi));
            lo = hi + 1;
        }
        let al = r.below(4) as u8;
        for b in &bands { q.push(Scan { comps: vec![c], ss: b.0, se: b.1, ah: 0, al }); }
        for a in (0..al).rev() {
            if r.chance(1, 2) { bands = vec![(1, 63)]; }
            for b in &bands { q.push(Scan { comps: vec![c], ss: b.0, se: b.1, ah: a + 1, al: a }); }
        }
        queues.push(q);
    }
    loop {
        let left: Vec<usize> = (0..queues.len()).filter(|i| !queues[*i].is_empty()).collect();
        if left.is_empty() { return out; }
        let i = left[r.below(left.len() as u64) as usize];
        out.push(queues[i].remove(0));
    }
}
pub fn junk(r: &mut Rng) -> Vec<u8> {
    let n = if r.chance(1, 30) { r.below(65534) } else { r.below(12) } as usize;
    let body: Vec<u8> = (0..n).map(|_| match r.below(4) { 0 => 0xFF, 1 => 0xC4, 2 => 0xDA, _ => r.next() as u8 }).collect();
    let m = if r.chance(1, 2) { 0xFE } else { 0xE0 + r.below(16) as u8 };
    Img::seg(m, &body)
}
pub fn bytes(c: &Case) -> Vec<u8> { if c.prog { c.img.progressive(&c.script) } else { c.img.baseline() } }

/// Decode; a panic of the decoder (worker threads included) is an error.
pub fn decode(d: &mut Decoder, jpg: &[u8]) -> Result<Vec<u8>, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| d.decode_buffer(jpg))) {
        Ok(Ok(p)) => Ok(p),
        Ok(Err(e)) => Err(format!("error: {:?}", e)),
        Err(_) => Err("panic".to_string()),
    }
}
pub fn options(r: &mut Rng, cs: ColorSpace) -> ZuneJpegOptions {
    ZuneJpegOptions::new().set_out_colorspace(cs).set_use_unsafe(r.chance(1, 2)).set_max_scans(1000)
        .set_num_threads(NonZeroU32::new(1 + r.below(4) as u32).unwrap())
}
pub fn any_space(r: &mut Rng) -> ColorSpace {
    [ColorSpace::RGB, ColorSpace::RGBA, ColorSpace::RGBX, ColorSpace::YCbCr, ColorSpace::GRAYSCALE][r.below(5) as usize]
}
fn plane(img: &Img, ci: usize) -> (usize, usize, Vec<f64>) {
    let c = &img.comps[ci];
    let (w, h) = (c.bw * 8, c.bh * 8);
    let mut p = vec![0f64; w * h];
    let q = img.qt[c.tq].as_ref().unwrap();
    for by in 0..c.bh { for bx in 0..c.bw {
        let b = &c.coefs[by * c.bw + bx];
        let mut d = [0i32; 64];
        for k in 0..64 { d[k] = i32::from(b[k]) * i32::from(q[k]); }
        let o = idct_exact(&d);
        for y in 0..8 { for x in 0..8 { p[(by * 8 + y) * w + bx * 8 + x] = o[y * 8 + x].clamp(0.0, 255.0); } }
    } }
    (w, h, p)
}
/// The luma/chroma oracle on YCbCr (or grayscale) output.
pub fn check_ycc(img: &Img, px: &[u8]) -> Result<(), String> {
    let nc = img.comps.len();
    if px.len() != img.w * img.h * nc { return Err(format!("{} bytes instead of {}", px.len(), img.w * img.h * nc)); }
    for ci in 0..nc {
        let c = &img.comps[ci];
        let (pw, ph, p) = plane(img, ci);
        let (sx, sy) = (img.hmax() / c.h, img.vmax() / c.v);
        for y in 0..img.h { for x in 0..img.w {
            let got = f64::from(px[(y * img.w + x) * nc + ci]);
            let (cx, cy) = (x / sx, y / sy);
            let (dx, dy) = (usize::from(sx > 1), usize::from(sy > 1));
            let (mut lo, mut hi) = (256f64, -1f64);
            for yy in cy.saturating_sub(dy)..=(cy + dy).min(ph - 1) { for xx in cx.saturating_sub(dx)..=(cx + dx).min(pw - 1) {
                lo = lo.min(p[yy * pw + xx]);
                hi = hi.max(p[yy * pw + xx]);
            } }
            if got < lo - 2.0 || got > hi + 2.0 {
                return Err(format!("component {} at ({},{}) is {} but the coefficients encode {:.2}..{:.2} ({}x{})", ci, x, y, got, lo, hi, img.w, img.h));
            }
        } }
    }
    Ok(())
}
fn cl(v: i32) -> u8 { v.clamp(0, 255) as u8 }
/// The documented conversion of YCbCr output.
pub fn convert(ycc: &[u8], cs: ColorSpace) -> Vec<u8> {
    let mut out = vec![];
    for p in ycc.chunks(3) {
        let (y, cb, cr) = (i32::from(p[0]), i32::from(p[1]) - 128, i32::from(p[2]) - 128);
        let rgb = [cl(y + ((45 * cr) >> 5)), cl(y - ((11 * cb + 23 * cr) >> 5)), cl(y + ((113 * cb) >> 6))];
        match cs {
            ColorSpace::RGB => out.extend(rgb),
            ColorSpace::RGBA | ColorSpace::RGBX => { out.extend(rgb); out.push(255); }
            ColorSpace::GRAYSCALE => out.push(p[0]),
            _ => out.extend(p),
        }
    }
    out
}
pub fn same_pixels(a: &[u8], b: &[u8], cs: ColorSpace) -> Result<(), String> {
    if a.len() != b.len() { return Err(format!("{} bytes instead of {}", a.len(), b.len())); }
    for i in 0..a.len() {
        if cs == ColorSpace::RGBX && i % 4 == 3 { continue; }
        if a[i] != b[i] { return Err(format!("byte {} is {} instead of {}", i, a[i], b[i])); }
    }
    Ok(())
}
pub fn describe(c: &Case) -> String {
    format!("{}x{} sampling {:?} {} restart {} scans {:?}", c.img.w, c.img.h, SAMP[c.kind][0], if c.prog { "progressive" } else { "baseline" }, c.img.restart, c.script.len())
}
