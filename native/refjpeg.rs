//! Independent reference: a JPEG *encoder from coefficients* and a reference
//! pixel pipeline.  Shares no code with the decoder under test.
#![allow(dead_code, clippy::all)]

pub const ZZ: [usize; 64] = [
    0, 1, 8, 16, 9, 2, 3, 10, 17, 24, 32, 25, 18, 11, 4, 5, 12, 19, 26, 33, 40, 48, 41, 34, 27, 20,
    13, 6, 7, 14, 21, 28, 35, 42, 49, 56, 57, 50, 43, 36, 29, 22, 15, 23, 30, 37, 44, 51, 58, 59,
    52, 45, 38, 31, 39, 46, 53, 60, 61, 54, 47, 55, 62, 63,
];

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(s: u64) -> Rng { Rng(s.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03) }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 { self.next() % n.max(1) }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 { lo + self.below((hi - lo + 1) as u64) as i64 }
    pub fn chance(&mut self, num: u64, den: u64) -> bool { self.below(den) < num }
}

/// A Huffman table as the pair transmitted in DHT.
#[derive(Clone, Debug)]
pub struct Huff { pub bits: [u8; 17], pub vals: Vec<u8> }

impl Huff {
    /// (code, length) of every symbol, T.81 Annex C.
    pub fn codes(&self) -> Vec<(u32, u8)> {
        let mut out = vec![];
        let mut code = 0u32;
        for l in 1..=16u8 {
            for _ in 0..self.bits[l as usize] { out.push((code, l)); code += 1; }
            code <<= 1;
        }
        out
    }
    pub fn code_of(&self, sym: u8) -> Option<(u32, u8)> {
        let c = self.codes();
        self.vals.iter().position(|v| *v == sym).map(|i| c[i])
    }
    /// Canonical decoding of a 16-bit window: (length, symbol).
    pub fn decode16(&self, w: u32) -> Option<(u8, u8)> {
        for (i, (c, l)) in self.codes().iter().enumerate() {
            if (w >> (16 - u32::from(*l))) == *c { return Some((*l, self.vals[i])); }
        }
        None
    }
    pub fn valid(&self) -> bool {
        let mut code = 0u32;
        for l in 1..=16u32 {
            code += u32::from(self.bits[l as usize]);
            if self.bits[l as usize] > 0 && code >= (1 << l) { return false; }
            code <<= 1;
        }
        true
    }
    /// A random valid table holding exactly `syms` (<= 255 of them) in random order.
    pub fn random(rng: &mut Rng, syms: &[u8], min_len: u32) -> Huff {
        let n = syms.len() as u32;
        let mut order = syms.to_vec();
        for i in (1..order.len()).rev() { order.swap(i, rng.below(i as u64 + 1) as usize); }
        'retry: loop {
            let mut bits = [0u8; 17];
            let mut left = n;
            let mut avail: u64 = 1; // free nodes at current depth
            let style = rng.below(3);
            for l in 1..=16u32 {
                avail *= 2;
                if left == 0 { break; }
                if l < min_len { continue; }
                // nodes at this level: keep enough capacity for the rest, and keep the all ones code free
                let rem_levels = 16 - l;
                // using k codes here leaves (avail-k)<<rem_levels - 1 >= left-k (capacity at the deepest level)
                let mut kmax = avail.saturating_sub(1).min(u64::from(left)).min(255);
                while kmax > 0 && ((avail - kmax) << rem_levels) - 1 < u64::from(left) - kmax { kmax -= 1; }
                let k = if l == 16 { u64::from(left) } else {
                    match style { 0 => rng.below(kmax + 1), 1 => rng.below(kmax.min(2) + 1), _ => if rng.chance(1, 3) { kmax.min(1 + rng.below(4)) } else { 0 } }
                };
                if k > kmax { continue 'retry; }
                bits[l as usize] = k as u8;
                left -= k as u32;
                avail -= k;
            }
            if left != 0 { continue; }
            let h = Huff { bits, vals: order.clone() };
            if h.valid() { return h; }
        }
    }
    /// All given symbols with fixed length codes.
    pub fn flat(syms: &[u8]) -> Huff {
        let mut l = 1;
        while (1usize << l) - 1 < syms.len() { l += 1; }
        let mut bits = [0u8; 17];
        bits[l] = syms.len() as u8;
        Huff { bits, vals: syms.to_vec() }
    }
}

pub struct BitW { pub out: Vec<u8>, acc: u32, n: u32, pub raw: Vec<u8> }
impl BitW {
    pub fn new() -> BitW { BitW { out: vec![], acc: 0, n: 0, raw: vec![] } }
    pub fn put(&mut self, v: u32, n: u8) {
        for i in (0..n).rev() {
            self.acc = (self.acc << 1) | ((v >> i) & 1);
            self.n += 1;
            if self.n == 8 { self.flush_byte(); }
        }
    }
    fn flush_byte(&mut self) {
        let b = self.acc as u8;
        self.out.push(b);
        self.raw.push(b);
        if b == 0xFF { self.out.push(0); }
        self.acc = 0; self.n = 0;
    }
    pub fn pad(&mut self) { while self.n != 0 { self.put(1, 1); } }
}

pub fn category(v: i32) -> u8 { let mut a = v.unsigned_abs(); let mut n = 0; while a > 0 { a >>= 1; n += 1; } n }
pub fn extra(v: i32, n: u8) -> u32 { if v >= 0 { v as u32 } else { (v + (1 << n) - 1) as u32 } }

#[derive(Clone)]
pub struct Comp {
    pub id: u8, pub h: usize, pub v: usize, pub tq: usize, pub td: usize, pub ta: usize,
    pub bw: usize, pub bh: usize, // allocated blocks (multiple of h,v, whole MCUs)
    pub coefs: Vec<[i16; 64]>,    // natural order, raster of blocks
}

#[derive(Clone)]
pub struct Img {
    pub w: usize, pub h: usize, pub comps: Vec<Comp>, pub qt: Vec<Option<[u8; 64]>>, // natural order
    pub dc: Vec<Option<Huff>>, pub ac: Vec<Option<Huff>>, pub restart: usize,
}

#[derive(Clone, Debug)]
pub struct Scan { pub comps: Vec<usize>, pub ss: u8, pub se: u8, pub ah: u8, pub al: u8 }

impl Img {
    pub fn hmax(&self) -> usize { self.comps.iter().map(|c| c.h).max().unwrap() }
    pub fn vmax(&self) -> usize { self.comps.iter().map(|c| c.v).max().unwrap() }
    pub fn mcux(&self) -> usize { (self.w + 8 * self.hmax() - 1) / (8 * self.hmax()) }
    pub fn mcuy(&self) -> usize { (self.h + 8 * self.vmax() - 1) / (8 * self.vmax()) }
    pub fn seg(marker: u8, body: &[u8]) -> Vec<u8> {
        let mut v = vec![0xFF, marker];
        v.extend(((body.len() + 2) as u16).to_be_bytes());
        v.extend(body);
        v
    }
    pub fn dqt(&self) -> Vec<u8> {
        let mut b = vec![];
        for (i, q) in self.qt.iter().enumerate() {
            if let Some(q) = q { b.push(i as u8); for k in 0..64 { b.push(q[ZZ[k]]); } }
        }
        Self::seg(0xDB, &b)
    }
    pub fn dht(&self) -> Vec<u8> {
        let mut b = vec![];
        for (cls, t) in [(0u8, &self.dc), (1, &self.ac)] {
            for (i, h) in t.iter().enumerate() {
                if let Some(h) = h { b.push(cls << 4 | i as u8); b.extend(&h.bits[1..17]); b.extend(&h.vals); }
            }
        }
        Self::seg(0xC4, &b)
    }
    pub fn sof(&self, m: u8) -> Vec<u8> {
        let mut b = vec![8];
        b.extend((self.h as u16).to_be_bytes());
        b.extend((self.w as u16).to_be_bytes());
        b.push(self.comps.len() as u8);
        for c in &self.comps { b.extend([c.id, (c.h << 4 | c.v) as u8, c.tq as u8]); }
        Self::seg(m, &b)
    }
    pub fn sos(&self, s: &Scan) -> Vec<u8> {
        let mut b = vec![s.comps.len() as u8];
        for &i in &s.comps { let c = &self.comps[i]; b.extend([c.id, (c.td << 4 | c.ta) as u8]); }
        b.extend([s.ss, s.se, s.ah << 4 | s.al]);
        Self::seg(0xDA, &b)
    }
    pub fn dri(&self) -> Vec<u8> {
        if self.restart == 0 { vec![] } else { Self::seg(0xDD, &(self.restart as u16).to_be_bytes()) }
    }
    fn sym(t: &Huff, codes: &[(u32, u8)], s: u8, bw: &mut BitW) {
        let i = t.vals.iter().position(|v| *v == s).expect("symbol missing from table");
        bw.put(codes[i].0, codes[i].1);
    }
    pub fn put_block_seq(blk: &[i16; 64], pred: &mut i32, dct: &Huff, act: &Huff, bw: &mut BitW) {
        let (dcc, acc) = (dct.codes(), act.codes());
        let d = i32::from(blk[0]) - *pred;
        *pred = i32::from(blk[0]);
        let n = category(d);
        Self::sym(dct, &dcc, n, bw);
        bw.put(extra(d, n), n);
        let mut run = 0;
        for k in 1..64 {
            let v = i32::from(blk[ZZ[k]]);
            if v == 0 { run += 1; continue; }
            while run > 15 { Self::sym(act, &acc, 0xF0, bw); run -= 16; }
            let n = category(v);
            Self::sym(act, &acc, (run as u8) << 4 | n, bw);
            bw.put(extra(v, n), n);
            run = 0;
        }
        if run > 0 { Self::sym(act, &acc, 0, bw); }
    }
    /// positions of the blocks of one MCU: (component index, block index)
    fn mcu_list(&self, s: &Scan) -> Vec<Vec<(usize, usize)>> {
        let mut out = vec![];
        if s.comps.len() == 1 {
            let ci = s.comps[0];
            let c = &self.comps[ci];
            let cw = (self.w * c.h + self.hmax() - 1) / self.hmax();
            let ch = (self.h * c.v + self.vmax() - 1) / self.vmax();
            for y in 0..(ch + 7) / 8 { for x in 0..(cw + 7) / 8 { out.push(vec![(ci, y * c.bw + x)]); } }
        } else {
            for my in 0..self.mcuy() { for mx in 0..self.mcux() {
                let mut m = vec![];
                for &ci in &s.comps { let c = &self.comps[ci];
                    for v in 0..c.v { for h in 0..c.h { m.push((ci, (my * c.v + v) * c.bw + mx * c.h + h)); } } }
                out.push(m);
            } }
        }
        out
    }
    pub fn scan_data(&self, s: &Scan, progressive: bool) -> Vec<u8> {
        let mut out = vec![];
        let mut bw = BitW::new();
        let mut pred = vec![0i32; self.comps.len()];
        let mcus = self.mcu_list(s);
        let mut rst = 0u8;
        let mut eobrun: u32 = 0;
        let mut pending: Vec<u8> = vec![]; // correction bits of blocks in the EOB run
        let n_mcu = mcus.len();
        for (n, m) in mcus.iter().enumerate() {
            for &(ci, bi) in m {
                let c = &self.comps[ci];
                let blk = &c.coefs[bi];
                if !progressive {
                    Self::put_block_seq(blk, &mut pred[ci], self.dc[c.td].as_ref().unwrap(), self.ac[c.ta].as_ref().unwrap(), &mut bw);
                } else if s.ss == 0 {
                    if s.ah == 0 {
                        let t = self.dc[c.td].as_ref().unwrap();
                        let v = i32::from(blk[0]) >> s.al;
                        let d = v - pred[ci];
                        pred[ci] = v;
                        let k = category(d);
                        Self::sym(t, &t.codes(), k, &mut bw);
                        bw.put(extra(d, k), k);
                    } else {
                        bw.put((i32::from(blk[0]) >> s.al) as u32 & 1, 1);
                    }
                } else {
                    let t = self.ac[c.ta].as_ref().unwrap();
                    let codes = t.codes();
                    let shr = |v: i16| -> i32 { let a = i32::from(v).abs() >> s.al; if v < 0 { -a } else { a } };
                    if s.ah == 0 {
                        let mut run = 0;
                        for k in s.ss..=s.se {
                            let v = shr(blk[ZZ[k as usize]]);
                            if v == 0 { run += 1; continue; }
                            Self::flush_eob(&mut eobrun, &mut pending, t, &codes, &mut bw);
                            while run > 15 { Self::sym(t, &codes, 0xF0, &mut bw); run -= 16; }
                            let nb = category(v);
                            Self::sym(t, &codes, (run as u8) << 4 | nb, &mut bw);
                            bw.put(extra(v, nb), nb);
                            run = 0;
                        }
                        if run > 0 { eobrun += 1; if eobrun == 0x7FFF { Self::flush_eob(&mut eobrun, &mut pending, t, &codes, &mut bw); } }
                    } else {
                        let a: Vec<i32> = (0..64).map(|k| i32::from(blk[ZZ[k]]).abs() >> s.al).collect();
                        let mut eob = 0;
                        for k in s.ss..=s.se { if a[k as usize] == 1 { eob = k; } }
                        let mut run = 0;
                        let mut corr: Vec<u8> = vec![];
                        for k in s.ss..=s.se {
                            let v = a[k as usize];
                            if v == 0 { run += 1; continue; }
                            while run > 15 && k <= eob {
                                Self::flush_eob(&mut eobrun, &mut pending, t, &codes, &mut bw);
                                Self::sym(t, &codes, 0xF0, &mut bw);
                                run -= 16;
                                for b in corr.drain(..) { bw.put(u32::from(b), 1); }
                            }
                            if v > 1 { corr.push((v & 1) as u8); continue; }
                            Self::flush_eob(&mut eobrun, &mut pending, t, &codes, &mut bw);
                            Self::sym(t, &codes, (run as u8) << 4 | 1, &mut bw);
                            bw.put(u32::from(blk[ZZ[k as usize]] >= 0), 1);
                            for b in corr.drain(..) { bw.put(u32::from(b), 1); }
                            run = 0;
                        }
                        if run > 0 || !corr.is_empty() {
                            eobrun += 1;
                            pending.append(&mut corr);
                            if eobrun == 0x7FFF || pending.len() > 900 { Self::flush_eob(&mut eobrun, &mut pending, t, &codes, &mut bw); }
                        }
                    }
                }
            }
            if self.restart != 0 && (n + 1) % self.restart == 0 && n + 1 != n_mcu {
                if let Some(t) = self.ac[self.comps[s.comps[0]].ta].as_ref() {
                    Self::flush_eob(&mut eobrun, &mut pending, t, &t.codes(), &mut bw);
                }
                bw.pad();
                out.append(&mut bw.out);
                out.extend([0xFF, 0xD0 + rst]);
                rst = (rst + 1) & 7;
                pred.iter_mut().for_each(|p| *p = 0);
            }
        }
        if let Some(t) = self.ac[self.comps[s.comps[0]].ta].as_ref() {
            Self::flush_eob(&mut eobrun, &mut pending, t, &t.codes(), &mut bw);
        }
        bw.pad();
        out.append(&mut bw.out);
        out
    }
    fn flush_eob(run: &mut u32, pending: &mut Vec<u8>, t: &Huff, codes: &[(u32, u8)], bw: &mut BitW) {
        if *run > 0 {
            let n = 31 - run.leading_zeros();
            Self::sym(t, codes, (n as u8) << 4, bw);
            bw.put(*run - (1 << n), n as u8);
            *run = 0;
            for b in pending.drain(..) { bw.put(u32::from(b), 1); }
        }
    }
    pub fn baseline(&self) -> Vec<u8> {
        let s = Scan { comps: (0..self.comps.len()).collect(), ss: 0, se: 63, ah: 0, al: 0 };
        // a one component scan is never interleaved: sampling factors are then irrelevant
        let mut v = vec![0xFF, 0xD8];
        v.extend(self.dqt());
        v.extend(self.sof(0xC0));
        v.extend(self.dht());
        v.extend(self.dri());
        v.extend(self.sos(&s));
        v.extend(self.scan_data(&s, false));
        v.extend([0xFF, 0xD9]);
        v
    }
    pub fn progressive(&self, scans: &[Scan]) -> Vec<u8> {
        let mut v = vec![0xFF, 0xD8];
        v.extend(self.dqt());
        v.extend(self.sof(0xC2));
        v.extend(self.dht());
        v.extend(self.dri());
        for s in scans {
            v.extend(self.sos(s));
            v.extend(self.scan_data(s, true));
        }
        v.extend([0xFF, 0xD9]);
        v
    }
}

/// All symbols a sequential AC table needs (magnitudes 1..=10), plus EOB/ZRL.
pub fn ac_syms(max_cat: u8) -> Vec<u8> {
    let mut v = vec![0x00, 0xF0];
    for r in 0..16u8 { for s in 1..=max_cat { v.push(r << 4 | s); } }
    v
}
/// AC symbols for progressive scans (EOB runs included).
pub fn ac_syms_prog(max_cat: u8) -> Vec<u8> {
    let mut v = ac_syms(max_cat);
    for r in 1..15u8 { v.push(r << 4); }
    v
}

pub fn blank(w: usize, h: usize, samp: &[(usize, usize)]) -> Img {
    let hm = samp.iter().map(|s| s.0).max().unwrap();
    let vm = samp.iter().map(|s| s.1).max().unwrap();
    let mx = (w + 8 * hm - 1) / (8 * hm);
    let my = (h + 8 * vm - 1) / (8 * vm);
    let comps = samp.iter().enumerate().map(|(i, s)| Comp {
        id: i as u8 + 1, h: s.0, v: s.1, tq: usize::from(i > 0), td: usize::from(i > 0), ta: usize::from(i > 0),
        bw: mx * s.0, bh: my * s.1, coefs: vec![[0; 64]; mx * s.0 * my * s.1],
    }).collect();
    Img { w, h, comps, qt: vec![Some([1; 64]), Some([1; 64]), None, None], dc: vec![None; 4], ac: vec![None; 4], restart: 0 }
}

// ---------------------------------------------------------------- pixels
/// Exact (f64) inverse DCT, level shifted, unclamped, of dequantised coefficients.
pub fn idct_exact(c: &[i32; 64]) -> [f64; 64] {
    use std::f64::consts::{FRAC_1_SQRT_2, PI};
    let mut cs = [[0f64; 8]; 8];
    for x in 0..8 { for u in 0..8 {
        let cu = if u == 0 { FRAC_1_SQRT_2 } else { 1.0 };
        cs[x][u] = 0.5 * cu * (((2 * x + 1) as f64) * (u as f64) * PI / 16.0).cos();
    } }
    let mut tmp = [0f64; 64];
    for v in 0..8 { for x in 0..8 { tmp[v * 8 + x] = (0..8).map(|u| cs[x][u] * f64::from(c[v * 8 + u])).sum(); } }
    let mut out = [0f64; 64];
    for y in 0..8 { for x in 0..8 { out[y * 8 + x] = 128.0 + (0..8).map(|v| cs[y][v] * tmp[v * 8 + x]).sum::<f64>(); } }
    out
}

pub fn ycc_to_rgb_exact(y: f64, cb: f64, cr: f64) -> [f64; 3] {
    [y + 1.402 * (cr - 128.0), y - 0.344_136 * (cb - 128.0) - 0.714_136 * (cr - 128.0), y + 1.772 * (cb - 128.0)]
}
