//! Contract of Huffman decoding: real tables, real decoding routines, canonical reference.
#![allow(dead_code)]
#[cfg(feature = "vp")]
mod native {
    use super::super::*;
    use crate::vp_imgs::rng;
    use crate::vp_refjpeg::{Huff, Rng};
    use std::io::Cursor;

    fn stream(top: u64) -> BitStream {
        let mut s = BitStream::new();
        s.buffer = top;
        s.aligned_buffer = top;
        s.bits_left = 64;
        s
    }
    fn random_table(r: &mut Rng, dc: bool) -> Huff {
        let n = match r.below(4) { 0 => r.below(4), 1 => r.below(17), _ => if dc { r.below(17) } else { r.below(257) } } as usize;
        let vals: Vec<u8> = (0..n).map(|_| if dc { (r.below(16 * 40 + 1) % 16 + u64::from(r.chance(1, 60))) as u8 } else { r.next() as u8 }).collect();
        let mut bits = [0u8; 17];
        match r.below(3) {
            // valid by construction
            0 if n < 256 => { let min = r.below(3) as u32 + 1; return Huff::random(r, &vals, min); }
            // as many short codes as fit, sometimes one too many
            1 => {
                let mut left = n as i64;
                let mut free = 1i64;
                for l in 1..=16 {
                    free = (free * 2).min(1 << 20);
                    let extra = i64::from(r.chance(1, 60));
                    let k = if l == 16 { left } else if r.chance(1, 3) { (free - 1 + extra).min(left) } else { r.below((free as u64 / 2).min(left as u64) + 1) as i64 };
                    let k = k.clamp(0, 255).min(left);
                    bits[l] = k as u8;
                    left -= k;
                    free -= k;
                    if free <= 0 { free = 1; }
                }
            }
            _ => { let mut left = n; for _ in 0..6 { let l = 1 + r.below(16) as usize; let k = (r.below(20) as usize).min(left).min(255 - bits[l] as usize); bits[l] += k as u8; left -= k; } }
        }
        let total: usize = bits[1..].iter().map(|b| *b as usize).sum();
        let mut vals = vals;
        vals.truncate(total);
        while vals.len() < total { vals.push(0); }
        Huff { bits, vals }
    }
    pub fn ext(x: i32, n: u32) -> i32 { if n == 0 { 0 } else if x < 1 << (n - 1) { x - (1 << n) + 1 } else { x } }
    /// Index of the code that is a prefix of each 16-bit window.
    fn windows(h: &Huff) -> Vec<Option<(u8, u8)>> {
        let mut w = vec![None; 65536];
        for (i, (c, l)) in h.codes().iter().enumerate() {
            let lo = (*c as usize) << (16 - l);
            for k in lo..lo + (1 << (16 - l)) { w[k] = Some((*l, h.vals[i])); }
        }
        w
    }
    pub fn c03_dc() {
        let mut r = rng();
        let h = random_table(&mut r, true);
        let mut vals = [0u8; 256];
        vals[..h.vals.len()].copy_from_slice(&h.vals);
        let ok = h.valid() && h.vals.iter().all(|v| *v <= 15);
        let t = HuffmanTable::new(&h.bits, vals, true, r.chance(1, 2));
        assert_eq!(t.is_ok(), ok, "a DC table with counts {:?} is {}", h.bits, if ok { "valid" } else { "not valid" });
        let t = match t { Ok(t) => t, Err(_) => return };
        let w = windows(&h);
        let low = r.next() & 0xFFFF_FFFF_FFFF;
        for win in 0..65536u64 {
            let bits = win << 48 | low;
            let mut s = stream(bits);
            let p0 = 1000;
            let mut p = p0;
            let res = s.decode_dc(&mut Cursor::new(vec![]), &t, &mut p);
            match w[win as usize] {
                None => assert!(res.is_err(), "bits {:04x} start with no code but are decoded", win),
                Some((l, n)) => {
                    let v = if n == 0 { 0 } else { ext(((bits << l) >> (64 - n)) as i32, u32::from(n)) };
                    assert!(res.is_ok() && p == p0 + v && s.bits_left == 64 - l - n && s.aligned_buffer == bits << (l + n),
                        "DC bits {:04x} decode to {} ({} bits left) instead of symbol {} value {}", win, p - p0, s.bits_left, n, v);
                }
            }
        }
    }
    pub fn c03_ac() {
        let mut r = rng();
        let h = random_table(&mut r, false);
        let mut vals = [0u8; 256];
        vals[..h.vals.len()].copy_from_slice(&h.vals);
        let ok = h.valid();
        let prog = r.chance(1, 2);
        let t = HuffmanTable::new(&h.bits, vals, false, prog);
        assert_eq!(t.is_ok(), ok, "an AC table with counts {:?} is {}", h.bits, if ok { "valid" } else { "not valid" });
        let t = match t { Ok(t) => t, Err(_) => return };
        let w = windows(&h);
        let low = r.next() & 0xFFFF_FFFF_FFFF;
        // one symbol: a progressive band of one coefficient, or a sequential block
        let mut dcv = [0u8; 256];
        dcv[0] = 0;
        let mut dcb = [0u8; 17];
        dcb[1] = 1;
        let dct = HuffmanTable::new(&dcb, dcv, true, false).ok().unwrap();
        for win in 0..65536u64 {
            let bits = win << 48 | low;
            let want = w[win as usize];
            if prog {
                let mut s = stream(bits);
                s.spec_start = 1;
                s.spec_end = 1;
                let mut b = [0i16; 64];
                let res = s.decode_mcu_ac_first(&mut Cursor::new(vec![]), &t, &mut b);
                match want {
                    None => assert!(res.is_err(), "bits {:04x} start with no code but are decoded", win),
                    Some((l, rs)) => {
                        let (run, n) = (usize::from(rs >> 4), rs & 15);
                        let mut e = [0i16; 64];
                        let mut eob = 0;
                        let mut used = l + n;
                        if n > 0 { e[crate::vp_common::ZZ[1 + run]] = ext(((bits << l) >> (64 - n)) as i32, u32::from(n)) as i16; }
                        else if run < 15 { eob = (1 << run) - 1 + if run > 0 { ((bits << l) >> (64 - run)) as i32 } else { 0 }; used = l + run as u8; }
                        assert!(res.is_ok() && b == e && s.eob_run == eob && s.bits_left == 64 - used && s.aligned_buffer == bits << used,
                            "AC bits {:04x} with code of {} bits for symbol {:02x}: {} bits left, end of band run {}, coefficient {}", win, l, rs, s.bits_left, s.eob_run, b[crate::vp_common::ZZ[(1 + run).min(63)]]);
                    }
                }
                // refinement: symbols of size 0 and 1 only
                let mut s = stream(bits);
                s.spec_start = 1;
                s.spec_end = 1;
                let mut b = [0i16; 64];
                let res = s.decode_mcu_ac_refine(&mut Cursor::new(vec![]), &t, &mut b);
                match want {
                    Some((l, rs)) if rs & 15 < 2 && (rs & 15 == 1 || rs == 0xF0) =>
                        assert!(res.is_ok() && s.aligned_buffer == bits << (l + (rs & 15)), "refinement bits {:04x} do not use the code of symbol {:02x}", win, rs),
                    Some((_, rs)) if rs & 15 > 1 => assert!(res.is_err(), "refinement symbol {:02x} is accepted", rs),
                    None => assert!(res.is_err(), "bits {:04x} start with no code but are decoded", win),
                    _ => assert!(res.is_ok(), "bits {:04x} are a code but an error", win),
                }
            } else {
                // DC code '0', then the window and whatever the random bits behind it mean
                let mut s = stream(bits >> 1);
                let mut b = [0i16; 64];
                let res = s.decode_mcu_block(&mut Cursor::new(vec![]), &dct, &t, &mut b, &mut 0);
                let at = |p: u32, n: u32| -> i32 { let mut v = 0; for i in p..p + n { v = v << 1 | if i < 63 { (bits >> (63 - i)) as i32 & 1 } else { 0 }; } v };
                let (mut p, mut k) = (0u32, 1usize);
                let mut e = [0i16; 64];
                let mut good = true;
                let mut skip = false;
                while k < 64 {
                    let (l, rs) = match w[at(p, 16) as usize] { Some(x) => x, None => { good = false; break; } };
                    let (run, n) = (usize::from(rs >> 4), u32::from(rs & 15));
                    p += u32::from(l);
                    if n == 0 && run == 0 { break; }
                    if n == 0 && run != 15 || n > 0 && k + run > 63 { skip = true; break; } // no meaning in sequential images
                    if n == 0 { k += 16; continue; }
                    e[crate::vp_common::ZZ[k + run]] = ext(at(p, n), n) as i16;
                    p += n;
                    k += run + 1;
                }
                if skip { continue; }
                assert!(res.is_ok() == good, "bits {:016x} are {}a block", bits, if good { "" } else { "not " });
                assert!(!good || b == e, "bits {:016x} decode to {:?} instead of {:?}", bits, b, e);
                if good && p <= 31 { assert!(s.aligned_buffer == (bits & !1) << p, "bits {:016x}: {} bits are used, not {}", bits, 63 - s.bits_left, p); }
            }
        }
    }
}
#[cfg(feature = "vp")]
pub use native::*;
#[cfg(feature = "vp")]
pub const TABLE: &[(&str, fn())] = &[("c03_dc", c03_dc), ("c03_ac", c03_ac)];
