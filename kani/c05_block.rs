//! Contract of sequential block decoding against an independent encoder.
#![allow(dead_code)]
#[cfg(feature = "vp")]
mod native {
    use super::super::*;
    use crate::vp_imgs::rng;
    use crate::vp_refjpeg::*;
    use std::io::Cursor;

    fn sym(t: &Huff, codes: &[(u32, u8)], s: u8, w: &mut BitW) {
        let i = t.vals.iter().position(|v| *v == s).unwrap();
        w.put(codes[i].0, codes[i].1);
    }
    fn table(h: &Huff, dc: bool) -> HuffmanTable {
        let mut v = [0u8; 256];
        v[..h.vals.len()].copy_from_slice(&h.vals);
        HuffmanTable::new(&h.bits, v, dc, false).ok().expect("a valid table is rejected")
    }
    pub fn c05_blocks() {
        let mut r = rng();
        let (dm, am) = (if r.chance(1, 2) { 15 } else { 11 }, if r.chance(1, 2) { 15 } else { 10 });
        let (m1, m2) = (1 + r.below(3) as u32, 1 + r.below(3) as u32);
        let dc = Huff::random(&mut r, &(0..=dm).collect::<Vec<u8>>(), m1);
        let ac = Huff::random(&mut r, &ac_syms(am), m2);
        let (dt, at) = (table(&dc, true), table(&ac, false));
        let (dcc, acc) = (dc.codes(), ac.codes());
        let mut w = BitW::new();
        // bits read before the first block: any alignment of the bit buffer
        let lead = r.below(40) as u8;
        let lead_bits: Vec<u32> = (0..lead).map(|_| r.below(2) as u32).collect();
        for b in &lead_bits { w.put(*b, 1); }
        let n = 1 + r.below(6) as usize;
        let start = match r.below(3) { 0 => 0, 1 => r.range(-2000, 2000) as i32, _ => r.range(-32768, 32767) as i32 };
        let mut pred = start;
        let mut want = vec![];
        for _ in 0..n {
            let mut e = [0i16; 64];
            let cat = r.below(u64::from(dm) + 1) as u8;
            let d = if cat == 0 { 0 } else { let lo = 1i64 << (cat - 1); let v = r.range(lo, 2 * lo - 1) as i32; if r.chance(1, 2) { v } else { -v } };
            pred += d;
            e[0] = pred as i16;
            sym(&dc, &dcc, cat, &mut w);
            w.put(extra(d, cat), cat);
            let mut k = 1;
            let style = r.below(5);
            loop {
                if k >= 64 { break; }
                if r.chance(1, match style { 0 => 1, 1 => 4, 2 => 12, _ => 80 }) { sym(&ac, &acc, 0, &mut w); break; }
                if k + 16 <= 64 && r.chance(1, if style == 4 { 2 } else { 9 }) { sym(&ac, &acc, 0xF0, &mut w); k += 16; continue; }
                let run = (if r.chance(1, 2) { r.below(2) } else { r.below(16) } as usize).min(63 - k);
                let cat = if r.chance(1, 2) { 1 + r.below(4) } else { 1 + r.below(u64::from(am)) } as u8;
                let lo = 1i64 << (cat - 1);
                let v = r.range(lo, 2 * lo - 1) as i32 * if r.chance(1, 2) { 1 } else { -1 };
                sym(&ac, &acc, (run as u8) << 4 | cat, &mut w);
                w.put(extra(v, cat), cat);
                e[ZZ[k + run]] = v as i16;
                k += run + 1;
            }
            want.push((e, pred));
        }
        let tail = r.below(1 << 16) as u32;
        w.put(tail, 16);
        w.pad();
        let mut data = w.out.clone();
        match r.below(3) { 0 => data.extend([0xFF, 0xD9]), 1 => data.extend([0xFF, 0xD3, 1, 2, 3, 4, 5, 6, 7, 8]), _ => {} }
        let mut rd = Cursor::new(data);
        let mut s = BitStream::new();
        for b in &lead_bits {
            if s.bits_left < 1 { s.refill(&mut rd).ok().unwrap(); }
            assert_eq!(u32::from(s.get_bit()), *b, "leading bits");
        }
        let mut p = start;
        for (i, (e, wp)) in want.iter().enumerate() {
            let mut b = [0i16; 64];
            let res = s.decode_mcu_block(&mut rd, &dt, &at, &mut b, &mut p);
            assert!(res.is_ok(), "block {} of {} is valid but an error: {:?}", i, n, res.err());
            assert!(b == *e, "block {} of {} decodes to {:?} instead of {:?}", i, n, b, e);
            assert_eq!(p, *wp, "DC prediction after block {}", i);
        }
        if s.bits_left < 16 { s.refill(&mut rd).ok().unwrap(); }
        assert_eq!(s.get_bits(16) as u32, tail, "the bits behind the last block are not next");
    }
}
#[cfg(feature = "vp")]
pub use native::*;
#[cfg(feature = "vp")]
pub const TABLE: &[(&str, fn())] = &[("c05_blocks", c05_blocks)];
