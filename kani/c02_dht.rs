//! Contract of parse_huffman: accept exactly complete definitions, install them where named.
//! HuffmanTable::new is used through its contract (C03): under Kani it is a stub that records its
//! arguments and may reject any table.
#![allow(dead_code)]
use super::*;
use crate::vp_common::{decoder, Rd, ANY_CALLS};
use crate::vp_shim::{any, any_in_u, any_or, assume};

/// What the standard makes of a segment, by definition number: the arguments of the table
/// construction; then the tag of the table each destination must hold.
#[derive(Clone, Copy)]
struct Def { bits: [u8; 17], vals: [u8; 256], dc: bool }
const NODEF: Def = Def { bits: [0; 17], vals: [0; 256], dc: false };
static mut EXPECT: [Def; 2] = [NODEF; 2];
static mut COUNT: usize = 0;
static mut PROG: bool = false;
static mut REJECT: [bool; 2] = [false; 2];
static mut NEXT: usize = 0;
const TAG: i32 = 100;

fn table(tag: i32) -> HuffmanTable {
    HuffmanTable { maxcode: [tag; 18], offset: [0; 18], lookup: [0; 1 << crate::huffman::HUFF_LOOKAHEAD], ac_lookup: None, bits: [0; 17], values: [0; 256] }
}
/// Stands for HuffmanTable::new (contract: C03): checks the arguments against what was
/// transmitted and may reject any table.
#[cfg(kani)]
pub fn new_stub(codes: &[u8; 17], values: [u8; 256], is_dc: bool, is_prog: bool) -> Result<HuffmanTable, DecodeErrors> {
    unsafe {
        let k = NEXT;
        NEXT += 1;
        assert!(k < COUNT, "only complete definitions reach the table construction");
        let (i, j) = (any_in_u(0, 16), any_in_u(0, 255));
        assert!(codes[i] == EXPECT[k & 1].bits[i], "the counts are those transmitted");
        assert!(values[j] == EXPECT[k & 1].vals[j], "the symbols are those transmitted");
        assert!(is_dc == EXPECT[k & 1].dc && is_prog == PROG, "the class is that transmitted");
        if REJECT[k & 1] { return Err(DecodeErrors::HuffmanDecode(String::new())); }
        Ok(table(TAG + k as i32))
    }
}
fn tag(t: &Option<HuffmanTable>) -> i32 { match t { Some(t) => t.maxcode[0], None => -1 } }
#[cfg(not(kani))]
fn same(a: &Option<HuffmanTable>, b: &Option<HuffmanTable>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => a.values == b.values && a.lookup == b.lookup && a.ac_lookup == b.ac_lookup && a.offset == b.offset
            && a.maxcode == b.maxcode && a.bits == b.bits,
        _ => false,
    }
}
#[cfg(kani)]
fn rejected(k: usize) -> bool { unsafe { REJECT[k & 1] } }
#[cfg(not(kani))]
fn rejected(k: usize) -> bool { unsafe { let d = EXPECT[k & 1]; HuffmanTable::new(&d.bits, d.vals, d.dc, PROG).is_err() } }

macro_rules! segment {
    ($name:ident, $tables:expr, $max:expr, $unwind:expr, $sums:expr) => {
        #[cfg_attr(kani, kani::proof, kani::unwind($unwind), kani::stub(alloc::fmt::format, crate::vp_common::fmt_stub),
            kani::stub(crate::color_convert::choose_ycbcr_to_rgb_convert_func, crate::vp_common::choose_conv_stub),
            kani::stub(crate::idct::choose_idct_func, crate::vp_common::choose_idct_stub),
            kani::stub(HuffmanTable::new, new_stub))]
        pub fn $name() {
            const MAX: usize = $max;
            let reject: [bool; 2] = any();
            let mut d: [u8; MAX] = any();
            #[cfg(not(kani))]
            {   // a search starts from well-formed definitions
                let mut p = 2;
                for _ in 0..$tables {
                    if p + 17 > MAX { break; }
                    d[p] = any_or(&[0, 1, 2, 3, 0x10, 0x11, 0x12, 0x13, 0x20, 4]);
                    for i in 0..16 { d[p + 1 + i] = any_or(&[0, 0, 0, 1]); }
                    let s: usize = d[p + 1..p + 17].iter().map(|x| usize::from(*x)).sum();
                    p += 17;
                    for i in 0..s { if p + i < MAX { d[p + i] = any_or(&[0, 1, 5, 15]); } }
                    p += s;
                }
                let l = any_or::<u16>(&[p as u16, p as u16, p as u16 + 1, p as u16 - 1, 19]);
                d[0] = (l >> 8) as u8; d[1] = l as u8;
            }
            let n = any_in_u(0, MAX);
            let prog: bool = any();
            let had: bool = any();
            let mut dec = decoder();
            dec.is_progressive = prog;
            if had { dec.dc_huffman_tables[2] = Some(table(55)); dec.ac_huffman_tables[1] = Some(table(56)); }
            unsafe { REJECT = reject; NEXT = 0; PROG = prog; }

            // the standard: a sequence of complete definitions fills the declared length
            let mut dc: [i32; 4] = [-1, -1, if had { 55 } else { -1 }, -1];
            let mut ac: [i32; 4] = [-1, if had { 56 } else { -1 }, -1, -1];
            let len = usize::from(d[0]) * 256 + usize::from(d[1]);
            let mut ok = n >= 2 && len >= 2;
            let mut pos = 2;
            let mut k = 0;
            while ok && pos < len && k < $tables {
                if len - pos < 17 || n < pos + 17 { ok = false; }
                if ok {
                    let h = d[pos];
                    let mut bits = [0u8; 17];
                    let mut sum = 0usize;
                    let mut i = 0;
                    while i < 16 { bits[i + 1] = d[pos + 1 + i]; sum += usize::from(d[pos + 1 + i]); i += 1; }
                    pos += 17;
                    if h >> 4 > 1 || h & 15 > 3 || sum > 256 || sum > len - pos || n < pos + sum { ok = false; }
                    if ok {
                        let mut vals = [0u8; 256];
                        let mut i = 0;
                        while i < sum && i < MAX { vals[i] = d[pos + i]; i += 1; }
                        pos += sum;
                        unsafe { EXPECT[k] = Def { bits, vals, dc: h >> 4 == 0 }; COUNT = k + 1; }
                        if rejected(k) { ok = false; }
                        else if h >> 4 == 0 { dc[usize::from(h & 3)] = TAG + k as i32; } else { ac[usize::from(h & 3)] = TAG + k as i32; }
                        k += 1;
                    }
                }
            }
            unsafe { COUNT = k; }
            if ok && pos < len { ok = false; } // more definitions than this harness covers: the data ends there

            let mut rd = Rd { d: &d, n, pos: 0, calls: if cfg!(kani) { 3 * $tables } else { ANY_CALLS }, pin: &[] };
            let r = parse_huffman(&mut dec, &mut rd);

            #[cfg(not(kani))]
            if k == $tables && pos < len { return; } // longer segments: c02_many
            assert!(r.is_ok() == ok, "accepted exactly when the segment is complete definitions with codes that fit");
            if ok {
                let mut i = 0;
                while i < 4 {
                    #[cfg(kani)]
                    {
                        assert!(tag(&dec.dc_huffman_tables[i]) == dc[i], "DC tables are the transmitted ones, others unchanged");
                        assert!(tag(&dec.ac_huffman_tables[i]) == ac[i], "AC tables are the transmitted ones, others unchanged");
                    }
                    #[cfg(not(kani))]
                    {
                        let want = |t: i32, is_dc: bool| if t < 0 { None } else if t < TAG { Some(table(t)) }
                            else { let d = unsafe { EXPECT[(t - TAG) as usize] }; HuffmanTable::new(&d.bits, d.vals, is_dc, prog).ok() };
                        assert!(same(&dec.dc_huffman_tables[i], &want(dc[i], true)), "DC tables are the transmitted ones, others unchanged");
                        assert!(same(&dec.ac_huffman_tables[i], &want(ac[i], false)), "AC tables are the transmitted ones, others unchanged");
                    }
                    i += 1;
                }
                assert!(rd.pos == len, "exactly the segment is consumed");
                crate::vp_cover!(k == $tables && had && pos - 2 - 17 * $tables > $sums);
            }
            std::mem::forget(dec);
        }
    };
}
segment!(c02_one, 1, 2 + 17 + 256 + 1, 258, 200);
segment!(c02_two, 2, 2 + 17 + 17 + 6, 43, 3);

/// Native only: many tables per segment.
#[cfg(feature = "vp")]
pub fn c02_many() {
    let cnt = any_in_u(1, 12);
    let mut d = vec![0u8, 0];
    let mut dec = decoder();
    dec.is_progressive = any();
    let prog = dec.is_progressive;
    let mut dc: [Option<HuffmanTable>; 4] = [None, None, None, None];
    let mut ac: [Option<HuffmanTable>; 4] = [None, None, None, None];
    for i in 0..4 { if any() { dec.dc_huffman_tables[i] = HuffmanTable::new(&[0; 17], [3; 256], true, prog).ok(); dc[i] = HuffmanTable::new(&[0; 17], [3; 256], true, prog).ok(); } }
    let mut ok = true;
    for _ in 0..cnt {
        let h: u8 = any_or(&[0, 1, 2, 3, 0x10, 0x11, 0x12, 0x13]);
        let mut bits = [0u8; 17];
        let mut room: u32 = 1;
        let mut sum = 0;
        let full = any_in_u(0, 3);
        for l in 1..17 {
            room = (room * 2).min(600);
            let m = room.saturating_sub(1).min(256 - sum).min(255);
            let c = if m == 0 { 0 } else if full == 0 && l > 7 { m } else { (any_in_u(0, m as usize) as u32).min(any_in_u(0, 12) as u32) };
            bits[l] = c as u8; room -= c; sum += c;
        }
        if any_in_u(0, 80) == 0 { bits[any_in_u(1, 16)] = any(); sum = bits.iter().map(|x| u32::from(*x)).sum(); }
        d.push(h);
        d.extend_from_slice(&bits[1..]);
        let mut vals = [0u8; 256];
        for i in 0..(sum as usize).min(256) { vals[i] = any(); if h >> 4 == 0 { vals[i] &= 15; } d.push(vals[i]); }
        if h >> 4 > 1 || h & 15 > 3 || sum > 256 { ok = false; }
        if ok {
            match HuffmanTable::new(&bits, vals, h >> 4 == 0, prog) {
                Ok(t) => if h >> 4 == 0 { dc[usize::from(h)] = Some(t) } else { ac[usize::from(h & 15)] = Some(t) },
                Err(_) => ok = false,
            }
        }
    }
    let mut len = d.len();
    match any_in_u(0, 9) {
        0 => { len += any_in_u(1, 16); d.resize(len, 0); ok = false; }
        1 => { let k = any_in_u(1, 16); d.truncate(d.len() - k); ok = false; }
        _ => {}
    }
    d[0] = (len >> 8) as u8; d[1] = len as u8;
    let r = parse_huffman(&mut dec, &mut std::io::Cursor::new(&d[..]));
    if ok {
        assert!(r.is_ok(), "a complete segment of {} definitions is rejected", cnt);
        for i in 0..4 {
            assert!(same(&dec.dc_huffman_tables[i], &dc[i]), "DC table {} is not the transmitted one", i);
            assert!(same(&dec.ac_huffman_tables[i], &ac[i]), "AC table {} is not the transmitted one", i);
        }
    } else { assert!(r.is_err(), "an invalid segment is accepted"); }
}
#[cfg(feature = "vp")]
pub const TABLE: &[(&str, fn())] = &[("c02_one", c02_one), ("c02_two", c02_two), ("c02_many", c02_many)];
