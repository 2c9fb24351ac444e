//! Contract of parse_dqt: accept exactly complete 8-bit tables, install them in natural order.
#![allow(dead_code)]
use super::*;
use crate::vp_common::{decoder, Rd, ZZ};
use crate::vp_shim::{any, any_in_u, any_or, assume};
use std::io::Cursor;

/// Segments of up to this many bytes: two tables and some junk.
const MAX: usize = 2 + 65 + 65 + 2;

/// What the standard says about the segment `d`: the tables by destination (index of the first
/// value byte), or None if it must be rejected.
fn spec(d: &[u8; MAX], n: usize) -> Option<[Option<usize>; 4]> {
    if n < 2 { return None; }
    let len = usize::from(d[0]) * 256 + usize::from(d[1]);
    if len < 2 { return None; }
    let mut left = len - 2;
    let mut pos = 2;
    let mut t = [None; 4];
    let mut i = 0;
    while i < 3 {
        if left == 0 { return Some(t); }
        if left < 65 || n - pos < 65 { return None; }
        if d[pos] > 3 { return None; }
        t[usize::from(d[pos])] = Some(pos + 1);
        pos += 65;
        left -= 65;
        i += 1;
    }
    None
}

#[cfg_attr(kani, kani::proof, kani::unwind(67), kani::stub(alloc::fmt::format, crate::vp_common::fmt_stub),
    kani::stub(crate::color_convert::choose_ycbcr_to_rgb_convert_func, crate::vp_common::choose_conv_stub),
    kani::stub(crate::idct::choose_idct_func, crate::vp_common::choose_idct_stub))]
pub fn c01_segment() {
    let len: u16 = any_or(&[67, 132, 2, 0, 1, 66, 68, 131, 133, 197]);
    let mut d: [u8; MAX] = any();
    d[0] = (len >> 8) as u8;
    d[1] = len as u8;
    d[2] = any_or(&[0, 1, 2, 3, 4, 0x10, 0x11]);
    d[67] = any_or(&[0, 1, 2, 3, 4, 0x10, 0x11]);
    let n = usize::from(any_or::<u8>(&[67, 132, 134, 66, 131, 1]));
    assume(n <= MAX);
    let mut dec = decoder();
    let old: [i32; 4] = any();
    let had: [bool; 4] = any();
    let mut i = 0;
    while i < 4 { if had[i] { dec.qt_tables[i] = Some([old[i]; 64]); } i += 1; }
    let mut rd = Rd::new(&d, n);
    let r = parse_dqt(&mut dec, &mut rd);
    let s = spec(&d, n);
    assert!(r.is_ok() == s.is_some(), "accepted exactly when the segment is complete 8-bit tables");
    if let Some(t) = s {
        let k = any_in_u(0, 63);
        let mut i = 0;
        while i < 4 {
            match t[i] {
                Some(p) => assert!(dec.qt_tables[i].map(|q| q[ZZ[k]]) == Some(i32::from(d[p + k])),
                    "the destination holds the transmitted values in natural order"),
                None => assert!(dec.qt_tables[i].map(|q| q[ZZ[k]]) == if had[i] { Some(old[i]) } else { None },
                    "the other destinations keep what they held"),
            }
            i += 1;
        }
        assert!(rd.pos == usize::from(len), "exactly the segment is consumed");
        crate::vp_cover!(len == 132 && d[2] == d[67]);
        crate::vp_cover!(len == 2);
    }
}

/// Native only: segments of any number of tables, arbitrary contents.
#[cfg(feature = "vp")]
pub fn c01_many() {
    let cnt = any_in_u(0, 40);
    let mut d = vec![0u8, 0];
    let mut dec = decoder();
    let mut want: [Option<[i32; 64]>; 4] = [None; 4];
    for i in 0..4 { if any() { let v: [u8; 64] = any(); want[i] = Some(v.map(|x| i32::from(x) + 1)); } }
    dec.qt_tables = want;
    let mut ok = true;
    for _ in 0..cnt {
        let h: u8 = if any_in_u(0, 60) == 0 { any() } else { any_in_u(0, 3) as u8 };
        d.push(h);
        let v: [u8; 64] = any();
        d.extend_from_slice(&v);
        if h > 3 { ok = false; }
        if ok { let mut t = [0; 64]; for k in 0..64 { t[ZZ[k]] = i32::from(v[k]); } want[usize::from(h)] = Some(t); }
    }
    let mut len = d.len();
    match any_in_u(0, 9) { 0 => { len -= any_in_u(1, 64).min(len - 2); } 1 => { d.truncate(any_in_u(0, d.len())); } _ => {} }
    if d.len() < len || (len - 2) % 65 != 0 { ok = false; }
    if d.len() >= 2 { d[0] = (len >> 8) as u8; d[1] = len as u8; }
    let r = parse_dqt(&mut dec, &mut Cursor::new(&d[..]));
    if r.is_err() && ok { panic!("a complete segment of {} tables is rejected", cnt); }
    if r.is_ok() {
        // a truncated declared length may end on a table boundary
        assert!(ok || (len - 2) % 65 == 0, "an incomplete segment is accepted");
        if ok && len == d.len() { assert!(dec.qt_tables == want, "tables differ from what was transmitted"); }
    }
}
#[cfg(feature = "vp")]
pub const TABLE: &[(&str, fn())] = &[("c01_segment", c01_segment), ("c01_many", c01_many)];
