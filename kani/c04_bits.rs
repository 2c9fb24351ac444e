//! Contract of the bit reader.  Ghost state: the pending bits are the top `bits_left` bits of
//! `aligned_buffer`, below them are zeros, and `buffer` ends in the same pending bits.
#![allow(dead_code)]
use super::*;
use crate::vp_shim::{any, any_in_u, any_or, assume};

fn inv(s: &BitStream) -> bool {
    let b = u32::from(s.bits_left);
    if b > 64 { return false; }
    if s.marker.is_some() && b == 63 { return true; }
    if b == 0 { return s.aligned_buffer == 0; }
    s.aligned_buffer == s.buffer << (64 - b)
}
pub(crate) fn arbitrary(marker: bool) -> BitStream {
    let mut s = BitStream::new();
    s.bits_left = any_in_u(0, 64) as u8;
    s.buffer = any();
    s.aligned_buffer = if s.bits_left == 0 { 0 } else { s.buffer << (64 - u32::from(s.bits_left)) };
    if marker { s.marker = Some(Marker::EOI); }
    s
}
/// How the standard reads entropy coded data at p: a data byte, or a marker.
enum Item { Byte(u8), Mark(u8) }
fn item(d: &[u8], p: &mut usize) -> Item {
    let at = |i: usize| if i < d.len() { d[i] } else { 0 };
    let b = at(*p);
    *p += 1;
    if b != 0xFF { return Item::Byte(b); }
    let mut x = at(*p);
    *p += 1;
    while x == 0xFF { x = at(*p); *p += 1; }
    if x == 0 { Item::Byte(0xFF) } else { Item::Mark(x) }
}
fn known(m: u8) -> bool { m >= 0xC0 && (m <= 0xDD || (m >= 0xE0 && m <= 0xEF) || m == 0xFE) && m != 0xC8 }
/// Reference: read up to 8 items.
fn check_refill(d: Vec<u8>, p: usize, mut s: BitStream) {
    let (b0, a0, m0) = (s.bits_left, s.aligned_buffer, s.marker);
    let spec = d.clone();
    let mut rd = Cursor::new(d);
    rd.set_position(p as u64);
    let r = s.refill(&mut rd);
    if m0.is_some() {
        assert!(r.is_ok() && s.marker == m0, "a marker is recorded once");
        assert!(s.aligned_buffer == a0 && s.bits_left >= b0.min(63) && s.bits_left <= 64, "only zero bits follow the marker");
        assert!(rd.position() as usize == p, "nothing behind a marker is read");
        return;
    }
    let mut q = p;
    let mut want: u64 = a0;
    let mut n = u32::from(b0);
    let mut mark = None;
    if r.is_err() || s.marker.is_some() || s.bits_left > b0 {
        let mut i = 0;
        while i < 8 && n < 64 {
            if r.is_ok() && s.marker.is_none() && n >= u32::from(s.bits_left) { break; }
            match item(&spec, &mut q) {
                Item::Byte(x) => {
                    assume(n <= 56); // cannot take another byte: the implementation must have stopped
                    want |= u64::from(x) << (56 - n);
                    n += 8;
                }
                Item::Mark(x) => { mark = Some(x); break; }
            }
            i += 1;
        }
    }
    if r.is_err() {
        assert!(matches!(mark, Some(x) if !known(x)), "an error only at an unknown marker");
        return;
    }
    assert!(u32::from(s.bits_left) == n, "as many bits as bytes were delivered");
    assert!(s.aligned_buffer == want, "the bytes follow the pending bits in order, then zeros");
    assert!(inv(&s), "buffer and aligned buffer agree");
    assert!(rd.position() as usize == q, "the reader is behind the last byte delivered or the marker");
    match mark {
        Some(x) => assert!(known(x) && s.marker == Marker::from_u8(x) && s.marker.is_some(), "the marker is recorded"),
        None => assert!(s.marker.is_none() && s.bits_left >= 32, "at least 32 bits are available"),
    }
}
const LEN: usize = 13;
#[cfg_attr(kani, kani::proof, kani::unwind(15), kani::stub(alloc::fmt::format, crate::vp_common::fmt_stub))]
pub fn c04_refill() {
    let mut d: [u8; LEN] = any();
    #[cfg(not(kani))]
    for i in 0..LEN { d[i] = any_or(&[d[i], d[i], 0xFF, 0xFF, 0, 0xD9, 0xD0]); }
    let p = any_in_u(0, LEN + 3);
    let s = arbitrary(false);
    check_refill(d.to_vec(), p, s);
}
#[cfg_attr(kani, kani::proof, kani::unwind(15), kani::stub(alloc::fmt::format, crate::vp_common::fmt_stub))]
pub fn c04_after_marker() {
    let d: [u8; 4] = any();
    check_refill(d.to_vec(), any_in_u(0, 5), arbitrary(true));
}
/// Taking bits: all states, all lengths the decoder uses.
#[cfg_attr(kani, kani::proof)]
pub fn c04_take() {
    let mut s = arbitrary(any());
    let (a, b) = (s.aligned_buffer, s.bits_left);
    let n = any_in_u(0, 16) as u8;
    assert!(s.peek_bits::<HUFF_LOOKAHEAD>() as u64 == a >> (64 - HUFF_LOOKAHEAD), "peek shows the next bits");
    assert!(s.peek_bits::<16>() as u64 == a >> 48, "peek shows the next bits");
    assert!(s.aligned_buffer == a && s.bits_left == b, "peeking takes nothing");
    match any_in_u(0, 2) {
        0 => {
            let v = s.get_bits(n);
            assert!(v as u64 == if n == 0 { 0 } else { a >> (64 - n) }, "the bits taken are the next ones");
            assert!(s.aligned_buffer == a << n && s.bits_left == b.saturating_sub(n), "exactly they are taken");
        }
        1 => {
            s.drop_bits(n);
            assert!(s.aligned_buffer == a << n && s.bits_left == b.saturating_sub(n), "exactly they are dropped");
        }
        _ => {
            let v = s.get_bit();
            assert!(u64::from(v) == a >> 63 && s.aligned_buffer == a << 1 && s.bits_left == b.saturating_sub(1), "one bit is taken");
        }
    }
    if s.bits_left > 0 || b == n { assert!(s.bits_left >= b || b - s.bits_left <= 16 && inv(&s), "the invariant is kept"); }
}
#[cfg_attr(kani, kani::proof)]
pub fn c04_has_byte() {
    let (v, b): (u32, u8) = (any(), any());
    let x = v.to_be_bytes();
    assert!(has_byte(v, b) == (x[0] == b || x[1] == b || x[2] == b || x[3] == b), "finds the byte exactly when it is there");
    assert!(has_zero(v) == (x[0] == 0 || x[1] == 0 || x[2] == 0 || x[3] == 0), "finds a zero exactly when it is there");
    let s: i32 = any_in_u(1, 15) as i32;
    let t: i32 = i32::from(any::<i16>()) & 0x7FFF;
    assume(t < 1 << s);
    assert!(huff_extend(t, s) == if t >= 1 << (s - 1) { t } else { t - (1 << s) + 1 }, "sign extension is that of the standard");
}
/// Native only: whole streams, any interleaving of refills and reads, against the bit sequence.
#[cfg(feature = "vp")]
pub fn c04_stream() {
    let len = any_in_u(0, 80);
    let mode = any_in_u(0, 3);
    let mut d: Vec<u8> = (0..len).map(|_| match mode {
        0 => any(),
        1 => any_or(&[0xFF, 0, 0x12, 0xFF, 0x7F]),
        _ => { let x: u8 = any(); if x == 0xFF { 0xFE } else { x } }
    }).collect();
    if mode >= 2 { // encoder like: stuffed bytes, fill bytes, a marker at the end
        let k = any_in_u(0, 6);
        for _ in 0..k { let i = any_in_u(0, d.len()); d.splice(i..i, [0xFF, 0]); }
        if any() { let m = any_or(&[0xD9u8, 0xD0, 0xD7, 0xDA, 0xC4]); for _ in 0..any_in_u(1, 4) { d.push(0xFF); } d.push(m);
            for _ in 0..any_in_u(0, 9) { d.push(any()); } }
    }
    // the bits the standard delivers
    let (mut bits, mut p, mut mark) = (vec![], 0, None);
    while p < d.len() + 40 && mark.is_none() {
        match item(&d, &mut p) {
            Item::Byte(b) => for i in (0..8).rev() { bits.push(b >> i & 1); },
            Item::Mark(m) => mark = Some(m),
        }
    }
    if matches!(mark, Some(m) if !known(m)) { return; }
    let mut s = BitStream::new();
    let mut rd = Cursor::new(d);
    let mut at = 0;
    while at < bits.len() + 200 {
        if s.bits_left < 32 { s.refill(&mut rd).expect("refill fails without an unknown marker"); }
        let n = any_in_u(1, 16);
        let get = |k: usize| bits.get(at + k).copied().unwrap_or(0);
        if mark.is_none() && at + 32 > bits.len() { break; }
        let want = (0..n).fold(0i32, |v, k| v << 1 | i32::from(get(k)));
        let w16 = (0..16).fold(0i32, |v, k| v << 1 | i32::from(get(k)));
        assert!(s.peek_bits::<16>() == w16, "bits {}.. are {:x}, not {:x}", at, s.peek_bits::<16>(), w16);
        match any_in_u(0, 2) {
            0 => { assert!(s.get_bits(n as u8) == want, "bits {}..{}", at, at + n); at += n; }
            1 => { s.drop_bits(n as u8); at += n; }
            _ => { assert!(i32::from(s.get_bit()) == i32::from(get(0)), "bit {}", at); at += 1; }
        }
    }
    if let (Some(m), true) = (mark, at >= bits.len()) { assert!(s.marker == Marker::from_u8(m), "the marker is recorded"); }
}
#[cfg(feature = "vp")]
pub const TABLE: &[(&str, fn())] = &[("c04_refill", c04_refill), ("c04_after_marker", c04_after_marker), ("c04_take", c04_take),
    ("c04_has_byte", c04_has_byte), ("c04_stream", c04_stream)];
