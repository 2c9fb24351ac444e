//! Contract of the header loop and of the dispatch of one segment.
#![allow(dead_code, static_mut_refs)]
use super::*;
use crate::vp_common::Rd;
use crate::vp_shim::{any, any_in_u, any_or, assume};

/// T.81 table B.1, as far as the decoder knows it.
fn known(m: u8) -> bool { m >= 0xC0 && (m <= 0xDD || (m >= 0xE0 && m <= 0xEF) || m == 0xFE) && m != 0xC8 }
fn marker_spec(m: u8) -> Option<Marker> {
    if !known(m) { return None; }
    Some(if m == 0xC4 { Marker::DHT } else if m == 0xCC { Marker::DAC } else if m < 0xD0 { Marker::SOF(m - 0xC0) }
        else if m < 0xD8 { Marker::RST(m - 0xD0) } else if m == 0xD8 { Marker::SOI } else if m == 0xD9 { Marker::EOI }
        else if m == 0xDA { Marker::SOS } else if m == 0xDB { Marker::DQT } else if m == 0xDC { Marker::DNL }
        else if m == 0xDD { Marker::DRI } else if m == 0xFE { Marker::COM } else { Marker::APP(m - 0xE0) })
}
#[cfg_attr(kani, kani::proof, kani::unwind(4))]
pub fn c13_marker() {
    let m: u8 = any();
    assert!(Marker::from_u8(m) == marker_spec(m), "a marker byte means what table B.1 says");
    crate::vp_cover!(known(m));
}

// ---- dispatch: the four parsers are replaced by recorders (their contracts are C01, C02, C11, C12)
#[cfg(kani)]
pub mod rec {
    use super::*;
    pub static mut CALL: u8 = 0;
    pub static mut AT: usize = 0;
    pub static mut PROG: bool = false;
    pub static mut FAIL: bool = false;
    fn out() -> Result<(), DecodeErrors> { if unsafe { FAIL } { Err(DecodeErrors::FormatStatic("")) } else { Ok(()) } }
    pub fn dqt<R: Read>(_: &mut Decoder, _: &mut R) -> Result<(), DecodeErrors> { unsafe { CALL += 1 } out() }
    pub fn dht<R: Read>(_: &mut Decoder, _: &mut R) -> Result<(), DecodeErrors> { unsafe { CALL += 2 } out() }
    pub fn sof<R: Read>(_: &mut R, s: SOFMarkers, _: &mut Decoder) -> Result<(), DecodeErrors> {
        unsafe { CALL += 4; PROG = s == SOFMarkers::ProgressiveDctHuffman; }
        out()
    }
    pub fn sos<R: Read + BufRead>(_: &mut R, _: &mut Decoder) -> Result<(), DecodeErrors> { unsafe { CALL += 8 } out() }
}
#[cfg(kani)]
#[kani::proof]
#[kani::unwind(8)]
#[kani::stub(alloc::fmt::format, crate::vp_common::fmt_stub)]
#[kani::stub(crate::color_convert::choose_ycbcr_to_rgb_convert_func, crate::vp_common::choose_conv_stub)]
#[kani::stub(crate::idct::choose_idct_func, crate::vp_common::choose_idct_stub)]
#[kani::stub(crate::headers::parse_dqt, rec::dqt)]
#[kani::stub(crate::headers::parse_huffman, rec::dht)]
#[kani::stub(crate::headers::parse_start_of_frame, rec::sof)]
#[kani::stub(crate::headers::parse_sos, rec::sos)]
pub fn c13_dispatch() {
    let code: u8 = any();
    let m = match Marker::from_u8(code) { Some(m) => m, None => return };
    let d: [u8; 6] = any();
    let n = any_in_u(0, 6);
    let fail: bool = any();
    unsafe { rec::FAIL = fail; }
    let mut dec = crate::vp_common::decoder();
    let interval0 = usize::from(any::<u16>());
    dec.restart_interval = interval0;
    let mut rd = Rd::new(&d, n);
    let ok = { let r = dec.parse_marker_inner(m, &mut rd); let ok = r.is_ok(); std::mem::forget(r); ok };
    let call = unsafe { rec::CALL };
    let len = usize::from(d[0]) << 8 | usize::from(d[1]);
    let two = n >= 2;
    let (want, own) = match code { 0xDB => (1, true), 0xC4 => (2, true), 0xC0 | 0xC2 => (4, true), 0xDA => (8, true), _ => (0, false) };
    assert!(call == want, "a segment goes to the parser of its marker and to no other");
    if own {
        assert!(ok == !fail && rd.pos == 0, "a segment's outcome is its parser's");
        if want == 4 {
            assert!(dec.is_progressive == (code == 0xC2) && unsafe { rec::PROG } == (code == 0xC2), "the frame type is the marker's");
        }
    } else if code == 0xDD {
        assert!(ok == (n >= 4 && len == 4), "a restart interval segment has length 4");
        if ok {
            let v = usize::from(d[2]) << 8 | usize::from(d[3]);
            assert!(dec.restart_interval == v && dec.todo == v && rd.pos == 4, "a restart interval segment sets the interval");
        }
    } else if code < 0xD0 || code == 0xDC || code == 0xD9 {
        assert!(!ok, "unsupported frames, arithmetic coding, DNL and EOI are errors");
    } else if code >= 0xE0 {
        assert!(ok == (two && len >= 2), "a skipped segment has a length of at least 2");
        if ok { assert!(rd.pos == len, "a segment is skipped by exactly its length"); }
    }
    if ok && code != 0xDD { assert!(dec.restart_interval == interval0, "only a restart interval segment changes the interval"); }
    crate::vp_cover!(ok && code >= 0xE0);
    crate::vp_cover!(ok && code == 0xDD);
    crate::vp_cover!(!ok && own);
    std::mem::forget(dec);
}

// ---- the loop over segments: parse_marker_inner is replaced by a recorder (its contract is
// c13_dispatch), the two read helpers by readers that return the next bytes or an error
#[cfg(kani)]
pub mod seq {
    use super::*;
    pub static mut CALLS: usize = 0;
    pub static mut CODE: [u8; 4] = [0; 4];
    pub static mut FAIL: usize = 9;
    pub fn code(m: Marker) -> u8 {
        match m {
            Marker::SOF(n) => 0xC0 + n, Marker::DHT => 0xC4, Marker::DAC => 0xCC, Marker::RST(n) => 0xD0 + n, Marker::SOI => 0xD8,
            Marker::EOI => 0xD9, Marker::SOS => 0xDA, Marker::DQT => 0xDB, Marker::DNL => 0xDC, Marker::DRI => 0xDD,
            Marker::APP(n) => 0xE0 + n, Marker::COM => 0xFE,
        }
    }
    pub fn inner<R: Read + BufRead>(_: &mut Decoder, m: Marker, b: &mut R) -> Result<(), DecodeErrors> {
        let i = unsafe { CALLS };
        unsafe { CALLS = i + 1; if i < 4 { CODE[i] = code(m); } }
        if i == unsafe { FAIL } { return Err(DecodeErrors::FormatStatic("")); }
        b.consume(1);
        Ok(())
    }
    pub fn rb<R: Read>(r: &mut R) -> Result<u8, DecodeErrors> {
        let mut b = [0u8; 1];
        let g = r.read(&mut b);
        let ok = matches!(g, Ok(1));
        std::mem::forget(g);
        if ok { Ok(b[0]) } else { Err(DecodeErrors::FormatStatic("")) }
    }
    pub fn ru<R: Read>(r: &mut R) -> Result<u16, DecodeErrors> {
        let mut b = [0u8; 2];
        let g = r.read(&mut b);
        let ok = matches!(g, Ok(2));
        std::mem::forget(g);
        if ok { Ok(u16::from(b[0]) << 8 | u16::from(b[1])) } else { Err(DecodeErrors::FormatStatic("")) }
    }
    pub fn reset(_: &mut Decoder) {}
}
#[cfg(kani)]
#[kani::proof]
#[kani::unwind(12)]
#[kani::stub(alloc::fmt::format, crate::vp_common::fmt_stub)]
#[kani::stub(crate::color_convert::choose_ycbcr_to_rgb_convert_func, crate::vp_common::choose_conv_stub)]
#[kani::stub(crate::idct::choose_idct_func, crate::vp_common::choose_idct_stub)]
#[kani::stub(crate::misc::read_u16_be, seq::ru)]
#[kani::stub(crate::misc::read_byte, seq::rb)]
#[kani::stub(crate::decoder::Decoder::parse_marker_inner, seq::inner)]
pub fn c13_loop() {
    const N: usize = 9;
    let d: [u8; N] = any();
    let n = any_in_u(0, N);
    let fail: usize = any();
    unsafe { seq::FAIL = fail; }
    let mut dec = crate::vp_common::decoder();
    let mut rd = Rd::new(&d, n);
    let ok = { let r = dec.decode_headers_internal(&mut rd); let ok = r.is_ok(); std::mem::forget(r); ok };
    // the specification: markers are FF followed by a byte other than FF
    let mut want = false;
    let mut calls = 0;
    let mut codes = [0u8; 4];
    let mut p = 2usize;
    let mut last = 0u8;
    if n >= 2 && d[0] == 0xFF && d[1] == 0xD8 {
        let mut k = 0;
        while k < N {
            k += 1;
            if p >= n { break; }
            let m = d[p];
            p += 1;
            if last == 0xFF && m != 0xFF {
                if known(m) {
                    if calls < 4 { codes[calls] = m; }
                    calls += 1;
                    if calls == fail.wrapping_add(1) { break; }
                    p += 1;
                    if m == 0xDA { want = true; break; }
                } else {
                    if p + 2 > n { break; }
                    let l = usize::from(d[p]) << 8 | usize::from(d[p + 1]);
                    if l < 2 { break; }
                    p += l;
                }
            }
            last = m;
        }
    }
    assert!(ok == want, "headers are accepted exactly when a scan header is reached without an error");
    assert!(unsafe { seq::CALLS } == calls, "every known segment is handled once, and unknown segments are skipped by their length");
    let mut i = 0;
    while i < 4 { assert!(unsafe { seq::CODE[i] } == codes[i], "segments are handled in their order"); i += 1; }
    if ok { assert!(rd.pos == p, "scan data begins right after the scan header"); }
    crate::vp_cover!(ok && calls == 2);
    crate::vp_cover!(ok && calls == 1 && p > 6);
    std::mem::forget(dec);
}

#[cfg(feature = "vp")]
mod native {
    use super::*;
    use crate::vp_imgs::*;
    use crate::vp_refjpeg::*;
    use std::io::Cursor;

    pub fn c13_headers() {
        let mut r = rng();
        let strict = r.chance(1, 4);
        let mut out = vec![0xFF, 0xD8];
        let mut err = false; // the stream must be rejected
        let mut free = false; // strays in a number the statement leaves open
        let mut interval = 0usize;
        let mut qt: [Option<u8>; 4] = [None; 4];
        let img = { let mut i = blank(9, 7, SAMP[0]); i.qt = vec![Some([1; 64]), None, None, None]; i.dc[0] = Some(Huff::flat(&[0, 1, 2])); i.ac[0] = Some(Huff::flat(&[0, 1, 2])); i };
        let mut end = 0;
        let mut segs: Vec<Vec<u8>> = vec![];
        let n = r.below(7);
        if r.chance(1, 40) { out[r.below(2) as usize] ^= 1 << r.below(8); err = true; }
        let late = r.chance(1, 2);
        let mut must: Vec<Vec<u8>> = vec![img.dqt(), img.sof(if r.chance(1, 2) { 0xC0 } else { 0xC2 }), img.dht()];
        let prog = must[1][1] == 0xC2;
        for i in 0..n + 3 {
            let k = if late { i >= n } else { i < 3 };
            if k {
                let s = must.remove(0);
                // the frame takes over the quantisation tables defined so far
                if s[1] == 0xC0 || s[1] == 0xC2 { qt = [None; 4]; }
                segs.push(s);
                continue;
            }
            let mut junk_body = |r: &mut Rng| -> Vec<u8> { (0..if r.chance(1, 12) { r.below(65534) } else { r.below(20) }).map(|_| match r.below(5) { 0 => 0xFF, 1 => 0xC4, 2 => 0xDA, 3 => 0xD9, _ => r.next() as u8 }).collect() };
            match r.below(12) {
                0 | 1 => { let v = r.below(65536) as usize; interval = v; segs.push(Img::seg(0xDD, &(v as u16).to_be_bytes())); }
                2 | 3 => { let b = junk_body(&mut r); segs.push(Img::seg(0xE0 + r.below(16) as u8, &b)); }
                4 => { let b = junk_body(&mut r); segs.push(Img::seg(0xFE, &b)); }
                5 | 6 => { let b = junk_body(&mut r); let m = match r.below(4) { 0 => 0xC8, 1 => 0xDE + r.below(2) as u8, 2 => 0xF0 + r.below(14) as u8, _ => 2 + r.below(0xBE) as u8 }; segs.push(Img::seg(m, &b)); }
                7 => { let t = 1 + r.below(3) as usize; let v = 1 + r.below(255) as u8; qt[t] = Some(v); let mut b = vec![t as u8]; b.extend([v; 64]); segs.push(Img::seg(0xDB, &b)); }
                8 if r.chance(1, 4) => { // lengths that are too small
                    let m = [0xE1, 0xFE, 0xC8, 0xDD, 0x55, 0xDF][r.below(6) as usize];
                    let l = if m == 0xDD { [0, 1, 2, 3, 5, 6][r.below(6) as usize] } else { r.below(2) as u8 };
                    segs.push(vec![0xFF, m, 0, l, 0, 9, 9, 9]);
                    err = true;
                }
                9 if r.chance(1, 4) => { let m = [0xC1, 0xC3, 0xC5, 0xC6, 0xC7, 0xC9, 0xCA, 0xCB, 0xCD, 0xCE, 0xCF, 0xCC, 0xDC][r.below(13) as usize]; segs.push(Img::seg(m, &img.sof(0xC0)[4..])); err = true; }
                10 if r.chance(1, 6) => { segs.push(vec![0xFF, 0xD9]); err = true; }
                _ => {}
            }
        }
        segs.push(img.sos(&Scan { comps: vec![0], ss: 0, se: 63, ah: 0, al: 0 }));
        for s in &segs {
            // stray bytes and fill bytes
            if r.chance(1, 3) {
                let k = if r.chance(1, 2) { 1 } else { r.below(9) };
                for _ in 0..k { out.push((r.below(255)) as u8); }
                if strict && k > 3 { err = true; } else if strict && k > 1 { free = true; }
            } else if r.chance(1, 3) {
                // the bytes of a fill are counted as bytes between segments as well
                let k = 1 + r.below(if strict { 1 } else { 6 });
                for _ in 0..k { out.push(0xFF); }
            }
            out.extend(s);
            end = out.len();
        }
        out.extend([1, 2, 3, 0xFF, 0xD9]);
        if !err && !free && r.chance(1, 8) { out.truncate(end - 1 - r.below(3) as usize); err = true; }
        let mut d = Decoder::new_with_options(ZuneJpegOptions::new().set_strict_mode(strict));
        let mut cur = Cursor::new(out.clone());
        let res = d.decode_headers_internal(&mut cur);
        if free && !err { return; }
        assert_eq!(res.is_ok(), !err, "headers that {} be accepted: {:?}, strict {}, {:02x?}", if err { "must not" } else { "must" }, res, strict, out);
        if err { return; }
        assert_eq!(cur.position() as usize, end, "the scan data does not begin where the scan header ends ({:02x?})", out);
        assert_eq!(d.restart_interval, interval, "restart interval ({:02x?})", out);
        assert_eq!(d.is_progressive, prog, "frame type");
        assert!(d.width() == 9 && d.height() == 7, "dimensions");
        assert_eq!(d.components[0].quantization_table.0[63], 1, "quantisation table of the component");
        for t in 0..4 { assert_eq!(d.qt_tables[t].map(|q| q[63]), qt[t].map(i32::from), "quantisation table {} ({:02x?})", t, out); }
        for t in 0..4 { assert!(d.dc_huffman_tables[t].is_some() == (t == 0) && d.ac_huffman_tables[t].is_some() == (t == 0), "Huffman table {}", t); }
    }
}
#[cfg(feature = "vp")]
pub use native::*;
#[cfg(feature = "vp")]
pub const TABLE: &[(&str, fn())] = &[("c13_marker", c13_marker), ("c13_headers", c13_headers)];
