//! Contract of the restart handling: `find_rst` moves to the marker ending the interval,
//! `handle_rst` applies it.
#![allow(dead_code)]
use super::*;
use crate::components::Components;
use crate::vp_shim::{any, any_in_u, any_or};
use crate::Decoder;

fn three() -> Decoder {
    let mut dec = crate::vp_common::decoder();
    dec.components = vec![
        Components::from([1, 0x11, 0]).ok().unwrap(),
        Components::from([2, 0x11, 0]).ok().unwrap(),
        Components::from([3, 0x11, 0]).ok().unwrap(),
    ];
    dec
}
#[cfg_attr(kani, kani::proof, kani::unwind(5),
    kani::stub(alloc::fmt::format, crate::vp_common::fmt_stub),
    kani::stub(crate::color_convert::choose_ycbcr_to_rgb_convert_func, crate::vp_common::choose_conv_stub),
    kani::stub(crate::idct::choose_idct_func, crate::vp_common::choose_idct_stub))]
pub fn c14_handle() {
    let mut dec = three();
    let n = any_in_u(1, 3);
    dec.components.truncate(n);
    let mut pred = [0i32; 3];
    let mut i = 0;
    while i < 3 {
        pred[i] = any();
        if i < n { dec.components[i].dc_pred = pred[i]; }
        i += 1;
    }
    dec.restart_interval = usize::from(any::<u16>());
    dec.todo = any();
    // any state of the bit reader
    let mut s = BitStream::new();
    s.bits_left = any_in_u(0, 64) as u8;
    s.buffer = any();
    s.aligned_buffer = any();
    s.eob_run = any();
    let (b0, f0, a0, e0) = (s.bits_left, s.buffer, s.aligned_buffer, s.eob_run);
    let code: u8 = any_or(&[0xD0, 0xD7, 0xD9, 0xDA, 0xC4]);
    let m = Marker::from_u8(code);
    let m = if any() { m } else { None };
    s.marker = m;
    let interval = dec.restart_interval;
    let ok = { let r = dec.handle_rst(&mut s); let ok = r.is_ok(); std::mem::forget(r); ok };
    assert!(dec.restart_interval == interval && dec.components.len() == n, "the interval and the components stay");
    match m {
        Some(Marker::RST(_)) => {
            assert!(ok, "a restart marker is accepted");
            assert!(dec.todo == interval, "the countdown is reloaded with the interval");
            let mut i = 0;
            while i < n { assert!(dec.components[i].dc_pred == 0, "predictions are zero after a restart"); i += 1; }
            assert!(s.bits_left == 0 && s.aligned_buffer == 0 && s.eob_run == 0 && s.marker.is_none(),
                "pending bits, the end-of-band run and the marker are discarded");
        }
        Some(Marker::EOI) => {
            assert!(ok, "the end of the image is accepted");
            let mut i = 0;
            while i < n { assert!(dec.components[i].dc_pred == pred[i], "the end of the image changes no prediction"); i += 1; }
            assert!(s.bits_left == b0 && s.buffer == f0 && s.aligned_buffer == a0 && s.eob_run == e0 && s.marker == m,
                "the end of the image changes nothing of the bit reader");
        }
        Some(_) => assert!(!ok, "any other marker is an error"),
        None => {}
    }
    crate::vp_cover!(ok && n == 3 && b0 > 0 && matches!(m, Some(Marker::RST(_))));
    crate::vp_cover!(matches!(m, Some(Marker::EOI)));
    crate::vp_cover!(!ok);
    std::mem::forget(dec);
}

/// The marker search (native only): the first FF whose next non-FF byte is not zero.
#[cfg(not(kani))]
fn check_find(d: &[u8], had: bool) {
    let n = d.len();
    let p = any_in_u(0, n);
    let mut s = BitStream::new();
    let m0 = if had { Some(Marker::RST(any::<u8>() & 7)) } else { None };
    s.marker = m0;
    let mut rd = Cursor::new(d.to_vec());
    rd.set_position(p as u64);
    crate::mcu_prog::find_rst(&mut rd, &mut s);
    if m0.is_some() {
        assert!(s.marker == m0 && rd.position() as usize == p, "a marker that was found already is kept");
    } else {
        let mut q = p;
        let mut found = 0;
        while q < n && found == 0 {
            if d[q] == 0xFF {
                while q < n && d[q] == 0xFF { q += 1; }
                if q < n && d[q] != 0 { found = d[q]; }
            }
            q += 1;
        }
        if found == 0 { assert!(s.marker.is_none(), "there is no marker"); }
        else {
            assert!(s.marker == Marker::from_u8(found), "the first marker of the data is found");
            assert!(rd.position() as usize == q, "decoding continues with the byte after the marker");
        }
        crate::vp_cover!(found == 0xD0 && q >= 4);
        crate::vp_cover!(found == 0);
    }
    std::mem::forget(rd);
}
#[cfg(feature = "vp")]
mod native {
    use super::*;
    use crate::vp_imgs::*;

    /// Every string of up to 6 bytes over the classes of bytes, from every position.
    pub fn c14_find() {
        let class = [0xFFu8, 0x00, 0xD3, 0xD9, 0x55, 0x02, any()];
        let mut d: Vec<u8> = (0..any_in_u(0, 6)).map(|_| 0).collect();
        let n = class.len().pow(d.len() as u32);
        for mut k in 0..n { for b in &mut d { *b = class[k % class.len()]; k /= class.len(); } check_find(&d, false); }
        let mut r = rng();
        let long: Vec<u8> = (0..40).map(|_| class[r.below(7) as usize]).collect();
        check_find(&long, any());
    }
}
#[cfg(feature = "vp")]
pub use native::*;
#[cfg(feature = "vp")]
pub const TABLE: &[(&str, fn())] = &[("c14_handle", c14_handle), ("c14_find", c14_find)];
