//! Contract of parse_start_of_frame and Components::from.
#![allow(dead_code)]
use super::*;
use crate::components::ComponentID;
use crate::vp_common::{decoder, Rd};
use crate::vp_shim::{any, any_in_u, any_or};

const OTHER: usize = 99;
/// The contract of Components::from (proved by c11_component) for definitions it accepts.
#[cfg(kani)]
pub fn from_stub(a: [u8; 3]) -> Result<Components, DecodeErrors> {
    kani::assume(a[0] >= 1 && a[0] <= 3 && valid(a[1] >> 4) && valid(a[1] & 15));
    Ok(Components {
        component_id: match a[0] { 1 => ComponentID::Y, 2 => ComponentID::Cb, _ => ComponentID::Cr },
        vertical_sample: usize::from(a[1] & 15), horizontal_sample: usize::from(a[1] >> 4), dc_huff_table: 0,
        ac_huff_table: 0, quantization_table_number: a[2], quantization_table: Aligned32([0; 64]), dc_pred: 0,
        up_sampler: crate::upsampler::upsample_no_op, width_stride: usize::from(a[1] >> 4), id: a[0],
    })
}
fn valid(x: u8) -> bool { x == 1 || x == 2 || x == 4 || x == 8 }
macro_rules! frame {
    ($name:ident, $nc:expr, $t:expr, $n:expr, [$($st:meta),*]) => {
        #[cfg_attr(kani, kani::proof, kani::unwind(5), kani::stub(alloc::fmt::format, crate::vp_common::fmt_stub),
            kani::stub(crate::color_convert::choose_ycbcr_to_rgb_convert_func, crate::vp_common::choose_conv_stub),
            kani::stub(crate::idct::choose_idct_func, crate::vp_common::choose_idct_stub) $(, $st)*)]
        pub fn $name() {
            // number of components of the frame header; OTHER: any number but 1 and 3
            const NC: usize = $nc;
            let mut d: [u8; 18] = any();
            if NC == OTHER { crate::vp_shim::assume(d[7] != 1 && d[7] != 3); } else { d[7] = NC as u8; }
            #[cfg(not(kani))]
            {
                d[0] = any_or(&[0]);
                d[1] = any_or(&[(8 + 3 * u16::from(d[7])) as u8]);
                d[2] = any_or(&[8]);
                for c in 0..3 {
                    d[8 + 3 * c] = any_or(&[c as u8 + 1, c as u8 + 1, c as u8 + 1, 1, 2, 3, 0, 4]);
                    d[9 + 3 * c] = any_or(&[0x11, 0x22, 0x21, 0x12, 0x14, 0x81, 0x11, 0x13]);
                    
                }
            }
            // the destinations are constants of the harness (see the instances below)
            { let t: [u8; 3] = $t; d[10] = t[0]; d[13] = t[1]; d[16] = t[2]; }
            let n: usize = if cfg!(kani) { $n } else { usize::from(any_or::<u8>(&[18, 17, 11]) % 19) };
            let (mw, mh): (u16, u16) = (any_or(&[0xFFFF, 1 << 14]), any_or(&[0xFFFF, 1 << 14]));
            let cs = match any_in_u(0, 4) { 0 => ColorSpace::RGB, 1 => ColorSpace::RGBA, 2 => ColorSpace::RGBX, 3 => ColorSpace::YCbCr, _ => ColorSpace::GRAYSCALE };
            let progressive: bool = any();
            let sof = if progressive { SOFMarkers::ProgressiveDctHuffman } else { SOFMarkers::BaselineDct };
            let mut dec = decoder();
            dec.options = dec.options.set_max_width(mw).set_max_height(mh).set_out_colorspace(cs);
            let def: [bool; 4] = [any_or::<u8>(&[1]) & 1 == 1, any_or::<u8>(&[1]) & 1 == 1, any_or::<u8>(&[1]) & 1 == 1, any_or::<u8>(&[1]) & 1 == 1];
            let q: [i32; 4] = any();
            let mut i = 0;
            while i < 4 { if def[i] { dec.qt_tables[i] = Some([q[i]; 64]); } i += 1; }

            let mut rd = Rd::new(&d, n);
            let pin = [(7usize, NC as u8), (10, d[10]), (13, d[13]), (16, d[16])];
            if NC != OTHER { rd.pin = &pin; }
            let r = parse_start_of_frame(&mut rd, sof, &mut dec);

            let len = u16::from(d[0]) * 256 + u16::from(d[1]);
            let h = u16::from(d[3]) * 256 + u16::from(d[4]);
            let w = u16::from(d[5]) * 256 + u16::from(d[6]);
            let nc = usize::from(d[7]);
            let mut ok = n >= 8 && d[2] == 8 && w > 0 && h > 0 && w <= mw && h <= mh && (nc == 1 || nc == 3)
                && usize::from(len) == 8 + 3 * nc && n >= 8 + 3 * nc;
            let (mut hm, mut vm) = (1usize, 1usize);
            let pow2 = |x: usize| x == 1 || x == 2 || x == 4 || x == 8;
            let mut i = 0;
            while ok && i < nc && i < 3 {
                let (id, s, t) = (d[8 + 3 * i], usize::from(d[9 + 3 * i]), usize::from(d[10 + 3 * i]));
                ok = id >= 1 && id <= 3 && pow2(s >> 4) && pow2(s & 15) && t < 4 && def[t & 3];
                if i > 0 && id == d[8] { ok = false; }
                if i > 1 && id == d[11] { ok = false; }
                if s >> 4 > hm { hm = s >> 4; }
                if s & 15 > vm { vm = s & 15; }
                i += 1;
            }
            assert!(r.is_ok() == ok, "accepted exactly when valid");
            if ok {
                assert!(dec.info.width == w && dec.info.height == h, "dimensions are those transmitted");
                assert!(dec.width() == w && dec.height() == h, "accessors report the dimensions");
                assert!(usize::from(dec.info.components) == nc && dec.info.pixel_density == 8 && dec.info.sof == sof, "frame information is that transmitted");
                assert!(dec.info().is_some(), "information is available");
                assert!(dec.components.len() == nc, "one component per definition");
                assert!(dec.h_max == hm && dec.v_max == vm && dec.mcu_width == 8 * hm && dec.mcu_height == 8 * vm, "MCU size");
                assert!(dec.mcu_x == (usize::from(w) + 8 * hm - 1) / (8 * hm), "MCUs per row, rounded up");
                assert!(dec.mcu_y == (usize::from(h) + 8 * vm - 1) / (8 * vm), "MCU rows, rounded up");
                assert!(dec.interleaved == (hm != 1 || vm != 1), "interleaved");
                let mut i = 0;
                while i < NC && i < 3 {
                    let c = &dec.components[i];
                    let (id, s, t) = (d[8 + 3 * i], usize::from(d[9 + 3 * i]), usize::from(d[10 + 3 * i]));
                    assert!(c.id == id && c.component_id == match id { 1 => ComponentID::Y, 2 => ComponentID::Cb, _ => ComponentID::Cr }, "component id");
                    assert!(c.horizontal_sample == s >> 4 && c.vertical_sample == s & 15, "sampling factors");
                    assert!(c.dc_pred == 0, "prediction starts at zero");
                    let k = any_in_u(0, 63);
                    assert!(c.quantization_table.0[k] == q[t & 3], "quantisation table of the named destination");
                    if usize::from(d[9]) >> 4 == hm { assert!(c.width_stride == (s >> 4) * dec.mcu_x * 8, "row stride"); }
                    i += 1;
                }
                if nc == 1 {
                    assert!(dec.input_colorspace == ColorSpace::GRAYSCALE && dec.options.get_out_colorspace() == ColorSpace::GRAYSCALE, "one component is grayscale");
                } else {
                    assert!(dec.input_colorspace == ColorSpace::YCbCr && dec.options.get_out_colorspace() == cs, "three components keep the colour space");
                }
                assert!(dec.options.get_max_width() == mw && dec.options.get_max_height() == mh, "limits unchanged");
            }
            crate::vp_cover!(ok == (NC != OTHER) && (NC == OTHER || (w > 60000 && hm == 2 && vm == 2)));
            std::mem::forget(dec);
        }
    };
}
frame!(c11_three_012, 3, [0, 1, 2], 18, [kani::stub(Components::from, from_stub)]);
frame!(c11_three_123, 3, [1, 2, 3], 18, [kani::stub(Components::from, from_stub)]);
frame!(c11_three_300, 3, [3, 0, 0], 18, [kani::stub(Components::from, from_stub)]);
frame!(c11_three_231, 3, [2, 3, 1], 18, [kani::stub(Components::from, from_stub)]);
frame!(c11_one_0, 1, [0, 0, 0], 18, [kani::stub(Components::from, from_stub)]);
frame!(c11_one_1, 1, [1, 0, 0], 18, [kani::stub(Components::from, from_stub)]);
frame!(c11_one_2, 1, [2, 0, 0], 18, [kani::stub(Components::from, from_stub)]);
frame!(c11_one_3, 1, [3, 0, 0], 18, [kani::stub(Components::from, from_stub)]);
frame!(c11_other, OTHER, [0, 1, 2], 18, [kani::stub(Components::from, from_stub)]);

/// Components::from over all 2^24 definitions.
#[cfg_attr(kani, kani::proof, kani::stub(alloc::fmt::format, crate::vp_common::fmt_stub))]
pub fn c11_component() {
    let d: [u8; 3] = [any_or(&[1, 2, 3, 0, 4]), any_or(&[0x11, 0x22, 0x81, 0x48, 0x31, 0x01]), any_or(&[0, 1, 2, 3, 4])];
    let r = Components::from(d);
    let pow2 = |x: u8| x == 1 || x == 2 || x == 4 || x == 8;
    let ok = d[0] >= 1 && d[0] <= 3 && pow2(d[1] >> 4) && pow2(d[1] & 15) && d[2] < 4;
    assert!(r.is_ok() == ok, "a component is accepted exactly when id, factors and destination are valid");
    if let Ok(c) = r {
        assert!(c.id == d[0] && c.component_id == match d[0] { 1 => ComponentID::Y, 2 => ComponentID::Cb, _ => ComponentID::Cr }, "component id");
        assert!(c.horizontal_sample == usize::from(d[1] >> 4) && c.vertical_sample == usize::from(d[1] & 15), "sampling factors");
        assert!(c.quantization_table_number == d[2] && c.dc_pred == 0, "destination and prediction");
        crate::vp_cover!(d[2] == 3);
    }
}
/// Native only: every destination byte of every component, rejected or used.
#[cfg(feature = "vp")]
pub fn c11_selectors() {
    let mut d = [0u8, 17, 8, 0, 8, 0, 8, 3, 1, 0x11, 0, 2, 0x11, 0, 3, 0x11, 0];
    let t: [u8; 3] = [any_or(&[0, 1, 2, 3]), any_or(&[0, 1, 2, 3]), any_or(&[0, 1, 2, 3])];
    for i in 0..3 { d[10 + 3 * i] = t[i]; }
    let mut dec = decoder();
    let mut ok = true;
    let have: [u8; 4] = [any_or(&[1]), any_or(&[1]), any_or(&[1]), any_or(&[1])];
    for i in 0..4 { if have[i] & 1 == 1 { dec.qt_tables[i] = Some([10 + i as i32; 64]); } }
    for x in t { if x > 3 || have[usize::from(x)] & 1 == 0 { ok = false; } }
    let r = parse_start_of_frame(&mut Rd::new(&d, 17), SOFMarkers::BaselineDct, &mut dec);
    assert!(r.is_ok() == ok, "a frame is accepted exactly when its quantisation tables are defined");
    if ok { for i in 0..3 { assert!(dec.components[i].quantization_table.0 == [10 + i32::from(t[i]); 64], "component {} gets the table of its destination", i); } }
}
#[cfg(feature = "vp")]
pub const TABLE: &[(&str, fn())] = &[("c11_three_012", c11_three_012), ("c11_three_123", c11_three_123),
    ("c11_three_300", c11_three_300), ("c11_three_231", c11_three_231), ("c11_one_0", c11_one_0), ("c11_one_1", c11_one_1),
    ("c11_one_2", c11_one_2), ("c11_one_3", c11_one_3), ("c11_other", c11_other), ("c11_component", c11_component),
    ("c11_selectors", c11_selectors)];
