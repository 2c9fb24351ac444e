//! Contract of starting on a new stream: the decoder's state is that of a fresh one.
#![allow(dead_code)]
use super::*;
use crate::vp_shim::{any, any_in_u};

fn space() -> ColorSpace {
    match any_in_u(0, 4) { 0 => ColorSpace::RGB, 1 => ColorSpace::RGBA, 2 => ColorSpace::RGBX, 3 => ColorSpace::YCbCr, _ => ColorSpace::GRAYSCALE }
}
/// Any state an earlier image may have left behind (tables apart, which may carry over).
fn used() -> Decoder {
    let mut d = crate::vp_common::decoder();
    d.info.width = any();
    d.info.height = any();
    d.info.components = any();
    d.info.pixel_density = any();
    d.info.x_density = any();
    d.info.y_density = any();
    if any() { d.info.sof = SOFMarkers::ProgressiveDctHuffman; }
    d.components.push(Components::from([1, 0x22, 0]).ok().unwrap());
    d.h_max = any();
    d.v_max = any();
    d.mcu_width = any();
    d.mcu_height = any();
    d.mcu_x = any();
    d.mcu_y = any();
    d.interleaved = any();
    d.sub_sample_ratio = match any_in_u(0, 3) { 0 => SubSampRatios::HV, 1 => SubSampRatios::V, 2 => SubSampRatios::H, _ => SubSampRatios::None };
    d.input_colorspace = if any() { ColorSpace::GRAYSCALE } else { ColorSpace::YCbCr };
    d.is_progressive = any();
    d.spec_start = any();
    d.spec_end = any();
    d.succ_high = any();
    d.succ_low = any();
    d.num_scans = any();
    d.z_order = any();
    d.restart_interval = any();
    d.todo = any();
    d.options = d.options.set_max_width(any()).set_max_height(any()).set_strict_mode(any()).set_max_scans(any())
        .set_use_unsafe(any()).set_out_colorspace(space());
    d.requested_colorspace = if any() { Some(space()) } else { None };
    d
}
/// Reading from an empty stream fails.
#[cfg(kani)]
pub fn at_end<R: Read>(_: &mut R) -> Result<u16, DecodeErrors> { Err(DecodeErrors::FormatStatic("")) }
#[cfg(kani)]
pub fn at_end_byte<R: Read>(_: &mut R) -> Result<u8, DecodeErrors> { Err(DecodeErrors::FormatStatic("")) }
/// There is no segment in an empty stream.
#[cfg(kani)]
pub fn never<R: Read + BufRead>(_: &mut Decoder, _: Marker, _: &mut R) -> Result<(), DecodeErrors> {
    assert!(false, "a segment is found in an empty stream");
    Err(DecodeErrors::FormatStatic(""))
}
#[cfg_attr(kani, kani::proof, kani::unwind(5), kani::stub(crate::misc::read_u16_be, at_end),
    kani::stub(crate::misc::read_byte, at_end_byte), kani::stub(crate::decoder::Decoder::parse_marker_inner, never),
    kani::stub(alloc::fmt::format, crate::vp_common::fmt_stub),
    kani::stub(crate::color_convert::choose_ycbcr_to_rgb_convert_func, crate::vp_common::choose_conv_stub),
    kani::stub(crate::idct::choose_idct_func, crate::vp_common::choose_idct_stub))]
pub fn c16_fresh() {
    let mut d = used();
    let forced = d.requested_colorspace.is_some();
    let want = d.requested_colorspace.unwrap_or(d.options.get_out_colorspace());
    let o = d.options.set_out_colorspace(want);
    let f = Decoder::new_with_options(o);
    // a stream that ends at once: everything up to the first segment has happened
    let r = d.read_headers(&[]);
    assert!(r.is_err(), "an empty stream is an error");
    std::mem::forget(r);
    assert!(d.info.width == f.info.width && d.info.height == f.info.height && d.info.components == f.info.components
        && d.info.sof == f.info.sof && d.info.pixel_density == f.info.pixel_density && d.info.x_density == f.info.x_density
        && d.info.y_density == f.info.y_density, "image information is that of a fresh decoder");
    assert!(d.info().is_none(), "there is no information on an image that was not read");
    assert!(d.components.is_empty() && d.h_max == f.h_max && d.v_max == f.v_max && d.interleaved == f.interleaved
        && d.sub_sample_ratio == f.sub_sample_ratio && d.input_colorspace == f.input_colorspace, "frame state is that of a fresh decoder");
    assert!(d.mcu_width == f.mcu_width && d.mcu_height == f.mcu_height && d.mcu_x == f.mcu_x && d.mcu_y == f.mcu_y, "MCU counts are those of a fresh decoder");
    assert!(d.is_progressive == f.is_progressive && d.spec_start == f.spec_start && d.spec_end == f.spec_end && d.succ_high == f.succ_high
        && d.succ_low == f.succ_low && d.num_scans == f.num_scans && d.z_order[0] == f.z_order[0]
        && d.z_order[1] == f.z_order[1] && d.z_order[2] == f.z_order[2] && d.z_order[3] == f.z_order[3], "scan state is that of a fresh decoder");
    assert!(d.restart_interval == f.restart_interval && d.todo == f.todo, "restart state is that of a fresh decoder");
    assert!(d.options.get_out_colorspace() == want, "a colour space forced by an image ends with it");
    assert!(d.options.get_max_width() == o.get_max_width() && d.options.get_max_height() == o.get_max_height()
        && d.options.get_strict_mode() == o.get_strict_mode() && d.options.get_max_scans() == o.get_max_scans()
        && d.options.get_use_unsafe() == o.get_use_unsafe() && d.options.get_threads() == o.get_threads(), "options stay");
    crate::vp_cover!(forced);
    std::mem::forget(d);
    std::mem::forget(f);
}

#[cfg(feature = "vp")]
pub const TABLE: &[(&str, fn())] = &[("c16_fresh", c16_fresh)];
