"""What each check proves, with which harness, over which domain."""
from vp import H, N, PUBLIC

PROPS = {}


def add(pid, **kw):
    kw.setdefault("mods", [])
    if PUBLIC not in kw["mods"]:
        kw["mods"] = kw["mods"] + [PUBLIC]
    PROPS[pid] = kw


FMT = "error-message formatting (alloc::fmt::format) is replaced by an empty string under Kani"
CPU = "CPU feature detection is replaced by a constant choice under Kani"
READER = "the parsers are generic over their reader; Kani runs them with a reader over a symbolic byte array whose length is symbolic (kani/common.rs, Rd)"

# ---------------------------------------------------------------- C01 quantisation tables
M = "headers::vp_c01"
add("C01", level="proof", technique="Kani contract proof of parse_dqt over all segments of up to two tables",
    mods=[("headers.rs", "vp_c01", "c01_dqt.rs")],
    harnesses=[H("c01_segment", M, ["parse_dqt", "un_zig_zag", "read_u16_be", "read_byte"], timeout=500, kind="bounded",
                 bound="segments whose first table is followed by at most one more header byte's worth of data as stated in kani/c01_dqt.rs; all lengths, headers, contents and earlier tables")],
    natives=[N("c01_many", ["parse_dqt"], ms=20000, bound="random segments with up to 6 tables, damaged lengths, headers and truncations")],
    assumptions=[FMT, CPU, READER],
    level_note="The single-segment contract (all lengths, header bytes, table contents, earlier tables) is discharged by Kani within the stated number of tables; longer sequences are a bounded native check.")

# ---------------------------------------------------------------- C02 Huffman table segments
add("C02", level="exploration", technique="contract of parse_huffman checked natively over generated segments",
    mods=[("headers.rs", "vp_c02", "c02_dht.rs")],
    natives=[N("c02_one", ["parse_huffman"], ms=15000, bound="segments with one definition: random class, destination, counts, symbols, lengths and truncation"),
             N("c02_two", ["parse_huffman"], ms=15000, bound="segments with two definitions"),
             N("c02_many", ["parse_huffman", "HuffmanTable::new"], ms=25000, bound="random segments of up to 5 definitions, valid and damaged")],
    assumptions=[],
    level_note="Bounded: the symbolic-length symbol copy of parse_huffman exhausts CBMC, so the contract is evaluated on generated segments.")

# ---------------------------------------------------------------- C03 canonical codes
add("C03", level="exploration", technique="contract of table construction and code decoding checked natively, all 16-bit windows per table",
    mods=[("bitstream.rs", "vp_c03", "c03_codes.rs")],
    natives=[N("c03_dc", ["HuffmanTable::new", "make_derived_table", "decode_dc"], ms=30000, bound="random DC tables (valid and invalid), all 2^16 windows each", procs=3),
             N("c03_ac", ["HuffmanTable::new", "make_derived_table", "decode_mcu_block", "decode_mcu_ac_first"], ms=30000, bound="random AC tables, all 2^16 windows each", procs=3)],
    assumptions=[],
    level_note="Bounded: random tables, every 16-bit window of each.")

# ---------------------------------------------------------------- C04 bit reader
M = "bitstream::vp_c04"
add("C04", level="proof", technique="Kani contract proofs of the bit reader from every state satisfying its invariant",
    mods=[("bitstream.rs", "vp_c04", "c04_bits.rs")],
    harnesses=[H("c04_refill", M, ["BitStream::refill", "has_byte"], timeout=420,
                 bound="every buffer state, every 12-byte window of data at the reader position"),
               H("c04_after_marker", M, ["BitStream::refill"], timeout=120),
               H("c04_take", M, ["BitStream::get_bits", "BitStream::drop_bits", "BitStream::peek_bits", "BitStream::get_bit"], timeout=120),
               H("c04_has_byte", M, ["has_byte"], timeout=120)],
    natives=[N("c04_stream", ["BitStream::refill", "BitStream::get_bits"], ms=15000, bound="random byte strings read to the end in random portions")],
    assumptions=[FMT],
    level_note="Per call from every invariant state, over a window as long as one refill can read (runs of fill bytes longer than the window excluded); composition over calls follows from the invariant, which every call is shown to keep.")

# ---------------------------------------------------------------- C05 sequential blocks
add("C05", level="exploration", technique="contract of decode_mcu_block checked natively over generated blocks and bit alignments",
    mods=[("bitstream.rs", "vp_c04", "c04_bits.rs"), ("bitstream.rs", "vp_c05", "c05_block.rs")],
    natives=[N("c05_blocks", ["BitStream::decode_mcu_block", "decode_dc", "huff_extend"], ms=40000, procs=4,
               bound="random tables, sequences of random blocks, every coefficient category, random start alignment")],
    assumptions=[], level_note="Bounded: generated tables and blocks.")

# ---------------------------------------------------------------- C06 progressive scans
add("C06", level="exploration", technique="contract of the progressive scan decoder checked natively over generated scan scripts",
    mods=[("mcu_prog.rs", "vp_c06", "c06_scans.rs")],
    natives=[N("c06_scans", ["parse_entropy_coded_data", "decode_prog_dc_first", "decode_prog_dc_refine", "decode_mcu_ac_first", "decode_mcu_ac_refine"],
               ms=40000, procs=4, bound="random scan scripts, tables, restart intervals; coefficients compared after every scan")],
    assumptions=[], level_note="Bounded: generated images and scan scripts, coefficient buffers compared after each scan.")

# ---------------------------------------------------------------- C07 inverse DCT
add("C07", level="exploration", technique="contract of the inverse DCT implementations checked natively over generated blocks",
    mods=[("idct.rs", "vp_c07", "c07_idct.rs")],
    natives=[N("c07_blocks", ["dequantize_and_idct_int", "dequantize_and_idct_avx2", "choose_idct_func"], ms=40000, procs=4,
               bound="random and extremal coefficient blocks in the stated range, block rows of 1 to 6 blocks, both implementations compared exactly")],
    assumptions=[], level_note="Bounded: generated coefficient blocks against an exact double-precision IDCT.")

# ---------------------------------------------------------------- C08 colour conversion
M = "color_convert::vp_c08"
def c08(n, fs): return H(n, M, fs, timeout=400)
add("C08", level="proof", technique="Kani contract proofs of every colour conversion over all samples",
    mods=[("color_convert.rs", "vp_c08", "c08_color.rs")],
    harnesses=[
        c08("c08_rgb_scalar", ["ycbcr_to_rgb_16_scalar", "clamp"]), c08("c08_rgba_scalar", ["ycbcr_to_rgba_16_scalar"]),
        c08("c08_rgb_sse", ["ycbcr_to_rgb_sse_16", "ycbcr_to_rgb_16", "ycbcr_to_rgb_sse", "ycbcr_to_rgb_sse41", "clamp_sse"]),
        c08("c08_rgba_sse", ["ycbcr_to_rgba_sse_16", "ycbcr_to_rgb_ax_sse41"]),
        c08("c08_rgb_avx", ["ycbcr_to_rgb_avx2", "ycbcr_to_rgb_avx2_1", "ycbcr_to_rgb_baseline", "clamp_avx"]),
        c08("c08_rgba_avx", ["ycbcr_to_rgba_avx2", "ycbcr_to_rgba_unsafe", "ycbcr_to_rgb_baseline_no_clamp"]),
        c08("c08_rgbx_avx", ["ycbcr_to_rgbx_avx2", "ycbcr_to_rgbx_unsafe"]),
        c08("c08_frame_rgb_scalar", ["ycbcr_to_rgb_16_scalar"]), c08("c08_frame_rgba_scalar", ["ycbcr_to_rgba_16_scalar"]),
    ],
    natives=[N("c08_select_exhaustive", ["choose_ycbcr_to_rgb_convert_func"], ms=1000, procs=1,
               bound="selection on this CPU (AVX2), all 2^24 sample triples")],
    assumptions=["lane-wise models of _mm[256]_max_epi16, _mm[256]_min_epi16, _mm[256]_packus_epi16 and _mm256_permute2x128_si256 (kani/models.rs) match the instructions",
                 "CPU feature detection selects an implementation the CPU supports",
                 "for the SIMD versions the output position is fixed at 3 in the value proofs"],
    level_note="Unbounded in the data: all 2^384 sample vectors of one call are symbolic; four SIMD intrinsics Kani cannot execute are assumed models; which implementation the CPU detection selects is checked natively.")

# ---------------------------------------------------------------- C09 upsampling
M = "upsampler::vp_c09"
add("C09", level="proof", technique="Kani contract proofs of the row filters over all samples for fixed row widths",
    mods=[("upsampler.rs", "vp_c09", "c09_up.rs")],
    harnesses=[H("c09_h3", M, ["upsample_horizontal"], 200, "bounded", "row width 3"), H("c09_h8", M, ["upsample_horizontal"], 200, "bounded", "row width 8"),
               H("c09_h40", M, ["upsample_horizontal"], 300, "bounded", "row width 40"),
               H("c09_h8_sse", M, ["upsample_horizontal_sse"], 200, "bounded", "row width 8"),
               H("c09_h40_sse", M, ["upsample_horizontal_sse", "upsample_horizontal_sse_u"], 400, "bounded", "row width 40"),
               H("c09_v2", M, ["upsample_vertical"], 300, "bounded", "row width 2")],
    natives=[N("c09_rows", ["choose_horizontal_samp_function", "choose_hv_samp_function", "upsample_hv", "upsample_hv_simd", "upsample_vertical"], ms=25000, procs=3,
               bound="random widths and rows, every selectable implementation")],
    assumptions=["lane-wise models of SIMD intrinsics in kani/models.rs match the instructions", CPU],
    level_note="All samples symbolic, at fixed widths that cover the first, middle and last part of each implementation's loop; other widths and the combined 4:2:0 step by bounded native search.")

# ---------------------------------------------------------------- C10 row assembly
M = "worker::vp_c10"
add("C10", level="proof", technique="Kani contract proofs of row assembly over all samples for fixed widths",
    mods=[("worker.rs", "vp_c10", "c10_rows.rs")],
    harnesses=[H("c10_gray_5", M, ["ycbcr_to_grayscale", "post_process_inner"], 300, "bounded", "width 5"),
               H("c10_rgb_5", M, ["color_convert_ycbcr"], 400, "bounded", "width 5"),
               H("c10_gray_12", M, ["ycbcr_to_grayscale"], 400, "bounded", "width 12"),
               H("c10_ycc_5", M, ["ycbcr_to_ycbcr"], 400, "bounded", "width 5"),
               H("c10_rgb_19", M, ["color_convert_ycbcr"], 600, "bounded", "width 19")],
    natives=[N("c10_widths", ["post_process_inner", "color_convert_ycbcr", "ycbcr_to_ycbcr", "ycbcr_to_grayscale"], ms=25000, procs=3,
               bound="every width up to the harness limit, random samples, all colour spaces")],
    assumptions=[CPU], level_note="All samples symbolic at the stated widths; all other widths by bounded native search.")

# ---------------------------------------------------------------- C11 frame headers
M = "headers::vp_c11"
add("C11", level="proof", technique="Kani contract proof of Components::from; frame parser contract checked natively",
    mods=[("headers.rs", "vp_c11", "c11_sof.rs")],
    harnesses=[H("c11_component", M, ["Components::from"], 120)],
    natives=[N(n, ["parse_start_of_frame"], ms=12000, procs=1, bound="generated frame headers") for n in
             ("c11_three_012", "c11_three_123", "c11_one_0", "c11_one_3", "c11_other", "c11_selectors")],
    assumptions=[FMT, CPU, READER], level_note="Component definitions are decided for all inputs; the frame parser around them by bounded native search.")

# ---------------------------------------------------------------- C12 scan headers
M = "headers::vp_c12"
add("C12", level="proof", technique="Kani contract proof of parse_sos over all scan headers",
    mods=[("headers.rs", "vp_c12", "c12_sos.rs")],
    harnesses=[H("c12_three", M, ["parse_sos"], 500), H("c12_one", M, ["parse_sos"], 450), H("c12_none", M, ["parse_sos"], 200)],
    assumptions=[FMT, CPU, READER],
    natives=[N("c12_three", ["parse_sos"], ms=10000, bound="generated scan headers"), N("c12_one", ["parse_sos"], ms=10000, bound="generated scan headers")],
    level_note="All scan headers and frames of one or three components.")

# ---------------------------------------------------------------- C13 segments
M = "decoder::vp_c13"
add("C13", level="proof", technique="Kani contract proof of segment dispatch against the parsers' contracts; header loop checked natively",
    mods=[("decoder.rs", "vp_c13", "c13_segments.rs")], public=["c13_scans", "c15_images"],
    harnesses=[H("c13_marker", M, ["Marker::from_u8"], 120), H("c13_dispatch", M, ["Decoder::parse_marker_inner"], 200, search="c13_headers"),
               H("c13_loop", M, ["Decoder::decode_headers_internal"], 400, search="c13_headers")],
    natives=[N("c13_headers", ["Decoder::decode_headers_internal", "Decoder::parse_marker_inner"], ms=25000, procs=3, bound="generated header sequences with stray, fill, damaged and unknown segments, strict mode on and off"),
             N("c13_scans", ["decode_mcu_ycbcr_progressive"], ms=25000, procs=2, bound="generated progressive images with segments between scans")],
    assumptions=[FMT, CPU, READER, "in c13_dispatch the four segment parsers are replaced by recorders (their contracts are C01, C02, C11 and C12)",
                 "c13_loop: header streams of at most 9 bytes (a skipped segment may be of any length); read_byte and read_u16_be replaced by 'the next bytes or an error', parse_marker_inner by a recorder (its contract is c13_dispatch)"],
    level_note="Dispatch of one segment is decided for every marker, length and parser outcome; the loop over segments for all streams of up to 9 bytes (bounded) and by bounded native search beyond.")

# ---------------------------------------------------------------- C14 restarts
M = "bitstream::vp_c14"
add("C14", level="proof", technique="Kani contract proof of handle_rst from every state; marker search and images checked natively",
    mods=[("bitstream.rs", "vp_c14", "c14_restart.rs")], public=["c14_pixels", "c15_images"],
    harnesses=[H("c14_handle", M, ["Decoder::handle_rst", "BitStream::reset"], 200)],
    natives=[N("c14_find", ["find_rst", "get_marker"], ms=10000, procs=1, bound="all strings of up to 6 bytes over 7 byte classes from every position; random strings of 40 bytes"),
             N("c14_pixels", ["decode_mcu_ycbcr_baseline", "parse_entropy_coded_data"], ms=40000, procs=4, bound="generated images with and without restart intervals")],
    assumptions=[FMT, CPU],
    level_note="The reset contract is decided for every decoder and bit-reader state; that the drivers apply it at every interval is a bounded native check.")

# ---------------------------------------------------------------- C15 images
add("C15", level="exploration", technique="public-API contract checked natively on generated images",
    mods=[],
    natives=[N("c15_images", ["decode_buffer", "decode_mcu_ycbcr_baseline", "decode_mcu_ycbcr_progressive", "finish_progressive_decoding", "post_process"],
               ms=75000, procs=5, bound="generated images (dimensions, sampling, tables, scripts, restarts, options) against an exact reference"),
             N("c15_scans", ["decode_mcu_ycbcr_progressive"], ms=20000, procs=2, bound="generated progressive images around the scan limit")],
    assumptions=[], level_note="Bounded: the drivers use threads and buffers of symbolic size, which the verifiers here cannot take; generated images against an exact reference.")

# ---------------------------------------------------------------- C16 reuse
M = "decoder::vp_c16"
add("C16", level="proof", technique="Kani contract proof that starting a stream resets every field from every state",
    mods=[("decoder.rs", "vp_c16", "c16_reuse.rs")], public=["c16_reuse"],
    harnesses=[H("c16_fresh", M, ["Decoder::reset_image", "Decoder::decode_headers_internal", "Decoder::default"], 250)],
    natives=[N("c16_reuse", ["Decoder::decode_buffer", "Decoder::read_headers"], ms=40000, procs=4, bound="sequences of up to 4 intact, damaged or truncated images and option changes before the compared image")],
    assumptions=[FMT, CPU, "the stream of the proof is empty (its first read fails), so that the state compared is the one before the first segment"],
    level_note="The state at the start of a stream is decided for every earlier state; the pixels that follow by bounded native search.")
