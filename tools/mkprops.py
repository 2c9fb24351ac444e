import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state:a["state"]=[{"name":n,"meaning":"state the mechanism keeps","where":files[0]} for n in state]
    if observe:a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
p("C01","Quantisation tables take effect exactly as transmitted",
 "A quantisation-table segment is accepted exactly when it is a sequence of complete 8-bit tables with destinations 0 to 3 filling its declared length; each named destination then holds the 64 transmitted values moved from zig-zag to natural order (a later table for the same destination wins) and the other destinations keep what they held. Any other segment, including 16-bit precision, a bad destination or a short length, yields an error and never a panic.",
 ["inputs"],"every segment length, table header byte, table content and previously installed tables",
 "The tests decode a handful of well-formed files, so they see one destination order, one precision and correct lengths only.",
 ["src/headers.rs","src/misc.rs"],[("table segment parser","parse_dqt"),("zig-zag reordering","un_zig_zag, UN_ZIGZAG")],["qt_tables"],["destination contents after the segment","pixels dequantised with them"])
p("C02","Huffman table segments install exactly the transmitted tables",
 "A Huffman-table segment is accepted exactly when it is a sequence of complete definitions (class DC or AC, destination 0 to 3, at most 256 symbols) filling its declared length with codes that fit; each named table then has the transmitted code-length counts and symbols and is the DC or AC table of that destination, and all other tables are unchanged. Every other segment yields an error and never a panic.",
 ["inputs"],"every segment length, class/destination byte, count vector and symbol list",
 "Test files carry the few standard tables; wrong destinations, several tables per segment, over-long counts and truncated segments never occur in them.",
 ["src/headers.rs","src/huffman.rs"],[("segment parser","parse_huffman"),("table construction","HuffmanTable::new")],["dc_huffman_tables, ac_huffman_tables"],["which table a component decodes with"])
p("C03","Huffman codes are the canonical JPEG codes",
 "For every list of code-length counts and symbols, a table is built if and only if the canonical code assignment of the JPEG standard fits (no code of all ones, no oversubscription, DC symbols at most 15). Decoding any bits with a built table yields exactly the symbol and code length the canonical assignment gives them, or an error when no code is a prefix of them; the combined code-and-value shortcuts for small coefficients agree with decoding the code and then its value bits.",
 ["inputs"],"every code-length count vector, symbol list and 16-bit window of input",
 "There are more than 2^100 tables; tests use a few well-behaved ones, where long codes and boundary codes are rare.",
 ["src/huffman.rs","src/bitstream.rs"],[("derived tables","HuffmanTable::make_derived_table"),("symbol decoding","decode_huff!, BitStream::decode_dc")],["maxcode, offset, lookup, ac_lookup"],["decoded symbol and number of bits consumed"])
p("C04","Entropy-coded bits are delivered in order with stuffing removed",
 "Refilling the bit reader delivers the bits of the entropy-coded bytes in order, most significant first, without loss or duplication, dropping the zero byte stuffed after each 0xFF and any fill bytes. It never delivers bits of a marker or of what follows it: the marker is recorded once, the bits before it stay available, and afterwards only zero bits are supplied; the end of the data behaves like zero bytes.",
 ["inputs"],"every reader position, byte content and fill level of the bit buffer",
 "Whether a stuffed byte or marker falls on a refill boundary depends on the exact bit position; a file exercises only a few of those alignments.",
 ["src/bitstream.rs"],[("refill","BitStream::refill"),("0xFF detection","has_byte"),("bit extraction","peek_bits, get_bits, drop_bits, get_bit")],["buffer, aligned_buffer, bits_left, marker, reader position"],["bits handed to the Huffman decoder"])
p("C05","Sequential blocks hold exactly the transmitted coefficients",
 "Decoding a baseline block adds the transmitted difference to the component's DC prediction, stores it, and places every AC coefficient with the value and zero-run position the bits encode, leaving all others zero and consuming exactly the block's bits, for all tables, categories and runs.",
 ["inputs","histories"],"every pair of tables, bit sequence, buffer fill level and DC prediction",
 "Long codes, large categories and refill alignments combine in ways that test images do not reach.",
 ["src/bitstream.rs"],[("DC decoding","BitStream::decode_dc"),("AC decoding","BitStream::decode_mcu_block"),("sign extension","huff_extend"),("coefficient order","UN_ZIGZAG")],["dc_pred, block"],["coefficients given to the inverse transform"])
p("C06","Progressive scans reconstruct exactly the transmitted coefficients",
 "In each progressive pass (DC first, DC refinement, AC first, AC refinement) a block receives exactly the bits encoded for it: new values scaled by the point transform, correction bits applied away from zero to coefficients that are already nonzero, new coefficients placed after the encoded number of zero-history positions inside the band, and end-of-band runs counted over blocks; coefficients outside the band never change.",
 ["inputs","histories"],"every band, bit position, table, bit sequence and earlier coefficient state",
 "The interaction of end-of-band runs, correction bits and refill points depends on the history of earlier scans, of which test files contain a few fixed scripts.",
 ["src/bitstream.rs","src/mcu_prog.rs"],[("DC passes","decode_prog_dc_first, decode_prog_dc_refine"),("AC passes","decode_mcu_ac_first, decode_mcu_ac_refine"),("scan driver","parse_entropy_coded_data")],["eob_run, coefficient buffers"],["coefficients after the last scan"])
p("C07","The inverse DCT is accurate in every implementation",
 "For every block and quantisation table whose dequantised coefficients have absolute values summing to at most 8192, every inverse-transform implementation the decoder can select yields the same samples, in 0 to 255, that differ by less than 2 (less than 1 when the sum is at most 2048) from the exact real-valued inverse DCT plus 128 clamped to 0 to 255. Each block of a row is written to its own 8 by 8 sample area and nowhere else.",
 ["inputs","configurations"],"all coefficient blocks and quantisation tables in that range, scalar and AVX2 implementations",
 "The block space is astronomically large; tests compare two constant blocks and whole images with a tolerance.",
 ["src/idct.rs","src/idct/scalar.rs","src/idct/avx2.rs","src/unsafe_utils.rs"],[("portable transform","dequantize_and_idct_int"),("AVX2 transform","dequantize_and_idct_avx2")],None,["samples given to upsampling and colour conversion"])
p("C08","Colour conversion computes the documented formula everywhere",
 "For all sample values in 0 to 255, every colour conversion the decoder can select (portable, SSE, AVX2; RGB, RGBA, RGBX) writes for each of its 16 pixels R = Y + (45(Cr-128) >> 5), G = Y - ((11(Cb-128) + 23(Cr-128)) >> 5), B = Y + (113(Cb-128) >> 6), each clamped to 0 to 255, in pixel order (alpha is 255 for RGBA), advances the output position by exactly the bytes of 16 pixels and changes no other output byte.",
 ["inputs","configurations"],"all 256^3 sample triples in every lane and output position, for each implementation and output layout",
 "Tests compare images of natural colours within a tolerance, which hides clamping and lane-order errors for saturated colours.",
 ["src/color_convert.rs","src/color_convert/scalar.rs","src/color_convert/sse.rs","src/color_convert/avx.rs"],[("portable","ycbcr_to_rgb_16_scalar, ycbcr_to_rgba_16_scalar"),("SSE","ycbcr_to_rgb_sse_16, ycbcr_to_rgba_sse_16"),("AVX2","ycbcr_to_rgb_avx2, ycbcr_to_rgba_avx2, ycbcr_to_rgbx_avx2"),("selection","choose_ycbcr_to_rgb_convert_func")],None,["output pixels"])
p("C09","Chroma upsampling interpolates each row with the 3:1 filter",
 "Horizontal upsampling of a chroma row doubles it so that each output sample is (3*nearest + next nearest + 2) >> 2, with the first and last samples copied, identically in the portable and SSE versions and without mixing different rows. Vertical upsampling turns the 8 rows of an MCU row into 16: the first two and last two copy the first and last row and the rows between are the 3:1 and 1:3 rounded blends of rows 2,3 then 3,4 up to 7,8; 4:2:0 applies the vertical then the horizontal step.",
 ["inputs","configurations"],"all sample values 0 to 255 and row widths, portable and accelerated versions",
 "Tests check two ramps of fixed length, on which most indexing mistakes are invisible.",
 ["src/upsampler.rs","src/upsampler/scalar.rs","src/upsampler/sse.rs","src/upsampler/avx2.rs"],[("horizontal","upsample_horizontal, upsample_horizontal_sse"),("vertical","upsample_vertical"),("both","upsample_hv, upsample_hv_simd")],None,["chroma samples given to colour conversion"])
p("C10","Rows are cropped to the image width and laid out without gaps",
 "Assembling the samples of an MCU row writes, for every image width and output colour space (grayscale, YCbCr, RGB, RGBA), row r of the output from row r of the padded samples: pixel x from sample x for x below the width, padding samples dropped, rows contiguous, and every byte of the rows written.",
 ["inputs","configurations"],"every width, padded width, row count and output colour space",
 "The handling of the last pixels of a row depends on the width modulo 8 and 16; tests use a few widths.",
 ["src/worker.rs","src/color_convert/scalar.rs"],[("RGB rows","color_convert_ycbcr"),("YCbCr rows","ycbcr_to_ycbcr"),("grayscale rows","ycbcr_to_grayscale"),("dispatch","post_process_inner")],None,["output buffer"])
p("C11","Frame headers are validated and recorded exactly",
 "A frame header is accepted exactly when it has 8-bit precision, nonzero dimensions within the configured limits, one or three components with distinct ids 1 to 3, power-of-two sampling factors, quantisation tables that are defined, and a length that matches. An accepted header makes the reported width, height and component count those transmitted, gives each component its factors and its quantisation table, and yields MCU counts that are the dimensions divided by the MCU size rounded up; everything else is an error, never a panic.",
 ["inputs","configurations"],"every header content, limit setting and set of defined quantisation tables",
 "Boundary dimensions, limits and component combinations are a huge product of which tests use a few files.",
 ["src/headers.rs","src/components.rs","src/decoder.rs"],[("frame header parser","parse_start_of_frame"),("component parser","Components::from")],["info, components, mcu_x, mcu_y, h_max, v_max"],["reported dimensions, decode errors"])
p("C12","Scan headers select the named components, tables and bands",
 "A scan header is accepted exactly when its length matches, it names 1 to 3 distinct components of the frame, and its bit positions are at most 13; it then selects those components in the order named, gives each named component the DC and AC table selectors transmitted for it and leaves the others alone, and sets the band positions (modulo 64) and bit positions to the transmitted values. Everything else is an error, never a panic.",
 ["inputs"],"every scan header content and every accepted frame",
 "Component order, table selectors and malformed scan headers vary independently; tests contain the usual few.",
 ["src/headers.rs"],[("scan header parser","parse_sos")],["z_order, num_scans, spec_start, spec_end, succ_high, succ_low, table selectors"],["which components a scan updates"])
p("C13","Segments are dispatched by marker and skipped by length",
 "A stream must begin with the start-of-image marker; each segment before the first scan is interpreted by its marker alone: restart-interval segments of length 4 set the interval, table, frame and scan segments go to their parsers, application, comment and unknown segments are skipped by exactly their declared length (at least 2), and unsupported frame types, arithmetic-coding, DNL and end-of-image markers are errors. Between progressive scans table, restart-interval, application, comment and scan segments are treated likewise. Fill bytes 0xFF may precede a marker; other stray bytes between segments are ignored; in strict mode a single stray byte still is and more than three are an error.",
 ["inputs","configurations"],"every marker byte, segment length and placement of stray bytes, strict mode on and off",
 "Files in the tests contain the usual markers in the usual order.",
 ["src/decoder.rs","src/marker.rs","src/misc.rs"],[("header loop","decode_headers_internal"),("dispatch","parse_marker_inner"),("marker codes","Marker::from_u8")],["restart_interval, todo, is_progressive"],["errors, position of the reader"])
p("C14","Restart markers reset the decoder at every interval",
 "At a restart marker every component's DC prediction becomes zero, pending bits and end-of-band runs are discarded and decoding continues with the byte after the marker; the countdown to the next restart is reloaded with the interval. An end-of-image marker at that point changes nothing, and any other marker is an error; images coded with any restart interval decode to the same pixels as without, sequential and progressive.",
 ["inputs","histories"],"every decoder state at an interval boundary and every interval length",
 "Few test files use restart markers, and what state is left over depends on the preceding data.",
 ["src/mcu.rs","src/mcu_prog.rs","src/bitstream.rs"],[("restart handling","handle_rst, find_rst"),("stream reset","BitStream::reset"),("marker search","get_marker")],["todo, dc_pred, eob_run, bit buffer"],["pixels of images with restart intervals"])
p("C15","Decoded images have the pixels their coefficients encode",
 "Decoding a valid baseline image in one interleaved scan, or a progressive image with any scan script (grayscale, 4:4:4, 4:2:2, 4:4:0, 4:2:0; any dimensions, quantisation and Huffman tables and restart interval) yields exactly width x height x channels bytes. Luma matches the exact inverse DCT of the transmitted coefficients as in C07, chroma likewise or, when subsampled, lies in the range of the neighbouring chroma samples, and RGB, RGBA and grayscale output equal the documented conversion of the YCbCr output; the result does not depend on the thread count, and an image with more scans than the configured maximum is rejected.",
 ["inputs","configurations"],"all dimensions, sampling layouts, scan scripts, restart intervals, colour spaces, thread counts and acceleration settings",
 "Placement of blocks into rows and chunks depends on dimensions modulo the MCU size and on the parity of the MCU row count, of which tests sample a few.",
 ["src/decoder.rs","src/mcu.rs","src/mcu_prog.rs","src/worker.rs"],[("sequential driver","decode_mcu_ycbcr_baseline"),("progressive driver","decode_mcu_ycbcr_progressive, finish_progressive_decoding"),("post processing","post_process"),("component checks","check_component_dimensions, set_upsampling")],None,["returned pixel buffer"])
p("C16","Decoding does not depend on what a decoder decoded before",
 "Whatever a decoder decoded or failed to decode before, starting on a new stream begins with the same frame, scan, restart and colour-space state as a fresh decoder with the same options; only Huffman and quantisation tables may carry over. A colour-space change forced by a grayscale image ends with that image.",
 ["histories"],"every earlier decoder state and every sequence of images and option changes",
 "Tests use a fresh decoder per image.",
 ["src/decoder.rs","src/headers.rs"],[("state reset","reset_image"),("forced colour space","parse_start_of_frame")],["every field of Decoder"],["second image decoded with one decoder"])
p("C17","Pixels do not depend on how worker threads are scheduled",
 "For every interleaving of the worker threads, the pixels returned are those of a single-threaded decode.",
 ["schedules"],"all interleavings of worker threads",
 "Tests observe one schedule per run.",
 ["src/mcu.rs","src/mcu_prog.rs"],[("work distribution","scoped thread pool over disjoint output chunks")],None,["returned pixel buffer"])
p("C18","No input makes decoding panic, hang or allocate without bound",
 "For every byte string and option setting, decoding returns pixels or an error in time and memory bounded by the declared dimensions, without panicking.",
 ["inputs","configurations"],"all byte strings",
 "Tests contain a few invalid files.",
 ["src/decoder.rs","src/mcu.rs","src/mcu_prog.rs"],[("drivers","decode_mcu_ycbcr_baseline, decode_mcu_ycbcr_progressive")],None,["result of decode_buffer"])
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+"\n")
