bug("c01-redefine", "C01",
 [("src/headers.rs", "        decoder.qt_tables[table_position] = Some(dct_table);", "        decoder.qt_tables[table_position].get_or_insert(dct_table);")],
 '''    let mut i = gray(16, 16);
    for b in i.comps[0].coefs.iter_mut() { b[0] = 20; }
    i.qt[0] = Some([7; 64]);
    let good = i.baseline();
    // the same image with a table for the same destination in front, replaced before the frame
    let mut b = good[..2].to_vec();
    b.extend(Img::seg(0xDB, &[vec![0u8], vec![2; 64]].concat()));
    b.extend(&good[2..]);
    check(&i, &good, true);
    check(&i, &b, true);''',
 "a file which defines the same quantisation destination twice", "the first table stays in force")
bug("c02-symbols", "C02",
 [("src/headers.rs", "        if symbols_sum > dht_length\n", "        if symbols_sum > dht_length + 1\n"),
  ("src/headers.rs", "    if dht_length > 0\n", "    if dht_length > 1\n")],
 '''    let i = gray(8, 8);
    let mut b = vec![0xFF, 0xD8];
    b.extend(i.dqt()); b.extend(i.sof(0xC0));
    let mut t = i.dht();
    let n = t.len() - 2 - 1; // one byte less than the tables need
    t[2] = (n >> 8) as u8; t[3] = n as u8;
    b.extend(t);
    let s = Scan { comps: vec![0], ss: 0, se: 63, ah: 0, al: 0 };
    b.extend(i.sos(&s)); b.extend(i.scan_data(&s, false)); b.extend([0xFF, 0xD9]);
    assert!(dec(opt(ColorSpace::GRAYSCALE), &b).is_err(), "accepted");''',
 "a Huffman segment whose length is one less than its tables need", "an over-long table is accepted")
bug("c03-all-ones", "C03",
 [("src/huffman.rs", "if (code as i32) >= (1 << si)", "if (code as i32) > (1 << si)")],
 '''    let mut i = gray(8, 8);
    let mut h = Huff::flat(&[0]);
    h.bits = [0; 17]; h.bits[1] = 2; h.vals = vec![0, 1];
    i.ac[0] = Some(h);
    let mut b = vec![0xFF, 0xD8];
    b.extend(i.dqt()); b.extend(i.sof(0xC0)); b.extend(i.dht());
    let s = Scan { comps: vec![0], ss: 0, se: 63, ah: 0, al: 0 };
    b.extend(i.sos(&s)); b.extend([0x00, 0x00, 0xFF, 0xD9]);
    assert!(dec(opt(ColorSpace::GRAYSCALE), &b).is_err(), "a table with an all-ones code is accepted");''',
 "a table whose last code is all ones", "an illegal code table is accepted")
bug("c04-fill-bytes", "C04",
 [("src/bitstream.rs", "                        while next_byte == 0xFF\n", "                        if next_byte == 0xFF\n")],
 '''    for s in 0..40 {
        let mut r = Rng::new(s);
        let mut c = gen(&mut r, &Gen { prog: Some(false), restart: false, small: true, ..Gen::default() });
        let a = dec(opt(ColorSpace::YCbCr), &bytes(&c)).unwrap();
        c.img.restart = 1;
        let b = bytes(&c);
        let mut f = vec![];
        let sos = (0..b.len() - 1).rev().find(|k| b[*k] == 0xFF && b[k + 1] == 0xDA).unwrap();
        for k in 0..b.len() {
            // two fill bytes in front of each restart marker
            if k > sos && b[k] == 0xFF && k + 1 < b.len() && (0xD0..0xD8).contains(&b[k + 1]) { f.extend([0xFF, 0xFF]); }
            f.push(b[k]);
        }
        assert!(a == dec(opt(ColorSpace::YCbCr), &f).expect("fill bytes are allowed"));
    }''',
 "two or more fill bytes before a restart marker", "valid images with fill bytes are rejected")
bug("c05-late-refill", "C05",
 [("src/bitstream.rs", """        while pos < 64
        {
            self.refill(reader)?;
""", """        while pos < 64
        {
            if self.bits_left < 24
            {
                self.refill(reader)?;
            }
""")],
 '''    // AC codes of 16 bits with 10 extra bits
    let mut i = gray(64, 64);
    let mut h = Huff::flat(&[0]);
    h.bits = [0; 17]; h.bits[2] = 1; h.bits[16] = 3; h.vals = vec![0x00, 0x1A, 0x0A, 0x09];
    i.ac[0] = Some(h);
    let mut r = Rng::new(3);
    for b in &mut i.comps[0].coefs {
        for v in b.iter_mut() { *v = 0; }
        b[0] = r.range(-500, 500) as i16;
        b[1] = (if r.chance(1, 2) { 600 } else { -600 }) + r.range(-80, 80) as i16;
        b[8] = (if r.chance(1, 2) { 600 } else { -600 }) + r.range(-80, 80) as i16;
    }
    check(&i, &i.baseline(), true);''',
 "Huffman codes longer than 14 bits followed by large coefficients at particular buffer fill levels", "coefficients are decoded from bits that were not refilled")
bug("c06-refine-last", "C06",
 [("src/bitstream.rs", "            if &block[1..] != &[0; 63]\n", "            if &block[1..63] != &[0; 62]\n")],
 '''    let mut i = gray(40, 40);
    i.ac[0] = Some(Huff::flat(&ac_syms_prog(10)));
    for (k, b) in i.comps[0].coefs.iter_mut().enumerate() { for v in b.iter_mut() { *v = 0; } b[63] = [9, 11, -13, 15][k % 4]; }
    i.qt[0] = Some([16; 64]);
    let sc = |ss, se, ah, al| Scan { comps: vec![0], ss, se, ah, al };
    let b = i.progressive(&[sc(0, 0, 0, 0), sc(1, 63, 0, 2), sc(1, 63, 2, 1), sc(1, 63, 1, 0)]);
    check(&i, &b, true);''',
 "a refinement scan over blocks whose only nonzero AC coefficient is the last one", "correction bits are not applied")
bug("c07-dc-shortcut", "C07",
 [("src/idct/scalar.rs", "            if &vector[1..] == &[0_i16; 63]\n", "            if &vector[1..56] == &[0_i16; 55]\n")],
 '''    let mut i = gray(16, 16);
    for b in i.comps[0].coefs.iter_mut() { for v in b.iter_mut() { *v = 0; } b[0] = 40; b[57] = 300; }
    check(&i, &i.baseline(), false);''',
 "portable transform, blocks whose only AC coefficients lie in the last row", "the block is decoded as flat")
bug("c08-scalar-green", "C08",
 [("src/color_convert/scalar.rs", """        let g = y - ((11_i16.wrapping_mul(cb) + 23_i16.wrapping_mul(cr)) >> 5);

        let b = y + ((113_i16.wrapping_mul(cb)) >> 6);

        opt[p] = clamp(r);

        opt[p + 1] = clamp(g);

        opt[p + 2] = clamp(b);

        opt[p + 3] = 255;
""", """        let g = y - (11_i16.wrapping_mul(cb) >> 5) - (23_i16.wrapping_mul(cr) >> 5);

        let b = y + ((113_i16.wrapping_mul(cb)) >> 6);

        opt[p] = clamp(r);

        opt[p + 1] = clamp(g);

        opt[p + 2] = clamp(b);

        opt[p + 3] = 255;
""")],
 '''    images(30, &Gen { kind: Some(1), small: true, ..Gen::default() });''',
 "four channel output with the portable code and chroma values whose two rounded parts differ from the rounded sum", "green is one too high for many colours; portable and accelerated outputs differ")
bug("c09-sse-tail", "C09",
 [("src/upsampler/sse.rs", "    l_out[0] = (input[il] * 3 + input[il - 1] + 2) >> 2;", "    l_out[0] = (input[il] * 3 + input[il - 1] + 1) >> 2;")],
 '''    for s in 0..60 {
        let mut r = Rng::new(s);
        let c = gen(&mut r, &Gen { kind: Some(2), ..Gen::default() });
        let b = bytes(&c);
        let p = dec(opt(ColorSpace::YCbCr).set_use_unsafe(true), &b).unwrap();
        let q = dec(opt(ColorSpace::YCbCr).set_use_unsafe(false), &b).unwrap();
        assert!(p == q, "the accelerated filter differs ({})", describe(&c));
    }''',
 "4:2:2 images, accelerated path, particular sample values near the end of a row", "rounding of one output sample per row")
bug("c10-crop", "C10",
 [("src/color_convert/scalar.rs", "        output[start..end].copy_from_slice(&chunk[0..width]);", "        output[start..end].copy_from_slice(&chunk[width_chunk - width..]);")],
 '''    images(30, &Gen { kind: Some(0), small: true, ..Gen::default() });''',
 "a grayscale image whose width is not a multiple of eight", "rows start with the wrong sample and end with padding")
bug("c11-limit", "C11",
 [("src/headers.rs", "    if img_height > img.options.get_max_height()\n", "    if img_height > img.options.get_max_width()\n")],
 '''    let i = gray(8, 40);
    let b = i.baseline();
    assert!(dec(opt(ColorSpace::GRAYSCALE).set_max_width(9).set_max_height(40), &b).is_ok(), "within the limits");
    assert!(dec(opt(ColorSpace::GRAYSCALE).set_max_height(39), &b).is_err(), "too high");''',
 "different limits for width and height", "the height limit is not applied")
bug("c12-approx", "C12",
 [("src/headers.rs", "    if image.succ_high > 13\n", "    if image.succ_high > 15\n")],
 '''    let i = gray(8, 8);
    let mut b = vec![0xFF, 0xD8];
    b.extend(i.dqt()); b.extend(i.sof(0xC0)); b.extend(i.dht());
    let mut s = i.sos(&Scan { comps: vec![0], ss: 0, se: 63, ah: 0, al: 0 });
    let n = s.len(); s[n - 1] = 0xE0;
    b.extend(s); b.extend([0x00, 0x00, 0xFF, 0xD9]);
    assert!(Decoder::new().read_headers(&b).is_err(), "Ah = 14 is accepted");''',
 "a scan header with bit position 14 or 15", "an invalid scan header is accepted")
bug("c13-skip", "C13",
 [("src/decoder.rs", """                    warn!("Skipping {} bytes", length - 2);
                    buf.consume((length - 2) as usize);""", """                    warn!("Skipping {} bytes", length - 2);
                    buf.consume(usize::from(length - 2) & 0x7FF);""")],
 '''    let i = gray(16, 16);
    let plain = i.baseline();
    let mut b = plain[..2].to_vec();
    // a long segment with a marker code the decoder does not know, holding another image
    let mut body = i.dqt(); body.extend(vec![0x11; 2100]); body.extend([0xFF, 0xD9]); body.extend(vec![0x11; 900]);
    b.extend(Img::seg(0xF3, &body));
    b.extend(&plain[2..]);
    assert!(dec(opt(ColorSpace::GRAYSCALE), &plain).unwrap() == dec(opt(ColorSpace::GRAYSCALE), &b).expect("unknown segments are skipped"));''',
 "an unknown segment of more than 2 kB whose content looks like markers", "the segment's content is parsed")
bug("c14-pred", "C14",
 [("src/mcu.rs", "                    self.components.iter_mut().for_each(|x| x.dc_pred = 0);", "                    self.components.iter_mut().take(usize::from(self.num_scans)).for_each(|x| x.dc_pred = 0);")],
 '''    let sc = |c: usize, ss, se| Scan { comps: vec![c], ss, se, ah: 0, al: 0 };
    for s in 0..20 {
        let mut r = Rng::new(s);
        let mut c = gen(&mut r, &Gen { prog: Some(true), kind: Some(1), restart: false, small: true, ..Gen::default() });
        c.script = vec![sc(0, 0, 0), sc(1, 0, 0), sc(2, 0, 0), sc(0, 1, 63), sc(1, 1, 63), sc(2, 1, 63)];
        let a = dec(opt(ColorSpace::RGB), &bytes(&c)).unwrap();
        c.img.restart = 1;
        assert!(a == dec(opt(ColorSpace::RGB), &bytes(&c)).unwrap(), "restarts change the pixels");
    }''',
 "a progressive image with restart markers in a non-interleaved chroma DC scan", "predictions of chroma are not reset")
bug("c15-scans", "C15",
 [("src/mcu_prog.rs", "        let mut seen_scans = 1;", "        let mut seen_scans = 0;")],
 '''    let mut i = gray(16, 16);
    i.ac[0] = Some(Huff::flat(&ac_syms_prog(10)));
    let sc = |ss, se| Scan { comps: vec![0], ss, se, ah: 0, al: 0 };
    let b = i.progressive(&[sc(0, 0), sc(1, 5), sc(6, 63)]);
    assert!(dec(opt(ColorSpace::GRAYSCALE).set_max_scans(3), &b).is_ok());
    assert!(dec(opt(ColorSpace::GRAYSCALE).set_max_scans(2), &b).is_err(), "three scans although two are allowed");''',
 "an image with exactly one scan more than the limit", "the scan limit is off by one")
