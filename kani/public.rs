//! Whole images through the public API against the coefficient oracle (bounded, native only).
#![allow(dead_code)]
#[cfg(feature = "vp")]
mod native {
    use crate::vp_imgs::*;
    use crate::vp_refjpeg::*;
    use crate::{ColorSpace, Decoder};

    pub fn c15_images() {
        let mut r = rng();
        let c = gen(&mut r, &Gen::default());
        let jpg = bytes(&c);
        let nc = c.img.comps.len();
        let cs0 = if nc == 3 { ColorSpace::YCbCr } else { any_space(&mut r) };
        let o = options(&mut r, cs0);
        let px = decode(&mut Decoder::new_with_options(o), &jpg).unwrap_or_else(|e| panic!("{} for a valid image: {}", e, describe(&c)));
        check_ycc(&c.img, &px).unwrap_or_else(|e| panic!("{}: {}", describe(&c), e));
        let cs = any_space(&mut r);
        let o2 = o.set_out_colorspace(cs).set_num_threads(std::num::NonZeroU32::new(1 + r.below(6) as u32).unwrap());
        let out = decode(&mut Decoder::new_with_options(o2), &jpg).unwrap_or_else(|e| panic!("{} for a valid image: {}", e, describe(&c)));
        let want = if nc == 3 { convert(&px, cs) } else { px };
        same_pixels(&out, &want, cs).unwrap_or_else(|e| panic!("{:?} output is not the conversion of the YCbCr output: {} ({})", cs, e, describe(&c)));
    }
    pub fn c15_scans() {
        let mut r = rng();
        let c = gen(&mut r, &Gen { prog: Some(true), small: true, ..Gen::default() });
        let jpg = bytes(&c);
        let n = c.script.len();
        let max = [1, n - 1, n, n + 1, 1000][r.below(5) as usize];
        let o = options(&mut r, ColorSpace::RGB).set_max_scans(max);
        let out = decode(&mut Decoder::new_with_options(o), &jpg);
        if n > max { assert!(matches!(&out, Err(e) if e != "panic"), "{} scans are accepted although at most {} are allowed", n, max); }
        else { assert!(out.is_ok(), "{} scans are rejected although {} are allowed: {:?}", n, max, out); }
    }
    /// The same coefficients with and without restart intervals.
    pub fn c14_pixels() {
        let mut r = rng();
        let small = r.chance(1, 2);
        let mut c = gen(&mut r, &Gen { restart: false, small, ..Gen::default() });
        let plain = bytes(&c);
        let mcus = c.img.mcux() * c.img.mcuy();
        c.img.restart = match r.below(6) { 0 => 1, 1 => c.img.mcux(), 2 => mcus, 3 => mcus + 1 + r.below(9) as usize, 4 => (mcus - 1).max(1), _ => 1 + r.below(20) as usize };
        let rst = bytes(&c);
        let cs = any_space(&mut r);
        let o = options(&mut r, cs);
        let a = decode(&mut Decoder::new_with_options(o), &plain).unwrap_or_else(|e| panic!("{} for a valid image: {}", e, describe(&c)));
        let b = decode(&mut Decoder::new_with_options(o), &rst).unwrap_or_else(|e| panic!("{} for a valid image with restarts: {}", e, describe(&c)));
        assert!(a == b, "restart markers change the pixels: {}", describe(&c));
    }
    /// Segments between progressive scans do not change the pixels, except for what they mean.
    pub fn c13_scans() {
        let mut r = rng();
        let mut c = gen(&mut r, &Gen { prog: Some(true), small: true, restart: false, ..Gen::default() });
        let plain = bytes(&c);
        let mut v = vec![0xFF, 0xD8];
        v.extend(c.img.dqt());
        v.extend(c.img.sof(0xC2));
        let split_tables = r.chance(1, 2);
        if !split_tables { v.extend(c.img.dht()); }
        for (n, s) in c.script.clone().iter().enumerate() {
            for _ in 0..r.below(4) {
                match r.below(6) {
                    0 => { c.img.restart = r.below(7) as usize; v.extend(Img::seg(0xDD, &(c.img.restart as u16).to_be_bytes())); }
                    1 => v.extend(c.img.dqt()),
                    2 => v.extend(c.img.dht()),
                    _ => v.extend(junk(&mut r)),
                }
                if r.chance(1, 3) { v.extend([0xFF, 0xFF]); }
            }
            if split_tables && n == 0 { v.extend(c.img.dht()); }
            v.extend(c.img.sos(s));
            v.extend(c.img.scan_data(s, true));
        }
        if r.chance(1, 2) { v.extend(junk(&mut r)); }
        v.extend([0xFF, 0xD9]);
        let cs = any_space(&mut r);
        let o = options(&mut r, cs);
        let a = decode(&mut Decoder::new_with_options(o), &plain).unwrap_or_else(|e| panic!("{} for a valid image: {}", e, describe(&c)));
        let b = decode(&mut Decoder::new_with_options(o), &v).unwrap_or_else(|e| panic!("{} with segments between scans: {}", e, describe(&c)));
        assert!(a == b, "segments between scans change the pixels: {}", describe(&c));
    }
    fn damage(r: &mut Rng, mut b: Vec<u8>) -> Vec<u8> {
        match r.below(5) {
            0 => { let n = r.below(b.len() as u64) as usize; b.truncate(n); }
            1 => { let n = 1 + r.below(4); for _ in 0..n { let i = r.below(b.len() as u64) as usize; b[i] = r.next() as u8; } }
            2 => { let n = 2 + r.below(40.min(b.len() as u64 - 2)) as usize; b.truncate(n); }
            _ => {}
        }
        b
    }
    fn result(d: &mut Decoder, b: &[u8]) -> (Result<Vec<u8>, String>, ColorSpace, Option<(u16, u16, u8)>) {
        let p = decode(d, b);
        (p, d.get_output_colorspace(), d.info().map(|i| (i.width, i.height, i.components)))
    }
    #[allow(deprecated)]
    pub fn c16_reuse() {
        let mut r = rng();
        let cs = any_space(&mut r);
        let mut o = options(&mut r, cs).set_max_width(400).set_max_height(400).set_max_scans(200);
        let mut d = Decoder::new_with_options(o);
        let mut log = vec![];
        for _ in 0..1 + r.below(4) {
            let g = Gen { small: true, kind: if r.chance(1, 3) { Some(0) } else { None }, ..Gen::default() };
            let c = gen(&mut r, &g);
            let b = damage(&mut r, bytes(&c));
            let b = if r.chance(1, 20) { vec![] } else { b };
            if r.chance(1, 5) {
                let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { let _ = d.read_headers(&b); }));
                log.push(format!("headers of {}", describe(&c)));
            } else {
                let x = decode(&mut d, &b);
                log.push(format!("{} ({})", describe(&c), if x.is_ok() { "decoded" } else { "failed" }));
            }
            if r.chance(1, 6) { let cs = any_space(&mut r); d.set_output_colorspace(cs); o = o.set_out_colorspace(cs); log.push(format!("{:?}", cs)); }
            if r.chance(1, 12) { d.rgba(); o = o.set_out_colorspace(ColorSpace::RGBA); log.push("rgba".into()); }
        }
        // either an intact image or one whose headers end early
        let c = gen(&mut r, &Gen { small: true, ..Gen::default() });
        let b = if r.chance(1, 10) { vec![0xFF, 0xD8] } else { bytes(&c) };
        let got = result(&mut d, &b);
        let want = result(&mut Decoder::new_with_options(o), &b);
        assert!(got.1 == want.1, "the output colour space is {:?} instead of {:?} after {:?}", got.1, want.1, log);
        assert!(got.2 == want.2, "the image information is {:?} instead of {:?} after {:?}", got.2, want.2, log);
        assert!(got.0.is_ok() == want.0.is_ok(), "decoding {} gives {:?} instead of {:?} after {:?}", describe(&c), got.0.map(|p| p.len()), want.0.map(|p| p.len()), log);
        if let (Ok(a), Ok(b)) = (&got.0, &want.0) { assert!(a == b, "the pixels of {} are not those of a fresh decoder after {:?}", describe(&c), log); }
    }
}
#[cfg(feature = "vp")]
pub use native::*;
#[cfg(feature = "vp")]
pub const TABLE: &[(&str, fn())] = &[("c15_images", c15_images), ("c15_scans", c15_scans), ("c14_pixels", c14_pixels),
    ("c13_scans", c13_scans), ("c16_reuse", c16_reuse)];
