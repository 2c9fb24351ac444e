//! Contract of progressive scans: the coefficient arrays after every scan of a random progression.
#![allow(dead_code)]
#[cfg(feature = "vp")]
mod native {
    use super::super::*;
    use crate::vp_imgs::*;
    use crate::vp_refjpeg::*;
    use std::io::Cursor;

    pub fn c06_scans() {
        let mut r = rng();
        // coefficients only: any size up to 10 bits plus sign
        let mut c = gen(&mut r, &Gen { prog: Some(true), small: true, sum: 200_000, ..Gen::default() });
        if r.chance(1, 2) {
            // sparse: long end of band runs
            for comp in &mut c.img.comps { for b in &mut comp.coefs { if r.chance(4, 5) { for k in 1..64 { b[k] = 0; } } } }
        }
        let mut head = vec![0xFF, 0xD8];
        head.extend(c.img.dqt());
        head.extend(c.img.sof(0xC2));
        head.extend(c.img.dht());
        head.extend(c.img.dri());
        head.extend(c.img.sos(&c.script[0]));
        let mut d = Decoder::new();
        d.read_headers(&head).unwrap_or_else(|e| panic!("valid headers are an error: {:?}", e));
        let mut buf = [vec![], vec![], vec![]];
        for (i, comp) in c.img.comps.iter().enumerate() {
            assert!(d.components[i].width_stride == comp.bw * 8 || comp.bw == 1, "component {} has rows of {} blocks, not {}", i, d.components[i].width_stride / 8, comp.bw);
            buf[i] = vec![0i16; comp.bw * comp.bh * 64];
        }
        let mut want = buf.clone();
        let mut stream = BitStream::new_progressive(d.succ_high, d.succ_low, d.spec_start, d.spec_end);
        for (n, s) in c.script.iter().enumerate() {
            if n > 0 {
                let sos = c.img.sos(s);
                let mut rd = Cursor::new(sos[2..].to_vec());
                d.parse_marker_inner(Marker::SOS, &mut rd).unwrap_or_else(|e| panic!("a valid scan header is an error: {:?}", e));
                stream.update_progressive_params(d.succ_high, d.succ_low, d.spec_start, d.spec_end);
            }
            let mut data = c.img.scan_data(s, true);
            data.extend(match r.below(3) { 0 => vec![0xFF, 0xD9], 1 => vec![0xFF, 0xDA, 0, 1, 2, 3], _ => vec![0xFF, 0xFF, 0xC4, 9, 9] });
            let mut rd = Cursor::new(data);
            let res = d.parse_entropy_coded_data(&mut rd, &mut stream, &mut buf);
            assert!(res.is_ok(), "scan {} ({:?}) of {}: {:?}", n, s, describe(&c), res.err());
            for &ci in &s.comps {
                let comp = &c.img.comps[ci];
                for (bi, b) in comp.coefs.iter().enumerate() {
                    for k in s.ss..=s.se {
                        let z = ZZ[k as usize];
                        let v = i32::from(b[z]);
                        let m = !((1 << s.al) - 1);
                        want[ci][bi * 64 + z] = (if k == 0 { v & m } else if v < 0 { -(-v & m) } else { v & m }) as i16;
                    }
                }
            }
            for ci in 0..c.img.comps.len() {
                if let Some(i) = (0..want[ci].len()).find(|i| want[ci][*i] != buf[ci][*i]) {
                    panic!("after scan {} ({:?}) of {}: coefficient {} of block {} of component {} is {} instead of {}", n, s, describe(&c), i % 64, i / 64, ci, buf[ci][i], want[ci][i]);
                }
            }
        }
    }
}
#[cfg(feature = "vp")]
pub use native::*;
#[cfg(feature = "vp")]
pub const TABLE: &[(&str, fn())] = &[("c06_scans", c06_scans)];
