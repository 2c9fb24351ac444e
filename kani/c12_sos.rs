//! Contract of parse_sos.
#![allow(dead_code)]
use super::*;
use crate::vp_common::{decoder, Rd};
use crate::vp_shim::{any, any_in_u, any_or};

fn comp(id: u8, dc: usize, ac: usize) -> Components {
    let mut c = match Components::from([id, 0x11, 0]) { Ok(c) => c, Err(_) => panic!("valid component") };
    c.dc_huff_table = dc;
    c.ac_huff_table = ac;
    c
}
macro_rules! scan {
    ($name:ident, $nc:expr) => {
        #[cfg_attr(kani, kani::proof, kani::unwind(5), kani::stub(alloc::fmt::format, crate::vp_common::fmt_stub),
            kani::stub(crate::color_convert::choose_ycbcr_to_rgb_convert_func, crate::vp_common::choose_conv_stub),
            kani::stub(crate::idct::choose_idct_func, crate::vp_common::choose_idct_stub))]
        pub fn $name() {
            const NC: usize = $nc;
            let mut d: [u8; 13] = any();
            #[cfg(not(kani))]
            {
                d[0] = any_or(&[0]);
                d[2] = any_or(&[1, 2, 3]);
                d[1] = any_or(&[6 + 2 * (d[2] & 15)]);
                for i in 0..3 { d[3 + 2 * i] = any_or(&[1, 2, 3, i as u8 + 1]); }
                for i in 9..12 { d[i] = any_or(&[0, 0, 0x10, 0xD0, 0xE0, 63]); }
            }
            let n = any_or::<u8>(&[13, 12, 10, 8]) as usize;
            crate::vp_shim::assume(n <= 13);
            // a frame as C11 leaves it: NC components with distinct ids 1..=3
            let ids: [u8; 3] = [any_or(&[1]), any_or(&[2]), any_or(&[3])];
            let ok_id = |x: u8| x >= 1 && x <= 3;
            crate::vp_shim::assume(ok_id(ids[0]) && (NC == 1 || (ok_id(ids[1]) && ok_id(ids[2]) && ids[0] != ids[1] && ids[0] != ids[2] && ids[1] != ids[2])));
            let sel: [u8; 6] = any();
            let mut dec = decoder();
            let mut i = 0;
            while i < NC { dec.components.push(comp(ids[i], usize::from(sel[2 * i]), usize::from(sel[2 * i + 1]))); i += 1; }
            dec.info.components = NC as u8;
            let z: [u8; 4] = any();
            let mut i = 0;
            while i < 4 { dec.z_order[i] = usize::from(z[i]); i += 1; }
            let todo: usize = any();
            dec.todo = todo;

            let mut rd = Rd::new(&d, n);
            let r = parse_sos(&mut rd, &mut dec);

            let len = usize::from(d[0]) * 256 + usize::from(d[1]);
            let ns = usize::from(d[2]);
            let mut ok = NC > 0 && n >= 3 && ns >= 1 && ns <= 3 && len == 6 + 2 * ns && n >= len;
            let mut order = [NC; 3];
            let mut i = 0;
            while ok && i < ns {
                let id = d[3 + 2 * i];
                let mut j = 0;
                while j < NC { if ids[j] == id { order[i] = j; } j += 1; }
                if order[i] == NC { ok = false; }
                let mut j = 0;
                while j < i { if d[3 + 2 * j] == id { ok = false; } j += 1; }
                i += 1;
            }
            let (mut ss, mut se, mut a) = (0, 0, 0);
            if ok {
                ss = d[3 + 2 * ns]; se = d[4 + 2 * ns]; a = d[5 + 2 * ns];
                if a >> 4 > 13 || a & 15 > 13 { ok = false; }
            }
            assert!(r.is_ok() == ok, "accepted exactly when valid");
            if ok {
                assert!(usize::from(dec.num_scans) == ns, "number of components in the scan");
                assert!(dec.spec_start == ss & 63 && dec.spec_end == se & 63, "band positions are those transmitted");
                assert!(dec.succ_high == a >> 4 && dec.succ_low == a & 15, "bit positions are those transmitted");
                let j = any_in_u(0, 2);
                let mut named = 3;
                let mut i = 0;
                while i < ns { assert!(dec.z_order[i] == order[i], "components are selected in the order named"); if order[i] == j { named = i; } i += 1; }
                if j < NC {
                    let c = &dec.components[j];
                    if named < 3 {
                        let t = usize::from(d[4 + 2 * named]);
                        assert!(c.dc_huff_table == t >> 4 && c.ac_huff_table == t & 15, "named components get the transmitted table selectors");
                    } else {
                        assert!(c.dc_huff_table == usize::from(sel[2 * j]) && c.ac_huff_table == usize::from(sel[2 * j + 1]), "other components keep their selectors");
                    }
                    assert!(c.id == ids[j], "components stay");
                }
                assert!(dec.components.len() == NC && dec.todo == todo, "nothing else changes");
                assert!(rd.pos == len, "exactly the segment is consumed");
            }
            crate::vp_cover!(ok == (NC > 0) && (NC == 0 || ns == NC));
            std::mem::forget(dec);
        }
    };
}
scan!(c12_three, 3);
scan!(c12_one, 1);
scan!(c12_none, 0);
#[cfg(feature = "vp")]
pub const TABLE: &[(&str, fn())] = &[("c12_three", c12_three), ("c12_one", c12_one), ("c12_none", c12_none)];
