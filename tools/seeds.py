"""Planted bugs (development tool; no check reads this or /verif/seeded).
usage: seeds.py [id...]   builds /verif/seeded/<id>, confirming in a scratch copy that the bug
compiles, passes the stable tests, and that its demo tells the two trees apart."""
import json, os, shutil, subprocess, sys
from pathlib import Path
V = Path("/verif"); S = Path("/tmp/seedwork")
HEAD = '''#![allow(dead_code)]
pub use zune_jpeg::{ColorSpace, Decoder, ZuneJpegOptions};
#[path = "refjpeg.rs"] mod vp_refjpeg;
#[path = "imgs.rs"] mod vp_imgs;
pub mod vp_shim { pub fn any<T: From<u8>>() -> T { T::from(1) } }
use vp_refjpeg::*;
use vp_imgs::*;
use std::num::NonZeroU32;
fn opt(cs: ColorSpace) -> ZuneJpegOptions { ZuneJpegOptions::new().set_out_colorspace(cs).set_max_scans(1000) }
fn dec(o: ZuneJpegOptions, b: &[u8]) -> Result<Vec<u8>, String> { decode(&mut Decoder::new_with_options(o), b) }
/// 8x8 blocks of grey, one component
fn gray(w: usize, h: usize) -> Img {
    let mut i = blank(w, h, SAMP[0]);
    i.qt = vec![Some([1; 64]), None, None, None];
    i.dc[0] = Some(Huff::flat(&(0..=11).collect::<Vec<u8>>()));
    i.ac[0] = Some(Huff::flat(&ac_syms(10)));
    i
}
/// luma (or the only component) of the decoded image against the exact inverse transform
fn check(img: &Img, jpg: &[u8], unsafe_: bool) {
    let cs = if img.comps.len() == 1 { ColorSpace::GRAYSCALE } else { ColorSpace::YCbCr };
    let px = dec(opt(cs).set_use_unsafe(unsafe_), jpg).expect("valid image");
    check_ycc(img, &px).unwrap();
}
/// `n` generated images: pixels of the YCbCr output and the documented conversion
fn images(n: u64, g: &Gen) {
    for s in 0..n {
        let mut r = Rng::new(s + 1);
        let c = gen(&mut r, g);
        let jpg = bytes(&c);
        let cs = if c.img.comps.len() == 1 { ColorSpace::GRAYSCALE } else { ColorSpace::YCbCr };
        for u in [false, true] {
            let px = dec(opt(cs).set_use_unsafe(u), &jpg).unwrap_or_else(|e| panic!("{} {}", e, describe(&c)));
            check_ycc(&c.img, &px).unwrap_or_else(|e| panic!("{}: {}", e, describe(&c)));
            if c.img.comps.len() == 3 {
                for cs in [ColorSpace::RGB, ColorSpace::RGBA, ColorSpace::GRAYSCALE] {
                    let out = dec(opt(cs).set_use_unsafe(u), &jpg).unwrap();
                    same_pixels(&out, &convert(&px, cs), cs).unwrap_or_else(|e| panic!("{:?} {} {}", cs, e, describe(&c)));
                }
            }
        }
    }
}
fn main() {
'''
DEMO = '''#!/bin/bash
# cwd: the repository. Builds a small program against it in a scratch directory and runs it.
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
mkdir "$d/src"; cp "$here"/*.rs "$d/src/"; cp "$here/Cargo.lock" "$d/"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
zune-jpeg = { path = "$repo" }
[profile.release]
debug-assertions = false
[workspace]
T
cd "$d" && CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$d/t" RUSTFLAGS=-Awarnings cargo run --release --offline -q
'''
B = {}
def bug(id, prop, edits, demo, needs, breaks): B[id] = (prop, edits, demo, needs, breaks)
exec(open(V / "tools" / "seedlist.py").read())

def sh(cmd, cwd, timeout=900):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=timeout)

def make(id):
    prop, edits, demo, needs, breaks = B[id]
    if not S.exists():
        shutil.copytree("/repo", S, symlinks=True)
    sh("git fetch -q /repo && git checkout -qf FETCH_HEAD -- . && git reset -q --hard $(git -C /repo rev-parse HEAD)", S)
    sh("git checkout -q -- .", S)
    d = V / "seeded" / id
    if d.exists(): shutil.rmtree(d)
    d.mkdir(parents=True)
    shutil.copy(V / "native/refjpeg.rs", d); shutil.copy(V / "native/imgs.rs", d)
    (d / "main.rs").write_text(HEAD + demo + "\n}\n")
    (d / "demo.sh").write_text(DEMO); os.chmod(d / "demo.sh", 0o755)
    shutil.copy(V / "tools/demo/Cargo.lock", d) if (V / "tools/demo/Cargo.lock").exists() else None
    r = sh(f"bash {d}/demo.sh", S)
    if r.returncode: print(id, "DEMO FAILS ON CLEAN", r.stdout[-500:], r.stderr[-2500:]); return False
    for f, old, new in edits:
        p = S / f; s = p.read_text()
        assert s.count(old) == 1, (id, f, s.count(old))
        p.write_text(s.replace(old, new))
    (d / "patch.diff").write_text(sh("git diff", S).stdout)
    (d / "meta.json").write_text(json.dumps({"property": prop, "needs": needs, "what_it_breaks": breaks}, indent=1) + "\n")
    # removed lines must be the original repository's
    for f, old, new in edits:
        base = sh(f"git show 0da1c85:{f}", "/repo").stdout
        for l in old.splitlines():
            if l.strip() and l.strip() not in base: print(id, "NOT ORIGINAL:", l)
    r = sh(f"bash {d}/demo.sh", S)
    if r.returncode == 0: print(id, "DEMO PASSES WITH BUG"); return False
    print(id, "demo:", (r.stderr.strip().splitlines() or ["?"])[:4])
    ok = True
    for feat in ("", "--no-default-features"):
        r = sh(f"cargo test --workspace --no-fail-fast --offline {feat} -- --test-threads 8 2>&1", S)
        bad = [l for l in r.stdout.splitlines() if "FAILED" in l or l.startswith("error")]
        if bad: print(id, "TESTS FAIL", feat, bad[:4]); ok = False
    sh("git checkout -q -- .", S)
    print(id, "ok" if ok else "rejected")
    return ok

if __name__ == "__main__":
    for i in sys.argv[1:] or B: make(i)
