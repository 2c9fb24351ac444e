"""Regenerates MANIFEST.json from lib/props.py and the not-applicable list below."""
import json, sys
from pathlib import Path
V = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V / "lib"))
from props import PROPS
NA = {
 "C17": "Interleavings of OS threads: Kani has no thread support and the thread pool is an external crate; Rust's type system (disjoint &mut chunks moved into scoped jobs, checked by rustc) is what carries this, and no contract adds to it. Thread counts are varied in the bounded part of C15.",
 "C18": "A whole-program panic/termination claim over arbitrary bytes needs contracts on the two drivers (threads, Vec of symbolic size, macros) that neither Kani nor Verus can process here; absence of panics is proved only for the functions under contract in C01-C14 and C16.",
}
ids = [json.loads(l)["id"] for l in open(V / "properties.jsonl")]
m = {"version": 1,
     "setup_cmd": "python3 check.py --setup",
     "checks": [{"property": p, "quick_cmd": f"python3 check.py {p}", "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {p}",
                 "technique": c["technique"], "level": c["level"], "level_note": c["level_note"]} for p, c in sorted(PROPS.items())],
     "not_applicable": [{"property": i, "reason": NA.get(i, "machinery for this property is under construction")} for i in ids if i not in PROPS],
     "notes": "No hooks in /repo: each check copies /repo/src byte for byte into /verif/work and appends `mod` lines that attach the contract modules of /verif/kani under cfg(kani) or feature vp."}
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
