"""Shared machinery: overlay crates, Kani runs, native replay, evidence, verdicts."""
import json, os, re, shutil, signal, subprocess, sys, threading, time, concurrent.futures as cf
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("VP_REPO", "/repo"))
WORK = VERIF / "work"
EVID = VERIF / "evidence"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
START = time.time()
LIVE = set()


def env(extra=None):
    e = dict(os.environ)
    e["CARGO_NET_OFFLINE"] = "true"
    e.pop("RUSTFLAGS", None)
    if extra:
        e.update(extra)
    return e


def run(cmd, timeout, cwd=None, extra=None, mem_gb=None):
    """(rc, output, timed_out); kills the whole process group on timeout."""
    def pre():
        os.setsid()
        if mem_gb:
            import resource
            b = int(mem_gb * (1 << 30))
            resource.setrlimit(resource.RLIMIT_AS, (b, b))
    p = subprocess.Popen(cmd, cwd=cwd, env=env(extra), stdout=subprocess.PIPE,
                         stderr=subprocess.STDOUT, text=True, errors="replace", preexec_fn=pre)
    LIVE.add(p.pid)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out, False
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, _ = p.communicate()
        return -9, out, True
    finally:
        LIVE.discard(p.pid)


def kill_live():
    for pid in list(LIVE):
        try:
            os.killpg(pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass


# --------------------------------------------------------------------------- overlay
class Overlay:
    """A scratch crate holding the whole of /repo/src, byte for byte, plus contract modules
    appended (as `mod` declarations only) at the end of the files they specify."""

    def __init__(self, prop, mods, common=True, subst=()):
        self.dir = WORK / f"{prop}-{os.getpid()}"
        if self.dir.exists():
            shutil.rmtree(self.dir)
        self.dir.mkdir(parents=True)
        shutil.copytree(REPO / "src", self.dir / "src")
        (self.dir / "Cargo.toml").write_text(
            '[package]\nname = "zune-jpeg"\nversion = "0.0.0"\nedition = "2021"\n'
            '[features]\nx86 = []\ndefault = ["x86"]\n'
            '[dependencies]\nlog = "0.4.11"\nscoped_threadpool = "0.1.9"\n'
            '[lints.rust]\nunexpected_cfgs = "allow"\n'
            '[[bin]]\nname = "vp"\npath = "vp_main.rs"\nrequired-features=["vp"]\n'
            '[profile.release]\noverflow-checks = true\ndebug-assertions = true\n[workspace]\n'
            .replace("[features]\n", "[features]\nvp = []\n"))
        shutil.copy(VERIF / "lib/Cargo.lock", self.dir / "Cargo.lock")
        # stated shrinking of state the contract does not touch (see DESIGN.md); if the text is not
        # there, nothing is replaced
        for f, old, new in subst:
            q = self.dir / "src" / f
            if q.exists():
                q.write_text(q.read_text().replace(old, new))
        disp = []
        for f, m, src in mods:
            path = VERIF / "kani" / src
            with open(self.dir / "src" / f, "a") as h:
                h.write(f'\n#[cfg(any(kani, feature = "vp"))]\n#[path = "{path}"]\npub(crate) mod {m};\n')
            base = "crate" if f == "lib.rs" else "crate::" + f[:-3].replace("/", "::")
            disp.append(f"{base}::{m}::TABLE")
        with open(self.dir / "src" / "lib.rs", "a") as h:
            h.write(f'\n#[cfg(any(kani, feature = "vp"))]\n#[path = "{VERIF}/kani/shim.rs"]\npub mod vp_shim;\n'
                    f'#[cfg(any(kani, feature = "vp"))]\n#[path = "{VERIF}/kani/models.rs"]\npub mod vp_models;\n'
                    + (f'#[cfg(any(kani, feature = "vp"))]\n#[path = "{VERIF}/kani/common.rs"]\npub(crate) mod vp_common;\n' if common else "") +
                    
                    f'#[cfg(feature = "vp")]\n#[path = "{VERIF}/native/refjpeg.rs"]\npub mod vp_refjpeg;\n'
                    f'#[cfg(feature = "vp")]\n#[path = "{VERIF}/native/imgs.rs"]\npub mod vp_imgs;\n'
                    '#[cfg(feature = "vp")]\npub fn vp_tables() -> Vec<(&\'static str, fn())> {\n'
                    '    let mut v: Vec<(&\'static str, fn())> = vec![];\n'
                    + "".join(f"    v.extend_from_slice({d});\n" for d in disp) + "    v\n}\n")
        shutil.copy(VERIF / "native" / "vp_main.rs", self.dir / "vp_main.rs")
        self.native_bin = None
        self.native_err = None
        self.lock = threading.Lock()

    def build_native(self):
        with self.lock:
            return self._build_native()

    def _build_native(self):
        if self.native_bin or self.native_err:
            return self.native_bin
        rc, out, to = run(["cargo", "build", "--offline", "--release", "--features", "vp", "--bin", "vp",
                           "--target-dir", str(self.dir / "tn")], 300, cwd=self.dir)
        if rc != 0:
            self.native_err = out[-4000:]
            return None
        self.native_bin = str(self.dir / "tn/release/vp")
        return self.native_bin

    def native(self, harness, mode, arg, timeout, seed=None):
        """mode: replay <hexbytes> | search <millis>. -> dict"""
        b = self.build_native()
        if not b:
            return {"status": "nobuild", "detail": self.native_err}
        rc, out, to = run([b, harness, mode, arg, str(SEED if seed is None else seed)], timeout, cwd=self.dir, mem_gb=12)
        m = re.findall(r"^VPRESULT (.*)$", out, re.M)
        if m:
            return json.loads(m[-1])
        if to:
            return {"status": "timeout", "detail": out[-1500:]}
        if mode == "search" and rc in (-6, -11, -4, -8):
            return {"status": "fail", "message": f"the process was ended by signal {-rc}", "seed": seed or SEED,
                    "detail": out[-1500:]}
        return {"status": "crash", "detail": f"rc={rc} " + out[-1500:]}

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


PUBLIC = ("lib.rs", "vp_pub", "public.rs")
KANI_FLAGS = ["-Z", "stubbing", "-Z", "function-contracts"]


def kani_one(ov, modpath, h, timeout, extra_flags=(), playback=False, tag=""):
    td = ov.dir / f"tk-{h}{tag}"
    cmd = ["cargo", "kani", "--lib", "--target-dir", str(td), *KANI_FLAGS,
           "--exact", "--harness", f"{modpath}::{h}", *extra_flags]
    if playback:
        cmd += ["-Z", "concrete-playback", "--concrete-playback=print"]
    t = time.time()
    rc, out, to = run(cmd, timeout, cwd=ov.dir, mem_gb=None)
    wall = time.time() - t
    shutil.rmtree(td, ignore_errors=True)
    r = {"harness": h, "rc": rc, "wall": round(wall, 1), "timeout": to, "out": out}
    m = re.search(r"\*\* (\d+) of (\d+) failed", out)
    r["failed"], r["total"] = (int(m.group(1)), int(m.group(2))) if m else (None, 0)
    m = re.search(r"\*\* (\d+) of (\d+) cover properties satisfied", out)
    r["cover"] = (int(m.group(1)), int(m.group(2))) if m else None
    m = re.search(r"Verification Time: ([\d.]+)s", out)
    r["solver_s"] = float(m.group(1)) if m else 0.0
    fails = []
    for blk in re.findall(r"Check \d+: (\S+)\n\s*- Status: FAILURE\n\s*- Description: \"(.*?)\"(?:\n\s*- Location: (.*))?", out):
        fails.append({"check": blk[0], "description": blk[1], "location": blk[2]})
    if not fails:
        for blk in re.findall(r"Failed Checks: (.*)\n(?:\s*File: (.*))?", out):
            fails.append({"check": "", "description": blk[0], "location": blk[1] or ""})
    r["fails"] = fails
    if "VERIFICATION:- SUCCESSFUL" in out and rc == 0:
        if r["cover"] and r["cover"][0] < r["cover"][1]:
            r["verdict"] = "undecided"
            r["reason"] = f"vacuity guard: {r['cover'][0]} of {r['cover'][1]} cover properties satisfied"
        elif r["total"] == 0:
            r["verdict"] = "undecided"; r["reason"] = "no obligations generated"
        else:
            r["verdict"] = "proved"
    elif "VERIFICATION:- FAILED" in out:
        def soft(f):
            d = f["description"]
            return ("unwinding assertion" in d or "is not currently supported by Kani" in d
                    or "not supported" in d or "recursion unwinding" in d)
        hard = [f for f in fails if not soft(f)]
        if to or not fails:
            r["verdict"] = "undecided"; r["reason"] = "verifier stopped without a verdict"
        elif any(soft(f) for f in fails):
            r["verdict"] = "undecided"
            r["reason"] = "; ".join(sorted({f["description"][:160] for f in fails if soft(f)}))
            r["hard"] = hard
        else:
            r["verdict"] = "failed"
    else:
        r["verdict"] = "undecided"
        if to:
            r["reason"] = f"timeout after {timeout} s"
        elif re.search(r"^error", out, re.M):
            r["reason"] = "contract module does not compile against this source: " + \
                " | ".join(re.findall(r"^error.*$", out, re.M)[:3])
        else:
            r["reason"] = "verifier error: " + out[-300:].replace("\n", " ")
    return r


def playback_bytes(out):
    """Flat byte string of the concrete values Kani prints."""
    m = re.search(r"let concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\];\s*kani::concrete_playback_run", out, re.S)
    if not m:
        return None
    body = re.sub(r"//.*", "", m.group(1))
    bs = []
    for v in re.findall(r"vec!\[([^\]]*)\]", body):
        bs += [int(x) for x in v.replace("\n", " ").split(",") if x.strip()]
    return bytes(bs)


# --------------------------------------------------------------------------- a check
class H:
    """One Kani contract harness.  kind 'proof': complete over its stated domain (loops fully
    unwound with unwinding assertions); kind 'bounded': complete only up to `bound`."""

    def __init__(self, name, mod, functions, timeout=300, kind="proof", bound="", flags=(), search_ms=15000,
                 tier="quick", search=None):
        self.search = search or name
        self.name, self.mod, self.functions = name, mod, functions
        self.timeout, self.kind, self.bound, self.flags, self.search_ms = timeout, kind, bound, list(flags), search_ms
        self.tier = tier


class N:
    """A native bounded stand-in, run on every check (labelled bounded, never counted as proved)."""

    def __init__(self, name, functions, ms=20000, bound="", always=True, procs=2):
        self.name, self.functions, self.ms, self.bound, self.always = name, functions, ms, bound, always
        self.procs = procs


class Result:
    def __init__(self):
        self.proved = []      # dicts
        self.bounded = []
        self.undecided = []
        self.violations = []  # dicts (with witness or without)


def write_json(path, obj):
    path.parent.mkdir(parents=True, exist_ok=True)
    path.write_text(json.dumps(obj, indent=1, default=str) + "\n")


def known_findings(prop):
    f = VERIF / "known-findings.txt"
    out = []
    if f.exists():
        for line in f.read_text().splitlines():
            m = re.match(r"KNOWN-FINDING: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def check(prop, cfg):
    budget = 780 if TIER == "quick" else 5400
    deadline = START + budget
    thorough = TIER == "thorough"
    for d in WORK.glob(f"{prop}-*"):
        shutil.rmtree(d, ignore_errors=True)
    res = Result()
    WORK.mkdir(exist_ok=True)
    ov = Overlay(prop, cfg["mods"])
    try:
        _check(prop, cfg, ov, res, deadline, thorough)
    finally:
        kill_live()
        ov.close()
    known = dict(known_findings(prop))
    for k, v in known.items():
        print(f"KNOWN-FINDING: property={prop} {v}")
    new = [v for v in res.violations if v.get("key") not in known]
    replay = None
    if new:
        replay = EVID / "replay" / f"{prop}.json"
        write_json(replay, {"property": prop, "violations": new,
                            "how_to_replay": "python3 /verif/check.py %s   (native harness + bytes are listed per violation)" % prop})
    evidence(prop, cfg, res, len(new))
    if new:
        wit = any(v.get("witness") for v in new)
        print(f"VIOLATION property={prop} replay={replay}" + ("" if wit else " no-failing-input-found"))
        return 1
    n = len(res.proved)
    print(f"{prop}: {n} harness contracts proved, {len(res.bounded)} bounded stand-ins passed, "
          f"{len(res.undecided)} undecided (covered by bounded search), {time.time() - START:.0f} s")
    return 0


def run_native(ov, n, scale, deadline):
    """One stand-in, on n.procs processes with different seeds."""
    left = max(10.0, deadline - 20 - time.time())
    ms = int(min(n.ms * scale, left * 1000))
    if not ov.build_native():
        return [{"status": "nobuild", "detail": ov.native_err}]
    with cf.ThreadPoolExecutor(max_workers=n.procs) as ex:
        return list(ex.map(lambda i: ov.native(n.name, "search", str(ms), ms / 1000 + 240, seed=SEED * 64 + i), range(n.procs)))


def _check(prop, cfg, ov, res, deadline, thorough):
    hs = [h for h in cfg.get("harnesses", []) if thorough or h.tier == "quick"]
    scale = 6 if thorough else 1
    natives = [n for n in cfg.get("natives", []) if n.always]
    stages = cfg.get("stages", [])
    done = False
    ex = cf.ThreadPoolExecutor(max_workers=cfg.get("jobs", 6) + len(natives) + len(stages))
    slots = threading.Semaphore(cfg.get("jobs", 6))
    futs = {}
    for st in stages:       # custom provers: first, they are long
        futs[ex.submit(st, prop, ov, deadline, thorough)] = ("stage", st)
    for n in natives:
        futs[ex.submit(run_native, ov, n, scale, deadline)] = ("n", n)
    for h in sorted(hs, key=lambda h: -h.timeout):
        def job(h=h):
            with slots:
                left = deadline - 60 - time.time()
                if left < 20 or done:
                    return {"harness": h.name, "verdict": "undecided", "reason": "time budget used up", "out": "",
                            "fails": [], "total": 0, "wall": 0, "solver_s": 0}
                return kani_one(ov, h.mod, h.name, min(h.timeout * (4 if thorough else 1), left), h.flags)
        futs[ex.submit(job)] = ("h", h)
    for f in cf.as_completed(futs):
        kind, obj = futs[f]
        r = f.result()
        if kind == "stage":
            for k in ("proved", "bounded", "undecided", "violations"):
                getattr(res, k).extend(r.get(k, []))
        elif kind == "n":
            bad = [x for x in r if x["status"] == "fail"]
            good = [x for x in r if x["status"] == "pass"]
            if bad:
                res.violations.append({"obligation": obj.name, "kind": "bounded native contract check",
                                       "witness": bad[0], "key": obj.name})
            elif good:
                res.bounded.append({"name": obj.name, "functions": obj.functions, "bound": obj.bound,
                                    "runs": sum(x["runs"] for x in good), "accepted": sum(x["accepted"] for x in good)})
            else:
                res.undecided.append({"name": obj.name,
                                      "reason": "native: " + r[0]["status"] + " " + str(r[0].get("detail", ""))[:300]})
        else:
            handle(prop, cfg, ov, obj, r, res, deadline)
        if any(v.get("witness") for v in res.violations):
            done = True
            for g in futs:
                g.cancel()
            kill_live()
            break
    ex.shutdown(wait=False, cancel_futures=True)
    if done:
        return
    # bounded search over the contracts the verifier did not decide
    ran = {b["name"] for b in res.bounded}
    for u in [u for u in res.undecided if u.get("search") and not ov.native_err and u["search"] not in ran]:
        left = deadline - 10 - time.time()
        if left < 8:
            break
        r = ov.native(u["search"], "search", str(int(min(u.get("ms", 10000), left * 1000))), left + 30)
        u["fallback"] = {k: r[k] for k in r if k != "bytes"}
        if r["status"] == "fail":
            res.violations.append({"obligation": u["name"], "kind": "bounded search (verifier undecided)",
                                   "undecided_because": u["reason"], "witness": r, "key": u["name"]})
            return
    for u in res.undecided:
        print(f"note: {prop} {u['name']} undecided: {u['reason'][:200]}")
    if ov.native_err:
        pub = public_fallback(prop, cfg, deadline)
        if pub is not None:
            res.violations.append(pub)


def handle(prop, cfg, ov, h, r, res, deadline):
    base = {"name": h.name, "functions": h.functions, "obligations": r.get("total", 0), "wall": r.get("wall", 0),
            "solver_s": r.get("solver_s", 0), "backend": "Kani 0.68 / CBMC (cadical)", "bound": h.bound}
    if r["verdict"] == "proved":
        (res.proved if h.kind == "proof" else res.bounded).append(base)
        return
    fails = r.get("fails", [])
    if r["verdict"] == "failed" or r.get("hard"):
        left = max(30, deadline - 30 - time.time())
        w = None
        s = ov.native(h.search, "search", str(int(min(h.search_ms, left * 500))), left)
        if s["status"] == "fail":
            w = {"source": "seeded search on the real code", **s}
        if w is None and r["verdict"] == "failed" and h.search == h.name:
            p = kani_one(ov, h.mod, h.name, min(max(120, 3 * r["wall"] + 60), left), h.flags, playback=True, tag="-pb")
            b = playback_bytes(p["out"])
            if b is not None:
                q = ov.native(h.name, "replay", b.hex(), 60)
                if q["status"] == "fail":
                    w = {"source": "verifier counterexample replayed on the real code", "bytes": b.hex(), **q}
        if w is not None:
            res.violations.append({"obligation": h.name, "functions": h.functions, "failed_checks": fails,
                                   "witness": w, "verifier_output": r["out"][-3000:], "key": h.name})
            return
        if r["verdict"] == "failed":
            res.violations.append({"obligation": h.name, "functions": h.functions, "failed_checks": fails,
                                   "witness": None, "verifier_output": r["out"][-6000:], "key": h.name})
            return
    res.undecided.append({"name": h.name, "functions": h.functions, "reason": r.get("reason", "?"),
                          "search": h.search, "ms": h.search_ms})


def public_fallback(prop, cfg, deadline):
    """The contract modules cannot be compiled against this source: bounded check through the
    public API only (reference encoder, whole images)."""
    ov = None
    try:
        ov = Overlay(prop + "pub", [PUBLIC], common=False)
        for name in cfg.get("public", ["c15_images"]):
            left = deadline - time.time()
            ms = int(max(15, min(90, left - 60)) * 1000)
            r = run_native(ov, N(name, [], ms, procs=4), 1, deadline + 30)
            bad = [x for x in r if x["status"] == "fail"]
            if bad:
                return {"obligation": name, "kind": "bounded public-API check (contracts could not be attached)",
                        "witness": bad[0], "key": name}
            print(f"note: {prop} public-API fallback {name}: {r[0]['status']} {sum(x.get('runs', 0) for x in r)}")
        return None
    finally:
        if ov:
            ov.close()


def evidence(prop, cfg, res, nviol):
    level = cfg["level"]
    ob = sum(x.get("obligations", 1) for x in res.proved)
    bo = sum(x.get("obligations", 0) for x in res.bounded)
    cov = {
        "obligations": ob + bo + sum(1 for _ in res.undecided),
        "discharged": ob + bo,
        "discharged_full_domain": ob,
        "discharged_within_bound": bo,
        "checker_cmd": f"cd /verif && python3 check.py {prop}",
        "trusted_base": cfg.get("trusted", []) + TRUSTED,
        "functions_under_contract": sorted({f for x in res.proved for f in x.get("functions", [])}),
        "proved": res.proved,
        "bounded_stand_ins": res.bounded,
        "undecided": [{k: v for k, v in u.items() if k != "search"} for u in res.undecided],
        "solver_s": round(sum(x.get("solver_s", 0) for x in res.proved + res.bounded), 1),
        "explanation": cfg.get("explanation", ""),
        "evaluations": sum(x.get("runs", 0) for x in res.bounded),
    }
    write_json(EVID / f"{prop}.json", {
        "property": prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": level,
        "coverage": cov, "assumptions": cfg.get("assumptions", []), "wall_s": round(time.time() - START, 1),
        "violations": nviol})


TRUSTED = ["rustc and Kani's MIR-to-goto translation", "CBMC 6 / cadical", "core::arch definitions as executed by Kani"]


def setup():
    """Nothing is kept between runs; only confirm that the tools the checks drive are there."""
    ok = True
    for cmd in (["cargo", "kani", "--version"], ["verus", "--version"], ["cargo", "--version"]):
        rc, out, _ = run(cmd, 120)
        print(" ".join(cmd), "->", out.strip().splitlines()[0] if out.strip() else rc)
        ok &= rc == 0
    WORK.mkdir(exist_ok=True)
    EVID.mkdir(exist_ok=True)
    return 0 if ok else 1
