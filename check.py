#!/usr/bin/env python3
"""Builds and runs the simulator for one property.

usage: check.py PROPERTY [--secs N] [--runs N]     (VERIF_SEED, VERIF_TIER from the environment)
       check.py replay FILE
       check.py setup | selfcheck
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
SIM = os.path.join(HERE, "sim")
OUT = os.path.join(HERE, "out")
EVID = os.path.join(HERE, "evidence")
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
ALLOC = ["C%02d" % i for i in range(1, 13)]
COUNT = 110


def read(p):
    with open(p, encoding="utf-8") as f: return f.read()


def log(*a):
    print(*a, flush=True)


def cargo_env():
    e = dict(os.environ)
    e["RUSTC_WRAPPER"] = os.path.join(SIM, "rustcw.sh")
    e["CARGO_TARGET_DIR"] = os.path.join(SIM, "target")
    e["CARGO_TERM_COLOR"] = "never"
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    return e


def zoo_dir(profile):
    return os.path.join(SIM, "zoo" if profile == "dev" else "zoo/rel")


def gen(seed, count, profile, drop):
    os.makedirs(os.path.join(zoo_dir(profile), "src"), exist_ok=True)
    subprocess.run([sys.executable, os.path.join(SIM, "zoo/gen.py"), str(seed), str(count), zoo_dir(profile)]
                   + ([",".join(sorted(drop))] if drop else []), check=True)


def repo_dir():
    m = re.search(r'path = "(.*)/parse-display"', open(os.path.join(SIM, "core/Cargo.toml")).read())
    return m.group(1)


def prep_derive():
    """The derive macros as an ordinary library: the same sources, minus the attribute that
    makes them compiler plugins."""
    src = os.path.join(repo_dir(), "parse-display-derive/src")
    dst = os.path.join(SIM, "pdderive/src")
    new, table = {}, []
    for d, _, fs in os.walk(src):
        for f in fs:
            p = os.path.join(d, f)
            q = os.path.join(dst, os.path.relpath(p, src))
            s = open(p, encoding="utf-8").read()
            for m in re.finditer(r"#\[\s*proc_macro_derive\s*\(\s*(\w+)[^\]]*\]\s*(?:#\[[^\]]*\]\s*)*pub\s+fn\s+(\w+)", s):
                table.append((m.group(1), m.group(2)))
            s = re.sub(r"#\[\s*proc_macro_derive\s*\([^\]]*\]", "", s)
            s = s.replace("extern crate proc_macro;", "extern crate proc_macro2 as proc_macro;")
            if q == os.path.join(dst, "lib.rs"):
                if "extern crate proc_macro2 as proc_macro;" not in s: s += "\nextern crate proc_macro2 as proc_macro;\n"
                s += "\npub type PdTokens = ::proc_macro2::TokenStream;\n@TABLE@\n"
            new[q] = s
    t = "".join("(%s, %s as fn(PdTokens) -> PdTokens), " % (json.dumps(a), b) for a, b in sorted(table))
    p = os.path.join(dst, "lib.rs")
    new[p] = new.get(p, "@TABLE@").replace("@TABLE@", "pub static PD_DERIVES: &[(&str, fn(PdTokens) -> PdTokens)] = &[%s];" % t)
    for d, _, fs in os.walk(dst):
        for f in fs:
            if os.path.join(d, f) not in new: os.remove(os.path.join(d, f))
    for q, s in new.items():
        os.makedirs(os.path.dirname(q), exist_ok=True)
        if not os.path.exists(q) or read(q) != s:
            with open(q, "w", encoding="utf-8") as o: o.write(s)


def build_once(profile, features=()):
    r = subprocess.run(["cargo", "build", "--offline", "-q"] + (["--profile", profile] if profile != "dev" else [])
                       + (["--features", ",".join(features)] if features else []),
                       cwd=SIM, env=cargo_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    return r.returncode, r.stdout


def forget_old_build():
    """Cargo goes by file times; what was built from other sources is dropped by content."""
    import glob
    import hashlib
    h = hashlib.sha256()
    for d, ds, fs in sorted(os.walk(repo_dir())):
        ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
        for f in sorted(fs):
            p = os.path.join(d, f)
            if os.path.islink(p) or not os.path.isfile(p): continue
            with open(p, "rb") as o: h.update(b"%s\0%s\0" % (os.fsencode(p), hashlib.sha256(o.read()).digest()))
    stamp = os.path.join(SIM, "target/.sources")
    if not os.path.exists(stamp) or read(stamp) != h.hexdigest():
        for p in glob.glob(os.path.join(SIM, "target/*/.fingerprint/parse-display*")): shutil.rmtree(p)
        os.makedirs(os.path.dirname(stamp), exist_ok=True)
        with open(stamp, "w") as o: o.write(h.hexdigest())


def build(seed, count, profile, drop=(), features=()):
    """-> (path of the simulator, zoo description) or (None, log)"""
    drop = set(drop)
    prep_derive()
    forget_old_build()
    for attempt in range(8):
        gen(seed, count, profile, drop)
        rc, text = build_once(profile, features)
        if rc == 0:
            d = "debug" if profile == "dev" else profile
            return os.path.join(SIM, "target", d, "pdsim"), {"seed": seed, "count": count, "drop": sorted(drop), "profile": profile}
        # a declaration that no longer compiles is left out; what remains is still checked
        src = open(os.path.join(zoo_dir(profile), "src/gen.rs")).read().split("\n")
        bad = set()
        for m in re.finditer(r"gen\.rs:(\d+):", text):
            n = int(m.group(1))
            for i in range(min(n, len(src)) - 1, -1, -1):
                if src[i].startswith("// @"):
                    bad.add(src[i][4:])
                    break
                if src[i].startswith("pub static"):
                    break
        if not bad - drop:
            return None, text
        log("declarations that do not compile, left out:", ", ".join(sorted(bad - drop)))
        drop |= bad
    return None, text


COMPONENTS = {
    "real": ["parse-display (library)", "parse-display-derive (macro expansion of every zoo type)", "parse-display-with",
             "std::sync::OnceLock / Once, thread-local storage and unwinding as compiled into the program", "regex, regex-automata, regex-syntax", "core::fmt, alloc"],
    "simulated": ["thread scheduler (one runnable thread at a time, switches at instrumented edges, loads, stores, allocations, callbacks)",
                  "futex, sched_yield, nanosleep, clock_gettime, getrandom", "global allocator", "output streams and transport between peers"],
    "stub": ["field types, custom formats, pattern providers, constructors and Default implementations are simulator types that fail, panic, stall or re-enter on request"],
}


def plan(prop):
    if TIER == "thorough":
        s = int(os.environ.get("PD_SECS", "0")) or 200
        return [(SEED, COUNT, "dev", s), (SEED + 1000, 160, "dev", s), (SEED + 2000, 160, "rel", s), (SEED + 3000, 220, "dev", s)]
    s = int(os.environ.get("PD_SECS", "0")) or 22
    return [(SEED, COUNT, "dev", s), (SEED + 500, COUNT, "rel", s)]


def check(prop, runs=None):
    t0 = time.time()
    os.makedirs(OUT, exist_ok=True)
    os.makedirs(EVID, exist_ok=True)
    parts, viol = [], 0
    for seed, count, profile, secs in plan(prop):
        exe, zoo = build(seed, count, profile)
        if exe is None:
            log(zoo[-6000:])
            log("the simulator does not build")
            return 2
        tb = time.time()
        work = tempfile.mkdtemp(prefix="pd-%s-" % prop, dir=OUT)
        try:
            res = os.path.join(work, "result.json")
            cmd = [exe, "check", "--prop", prop, "--seed", str(seed), "--secs", str(secs), "--work", work, "--result", res,
                   "--zoo", json.dumps(zoo), "--profile", profile, "--workers", str(len(os.sched_getaffinity(0))),
                   "--replays", os.path.join(OUT, "replays")]
            if runs:
                cmd += ["--runs", str(runs), "--secs", "100000"]
            rc = subprocess.run(cmd).returncode
            if rc not in (0, 1):
                return 2
            cov = json.load(open(res))
        finally:
            shutil.rmtree(work, ignore_errors=True)
        cov["zoo"] = zoo
        cov["sim_wall_s"] = round(time.time() - tb, 1)
        parts.append(cov)
        viol += rc
        if rc:
            break
    cov = parts[0] if len(parts) == 1 else merge(parts)
    cov["components"] = COMPONENTS
    ev = {"property": prop, "tier": TIER, "seed": SEED, "level": "exploration", "coverage": cov,
          "assumptions": ["the zoo model (sim/zoo/gen.py, sim/core/src/model.rs) states the documented meaning of the attributes it uses",
                          "switches happen between instrumented machine-code points of the code under test on sequentially consistent memory; weak-memory reorderings are not simulated"],
          "wall_s": round(time.time() - t0, 1), "violations": viol}
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    return 1 if viol else 0


def merge(parts):
    out = {}
    for k, v in parts[0].items():
        vs = [p[k] for p in parts]
        if isinstance(v, bool) or isinstance(v, str) or v is None: out[k] = v if k != "violation" else next((x for x in vs if x), None)
        elif k.endswith("_per_hour"): out[k] = int(sum(vs) / len(vs))
        elif k in ("edges_executed", "edges_instrumented", "distinct_switch_edge_pairs", "types_in_zoo"): out[k] = max(vs)
        elif isinstance(v, (int, float)): out[k] = sum(vs)
        elif isinstance(v, dict) and all(isinstance(x, int) for x in v.values()):
            d = {}
            for x in vs:
                for a, b in x.items(): d[a] = d.get(a, 0) + b
            out[k] = d
        elif isinstance(v, list): out[k] = [x for y in vs for x in y][:6]
    out["zoos"] = [p["zoo"] for p in parts]
    return out


def main():
    a = sys.argv[1:]
    if a[0] == "setup":
        for seed, count, profile, _ in plan("setup"):
            exe, z = build(seed, count, profile)
            if exe is None:
                log(z[-6000:])
                return 1
        return 0
    if a[0] == "selfcheck":
        exe, z = build(SEED, COUNT, "dev")
        return subprocess.run([exe, "selfcheck", "--seed", str(SEED)] + a[1:]).returncode
    if a[0] == "replay":
        r = json.load(open(a[1]))
        if r.get("kind"):
            import other
            return other.replay(a[1], r)
        z = r["zoo"]
        exe, t = build(z["seed"], z["count"], z["profile"], z["drop"], ["expand"] if "decls" in z else [])
        if exe is None:
            log(t[-3000:])
            return 2
        extra = []
        if "decls" in z:
            import other
            os.makedirs(OUT, exist_ok=True)
            dj = os.path.join(OUT, "replay-decls.json")
            with open(dj, "w", encoding="utf-8") as f: json.dump(other.decls(*z["decls"])[0], f)
            extra = ["--decls", dj]
        return subprocess.run([exe, "replay", a[1]] + extra).returncode
    runs = None
    if "--secs" in a: os.environ["PD_SECS"] = a[a.index("--secs") + 1]
    if "--runs" in a: runs = int(a[a.index("--runs") + 1])
    if a[0] == "C13":
        import other
        return other.c13()
    if a[0] in ("C14", "C15"):
        import release
        return release.check(a[0])
    return check(a[0], runs)


if __name__ == "__main__":
    sys.modules.setdefault("check", sys.modules["__main__"])
    sys.exit(main())
