"""Checks whose subject is a process of its own: the compiler with the derive macros in it (C13)."""
import concurrent.futures
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time

import check as C

SHIM = os.path.join(C.SIM, "shim")


def cc(src, out):
    subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-o", out, src, "-ldl"], check=True)


# ---- C13 -------------------------------------------------------------------------------
STYLES = ["none", "lowercase", "UPPERCASE", "snake_case", "SNAKE_CASE", "camelCase", "CamelCase", "kebab-case", "KEBAB-CASE", "Title Case", "TITLE CASE", "title case"]


def sibling(t, r):
    """A declaration with the same names that must expand to something else: what one expansion could wrongly hand to another."""
    def style(t):
        if re.search(r'style = "', t): return re.sub(r'style = "[^"]*"', lambda m: 'style = "%s"' % r.choice(STYLES), t)
        m = re.search(r"(?m)^(?:pub )?enum ", t) or re.search(r"\benum ", t)
        return t[:m.start()] + '#[display(style = "%s")] ' % r.choice(STYLES) + t[m.start():] if m else t

    def types(t):
        return re.sub(r"\b(u8|u16|u32|u64|i32|String|bool|char)\b(?=[,; )}>\n])", lambda m: r.choice(["u16", "String", "Vec<u8>", "crate::X", m[0]]) if r.random() < 0.6 else m[0], t)

    def attr(t):
        at = [m for m in re.finditer(r"#\[(?:display|from_str)\([^\[\]]*\)\]", t)]
        if not at: return t
        m = r.choice(at)
        return t[:m.start()] + t[m.end():]

    def text(t):
        at = [m for m in re.finditer(r'(?<=\(")(?=[^"]*"\))', t)]
        if not at: return t
        m = r.choice(at)
        return t[:m.start()] + r.choice(["x", "-", "<", "{{", " "]) + t[m.start():]

    def swap(t):
        names = sorted(set(re.findall(r"\b([a-z]\w?)\s*:(?!:)", t)))
        if len(names) < 2: return t
        x, y = r.sample(names, 2)
        return re.sub(r"\b(%s|%s)\b(?=\s*:(?!:))" % (x, y), lambda m: y if m[1] == x else x, t)
    fs = [style, style, types, attr, text, swap]
    for _ in range(8):
        u = r.choice(fs)(t)
        if r.random() < 0.3: u = r.choice(fs)(u)
        if u != t and lexes(u): return u
    return t


def lexes(t):
    t, open_ = LAYOUT.sub("", t), []
    for c in t:
        if c in "([{": open_.append(c)
        elif c in ")]}" and (not open_ or open_.pop() + c not in ("()", "[]", "{}")): return False
    return not open_ and '"' not in t


def decls(seed, count):
    """Zoo declarations, then hand-written ones, each followed by a sibling."""
    big = os.path.join(C.SIM, "pdderive/big")
    os.makedirs(big + "/src", exist_ok=True)
    subprocess.run([sys.executable, os.path.join(C.SIM, "zoo/gen.py"), str(seed), str(count), big], check=True)
    ds = []
    for t in json.loads(C.read(big + "/decls.json")):
        t = t.split("\nimpl")[0]
        ds.append("\n".join(l for l in t.split("\n") if not l.startswith("#[derive")))
    hand = [x.strip() for x in C.read(os.path.join(C.SIM, "pdderive/decls.txt")).split("---\n")]
    hand = [x for x in hand if x]
    r = random.Random(seed * 7 + 3)
    return [x for t in ds + hand for x in (t, sibling(t, r))], 2 * len(hand)


LAYOUT = re.compile(r"""(\br(#*)".*?"\2|"(?:\\.|[^"\\])*"|'(?:\\[^']+|[^\\'])')|\s+|,(?=\s*[])}])""", re.S)


class Rustc:
    def __init__(self, work):
        self.work = work
        self.shim = os.path.join(work, "env.so")
        cc(os.path.join(SHIM, "env.c"), self.shim)
        self.deps = os.path.join(C.SIM, "target/debug/deps")
        libs = [f for f in os.listdir(self.deps) if re.match(r"libparse_display-\w+\.rlib$", f)]
        libs.sort(key=lambda f: os.path.getmtime(os.path.join(self.deps, f)))
        self.lib = os.path.join(self.deps, libs[-1])

    def run(self, ds, order, env, tag):
        """-> {declaration: (expanded code, diagnostics)}"""
        d = os.path.join(self.work, tag)
        os.makedirs(d, exist_ok=True)
        src = os.path.join(d, "m.rs")
        with open(src, "w", encoding="utf-8") as f:
            f.write("#![allow(warnings)]\n")
            line, at = 2, {}
            for i in order:
                t = "mod m%d {\n#[derive(parse_display::Display, parse_display::FromStr)]\n%s\n}\n" % (i, ds[i])
                for k in range(t.count("\n")): at[line + k] = (i, k)
                line += t.count("\n")
                f.write(t)
        e = {"PATH": os.environ.get("PATH", ""), "HOME": os.environ.get("HOME", "/root"), "RUSTC_BOOTSTRAP": "1", "LD_PRELOAD": self.shim,
             "PD_HASH_SEED": str(env["hash"]), "PD_CLOCK_SKEW": str(env["skew"]), "LANG": env["lang"], "TZ": env["tz"], "USER": env["user"]}
        e.update(env.get("vars", {}))
        # what a build finds on disk: an empty temporary directory of its own, and a package or none where it runs
        e["TMPDIR"] = os.path.join(d, "tmp")
        os.makedirs(e["TMPDIR"], exist_ok=True)
        cwd = d
        if env.get("cwd"):
            cwd = os.path.join(d, env["cwd"])
            os.makedirs(os.path.join(cwd, "src"), exist_ok=True)
            for n, t in (("Cargo.toml", '[package]\nname = "app"\nversion = "0.0.0"\n'), ("Cargo.lock", "version = 4\n"), ("src/lib.rs", "")):
                with open(os.path.join(cwd, n), "w") as f: f.write(t)
        for k in ("RUSTUP_HOME", "CARGO_HOME", "RUSTUP_TOOLCHAIN"):
            if k in os.environ: e[k] = os.environ[k]
        r = subprocess.run(["rustc", "--edition", "2021", "--crate-type", "lib", "--crate-name", env["crate"], "-Zunpretty=expanded", "--error-format=json",
                            "--extern", "parse_display=" + self.lib, "-L", self.deps, src],
                           cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
        out = r.stdout.decode("utf-8", "replace")
        diag = {i: [] for i in order}
        for l in r.stderr.decode("utf-8", "replace").split("\n"):
            if not l.startswith("{"): continue
            m = json.loads(l)
            if m.get("code") or not m.get("spans"): continue
            s = next((s for s in m["spans"] if s["is_primary"]), m["spans"][0])
            while s["file_name"] != src and s.get("expansion"): s = s["expansion"]["span"]
            if s["line_start"] in at:
                i, k = at[s["line_start"]]
                diag[i].append([m["level"], m["message"], k, s["column_start"], s["column_end"], [c["message"] for c in m["children"]]])
        parts = re.split(r"(?m)^mod m(\d+) \{", out)
        # the printer breaks lines, and carries blank ones over, by where things stood in the source
        code = {int(parts[k]): LAYOUT.sub(lambda m: m[1] or "", parts[k + 1]) for k in range(1, len(parts) - 1, 2)}
        shutil.rmtree(d, ignore_errors=True)
        return {i: [code.get(i, ""), sorted(diag[i])] for i in order}


def rand_env(r):
    return {"hash": r.randrange(1 << 63), "skew": r.choice([0, -400000000, 86400, 31536000 * 50, 1]), "lang": r.choice(["C", "tr_TR.UTF-8", "en_US.UTF-8"]),
            "tz": r.choice(["UTC", "Asia/Tokyo", "America/New_York"]), "user": r.choice(["root", "x"]), "crate": r.choice(["m", "other"]), "cwd": r.choice(["", "", "app", "work/deep"]),
            "vars": {k: v for k, v in (("CARGO_PKG_NAME", r.choice(["app", "parse-display", "other-app"])), ("CARGO_CRATE_NAME", r.choice(["app", "lib"])), ("CARGO_PKG_VERSION", r.choice(["0.1.0", "2.3.4"])),
                                       ("CARGO_MANIFEST_DIR", r.choice(["/tmp", "/nonexistent/app"])), ("OUT_DIR", "/nonexistent/out"), ("PROFILE", r.choice(["debug", "release"])), ("OPT_LEVEL", r.choice(["0", "3"])),
                                       ("DEBUG", r.choice(["true", "false"])), ("RUST_BACKTRACE", r.choice(["0", "1"])), ("HOSTNAME", "h%d" % r.randrange(9)), ("CI", "true"), ("DOCS_RS", "1"), ("TERM", r.choice(["dumb", "xterm"])),
                                       ("NO_COLOR", "1"), ("COLUMNS", "40"), ("SOURCE_DATE_EPOCH", str(r.randrange(10**9))), ("CARGO_PRIMARY_PACKAGE", "1"), ("CARGO_BIN_NAME", "tool")) if r.random() < 0.5}}


def c13():
    t0 = time.time()
    os.makedirs(C.OUT, exist_ok=True)
    os.makedirs(C.EVID, exist_ok=True)
    thorough = C.TIER == "thorough"
    secs = int(os.environ.get("PD_SECS", "0")) or (600 if thorough else 15)
    ds, nhand = decls(C.SEED, 900 if thorough else 300)
    work = tempfile.mkdtemp(prefix="pd-C13-", dir=C.OUT)
    viol, cov = 0, {}
    try:
        exe, zoo = C.build(C.SEED, 12, "dev", (), ["expand"])
        inproc = exe is not None
        if exe is None:
            # the sources do not build outside a compiler: only the compiler runs remain
            C.log("derive macros do not build as a library; in-process part left out")
            exe, zoo = C.build(C.SEED, 12, "dev", (), [])
            if exe is None:
                C.log(zoo[-4000:])
                return 2
        if inproc:
            dj = os.path.join(work, "decls.json")
            with open(dj, "w", encoding="utf-8") as f: json.dump(ds, f)
            zoo = dict(zoo, decls=[C.SEED, 900 if thorough else 300])
            res = os.path.join(work, "result.json")
            rc = subprocess.run([exe, "check", "--prop", "C13", "--seed", str(C.SEED), "--secs", str(secs), "--work", work, "--result", res, "--zoo", json.dumps(zoo),
                                 "--decls", dj, "--workers", str(len(os.sched_getaffinity(0))), "--replays", os.path.join(C.OUT, "replays")]).returncode
            if rc not in (0, 1): return 2
            cov = json.loads(C.read(res))
            viol += rc
        if not viol:
            viol += c13_rustc(work, ds, nhand, 400 if thorough else 24, cov)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    cov["components"] = {"real": ["parse-display-derive: its sources, run in-process on simulated threads", "the compiled derive macro inside rustc", "syn, quote, proc-macro2, structmeta, regex"],
                         "simulated": ["thread scheduler, hash keys, clocks, allocator (in-process part)", "hash keys, wall clock, locale, order and neighbours of expansions (compiler part)"],
                         "stub": ["syn's compiler entry points are replaced by their proc_macro2 counterparts in the in-process part"]}
    ev = {"property": "C13", "tier": C.TIER, "seed": C.SEED, "level": "exploration", "coverage": cov,
          "assumptions": ["token streams are compared as text; spans are compared through the positions of diagnostics in the compiler part only"],
          "wall_s": round(time.time() - t0, 1), "violations": viol}
    with open(os.path.join(C.EVID, "C13.json"), "w") as f: json.dump(ev, f, indent=1, ensure_ascii=False)
    return 1 if viol else 0


def c13_rustc(work, ds, nhand, nruns, cov):
    r = random.Random(C.SEED * 31 + 5)
    rc = Rustc(work)
    plans = []
    for n in range(nruns):
        k = r.choice([15, 60, 100])
        order = r.sample(range(len(ds)), min(k, len(ds)))
        order += [j for j in {i ^ 1 for i in order if r.random() < 0.4} if j not in order]
        order += [i for i in r.sample(range(len(ds) - nhand, len(ds)), 12) if i not in order]
        r.shuffle(order)
        plans.append((order, rand_env(r)))
    seen, bad, n, failing = {}, None, 0, 0
    with concurrent.futures.ThreadPoolExecutor(len(os.sched_getaffinity(0))) as ex:
        for (k, res) in enumerate(ex.map(lambda a: rc.run(ds, a[1][0], a[1][1], "r%d" % a[0]), enumerate(plans))):
            for i, x in res.items():
                n += 1
                failing += bool(x[1])
                if i not in seen: seen[i] = (x, k)
                elif seen[i][0] != x and bad is None: bad = (i, seen[i][1], k)
    cov["compiler_runs"] = nruns
    cov["compiler_expansions_compared"] = n
    cov["compiler_rejected_expansions"] = failing
    cov.setdefault("evaluations", 0)
    cov["evaluations"] += nruns
    cov.setdefault("distinct_nontrivial", 0)
    cov.setdefault("rule", "one evaluation = one simulated run or compiler run; non-trivial = other expansions ran before, beside or after")
    cov.setdefault("samples", [])
    cov["samples"].append({"compiler_run": {"order": plans[0][0][:20], "environment": plans[0][1]}})
    if bad is None: return 0
    i, a, b = bad
    pa, pb = plans[a], plans[b]

    def differ(oa, ea, ob, eb):
        x, y = rc.run(ds, oa, ea, "x")[i], rc.run(ds, ob, eb, "y")[i]
        return (x, y) if x != y else None
    best = (pa[0], pa[1], pb[0], pb[1])
    if differ([i], pa[1], [i], pb[1]): best = ([i], pa[1], [i], pb[1])
    else:
        oa, ob = list(pa[0]), list(pb[0])
        end = time.time() + 60
        for which in (0, 1):
            o = (oa, ob)[which]
            step = max(1, len(o) // 2)
            while step and time.time() < end:
                k = 0
                while k < len(o):
                    c = o[:k] + [x for x in o[k:k + step] if x == i] + o[k + step:]
                    if c != o and differ(*((c, pa[1], ob, pb[1]) if which == 0 else (oa, pa[1], c, pb[1]))):
                        o[:] = c
                    else: k += step
                step //= 2
        if differ(oa, pa[1], ob, pb[1]): best = (oa, pa[1], ob, pb[1])
    d = differ(*best)
    why = "two compilations expand the same declaration differently"
    use = sorted(set(best[0]) | set(best[2]))
    rp = {"kind": "rustc", "property": "C13", "why": why, "decls": {str(k): ds[k] for k in use}, "which": i,
          "a": {"order": best[0], "env": best[1]}, "b": {"order": best[2], "env": best[3]}, "reproduced": bool(d)}
    os.makedirs(os.path.join(C.OUT, "replays"), exist_ok=True)
    p = os.path.join(C.OUT, "replays/C13-rustc-%d.json" % C.SEED)
    with open(p, "w", encoding="utf-8") as f: json.dump(rp, f, indent=1, ensure_ascii=False)
    C.log(why + ":", ds[i])
    if d: C.log(diff(d[0], d[1]))
    C.log("VIOLATION property=C13 replay=" + p)
    return 1


def diff(x, y):
    if x[1] != y[1]: return "diagnostics %s\nvs %s" % (x[1], y[1])
    k = next((k for k, (a, b) in enumerate(zip(x[0], y[0])) if a != b), min(len(x[0]), len(y[0])))
    return "…%s\nvs …%s" % (x[0][max(0, k - 60):k + 100], y[0][max(0, k - 60):k + 100])


def replay_c13(r):
    C.build(C.SEED, 12, "dev")
    work = tempfile.mkdtemp(prefix="pd-C13-", dir=C.OUT)
    try:
        rc = Rustc(work)
        ds = {int(k): v for k, v in r["decls"].items()}
        x = rc.run(ds, r["a"]["order"], r["a"]["env"], "x")[r["which"]]
        y = rc.run(ds, r["b"]["order"], r["b"]["env"], "y")[r["which"]]
    finally:
        shutil.rmtree(work, ignore_errors=True)
    if x == y:
        C.log("the recorded violation does not occur")
        return 0
    C.log(diff(x, y))
    return 1


def replay(path, r):
    if r["kind"] == "rustc": rc = replay_c13(r)
    else:
        import release
        rc = release.replay(r)
    if rc == 1: C.log("VIOLATION property=%s replay=%s" % (r["property"], path))
    return rc
