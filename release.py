"""C14, C15: the release preparation tool on simulated storage.

The real tool (compiled from /repo) runs in a scratch repository. Every file-system call it makes and
every child it starts goes through sim/shim/fs.c, which fails, shortens or tears the calls a plan names,
stops the process (or the machine, losing unsynced data) at them, and decides the order of directory
listings. `git` is the real one behind sim/shim/child.c, `powershell` is sim/shim/child.c itself.
"""
import hashlib
import json
import multiprocessing
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time

import check as C

SHIM = os.path.join(C.SIM, "shim")
SCRIPT = ".codex/skills/prepare-release/scripts/prepare_release.rs"
CATS = ["Added", "Changed", "Deprecated", "Removed", "Fixed", "Performance", "Security"]
BASE = "https://github.com/frozenlib/parse-display/compare/"
OLD = "0.11.0"


# ---- the tool ----------------------------------------------------------------------------
def build(work):
    s = C.read(os.path.join(C.repo_dir(), SCRIPT))
    edition = re.search(r'edition\s*=\s*"(\d+)"', s)
    if s.startswith("#!") and not s.startswith("#!["): s = s.split("\n", 1)[1]
    m = re.match(r"\s*(-{3,})[^\n]*\n.*?\n\1[ \t]*\n", s, re.S)
    if m: s = s[m.end():]
    src = os.path.join(work, "prepare_release.rs")
    with open(src, "w", encoding="utf-8") as f: f.write(s)
    r = subprocess.run(["rustc", "--edition", edition.group(1) if edition else "2024", "-O", "-Awarnings", src, "-o", os.path.join(work, "tool")],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        C.log(r.stdout[-3000:])
        return False
    os.makedirs(os.path.join(work, "bin"), exist_ok=True)
    os.makedirs(os.path.join(work, "bin-nodate"), exist_ok=True)
    subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-w", "-o", os.path.join(work, "fs.so"), os.path.join(SHIM, "fs.c"), "-ldl"], check=True)
    subprocess.run(["gcc", "-O1", "-w", "-o", os.path.join(work, "bin/git"), os.path.join(SHIM, "child.c")], check=True)
    for a in ("bin/powershell", "bin/pwsh", "bin/date", "bin-nodate/git"): shutil.copy(os.path.join(work, "bin/git"), os.path.join(work, a))
    return True


# ---- scratch repositories ------------------------------------------------------------------
# option -> possible values, the first being the plain one
OPTIONS = {
    "history": ["version", "none", "lookalike", "body", "branches", "merged"],  # how the previous release is recorded in git
    "derive": ["unchanged", "committed", "dirty", "untracked", "deleted", "removed", "staged", "mode", "reverted", "ignored"],  # what happened to the derive crate since
    "manifest": ["plain", "features", "late", "spaced", "lookalike"],
    "lock": ["plain", "many", "crlfless", "absent", "noself", "noderive"],
    "unreleased": ["fixed", "empty", "several", "multi", "nocats", "extra", "content", "absent", "adjacent"],
    "links": ["plain", "caps", "absent", "present"],
    "older": [1, 0, 3],
    "docs": ["readme", "several", "deprecated", "crlf", "ragged", "unicode", "many"],
    "nested": ["none", "deep", "hidden", "dirname"],
    "derive_docs": [0, 1],
    "links_fs": ["none", "file", "outside", "dangling", "loop"],
    "badutf": [0, 1],
    "nogit": [0, 1],
    "exec": [0, 1],
    "version_in_changelog": [0, 1, 2, 3, 4, 5],  # no, dated, undated, dated at the end, only a pre-release of it, dated before the unreleased changes
    "changelog": ["short", "long"],
    "missing": ["none", "parse-display-derive/Cargo.toml", "parse-display/Cargo.toml", "Cargo.toml", "CHANGELOG.md"],
    "manifest_version": ["ok", "missing", "odd"],
    "dependency": ["ok", "missing", "noversion"],
    "tail": ["one", "none", "several"],  # line ends at the end of the release files
}
REFUSALS = {("lock", "absent"), ("lock", "noself"), ("lock", "noderive"), ("unreleased", "content"), ("unreleased", "absent"), ("older", 0), ("badutf", 1), ("nogit", 1),
            ("version_in_changelog", 1), ("version_in_changelog", 2), ("version_in_changelog", 3), ("version_in_changelog", 5), ("missing", "parse-display-derive/Cargo.toml"), ("missing", "parse-display/Cargo.toml"), ("missing", "Cargo.toml"), ("missing", "CHANGELOG.md"), ("manifest_version", "missing"), ("dependency", "missing"), ("dependency", "noversion")}


def plain():
    return {k: v[0] for k, v in OPTIONS.items()}


def rand_options(r, refuse):
    o = {k: (r.choice(v) if r.random() < 0.6 else v[0]) for k, v in OPTIONS.items()}
    for k, v in REFUSALS:
        if o[k] == v: o[k] = OPTIONS[k][0]
    if o["older"] == 0: o["older"] = 1
    if r.random() > 0.04 or o["derive"] in ("reverted", "ignored") or o["history"] in ("branches", "merged"): o["derive_docs"] = 0
    if o["manifest_version"] == "odd": o["manifest_version"] = "ok"
    if refuse:
        for k, v in r.sample(sorted(REFUSALS, key=str), r.choice([1, 1, 2])): o[k] = v
        if any(o[k] == v for k, v in (("lock", "noderive"), ("dependency", "missing"), ("dependency", "noversion"))) and r.random() < 0.8:
            o["derive"] = r.choice(["committed", "dirty", "untracked", "deleted", "removed", "staged"])
    return o


def mk_files(o, version):
    """-> {path: bytes}, {path: link target}"""
    f, ln = {}, {}
    f["Cargo.toml"] = '[workspace]\nresolver = "2"\nmembers = ["parse-display", "parse-display-derive"]\n\n[workspace.package]\nversion = "9.9.9"\n'
    man = {"plain": '[package]\nname = "parse-display"\n%sedition = "2024"\n', "features": '[package]\nname = "parse-display"\n%srust-version = "1.85.0"\n',
           "late": '[package]\nname = "parse-display"\nedition = "2024"\ndescription = "version = none"\n%s', "spaced": '[package]\nname = "parse-display"\n  %sedition = "2024"\n',
           "lookalike": '[package]\nname = "parse-display"\nrust-version = "1.85.0"\n%smetadata-version = "0.11.0"\n'}[o["manifest"]]
    man = man % ('version = "%s"\n' % OLD if o["manifest_version"] == "ok" else "")
    dep = {"plain": 'parse-display-derive = { version = "=%s", path = "../parse-display-derive" }\n', "features": 'parse-display-derive = { path = "../parse-display-derive", version = "=%s", features = ["std"] }\n',
           "late": 'parse-display-derive = { version = "=%s", path = "../parse-display-derive" }\n', "spaced": 'parse-display-derive = { version = "=%s" , path = "../parse-display-derive" }\n',
           "lookalike": 'parse-display-derive-extra = { version = "=0.11.0" }\nparse-display-derive = { version = "=%s", path = "../parse-display-derive" }\n'}[o["manifest"]]
    dep = dep % OLD
    if o["dependency"] == "missing": dep = ""
    if o["dependency"] == "noversion": dep = 'parse-display-derive = { path = "../parse-display-derive" }\n'
    man += '\n[dependencies]\n%sregex = { version = "1.12", optional = true }\n\n[dev-dependencies]\ntrybuild = "1.0.116"\n' % dep
    if o["manifest_version"] == "ok": man += '\n[dependencies.other]\nversion = "0.11.0"\n'
    f["parse-display/Cargo.toml"] = man
    f["parse-display-derive/Cargo.toml"] = '[package]\nname = "parse-display-derive"\nversion = "%s"\nedition = "2024"\n\n[lib]\nproc-macro = true\n\n[dependencies]\nsyn = { version = "2.0.117" }\n\n[dependencies.x]\nversion = "1.0.0"\n' % OLD
    f["parse-display-derive/src/lib.rs"] = "//! Derive macros.\n\npub fn f() {}\n" + ('//! parse-display = "%s"\n' % OLD if o["derive_docs"] else "")

    f["parse-display-derive/src/old.rs"] = "// old\n"

    def pk(n, v, deps=()):
        return '[[package]]\nname = "%s"\nversion = "%s"\n' % (n, v) + ('dependencies = [\n%s]\n' % "".join(' "%s",\n' % d for d in deps) if deps else "") + "\n"
    lock = "# This file is automatically @generated by Cargo.\n# It is not intended for manual editing.\nversion = 4\n\n" + pk("aho", "0.11.0")
    if o["lock"] == "many":
        for i in range(40): lock += pk("pad%d" % i, "1.%d.0" % i, ["parse-display", "aho"])
    if o["lock"] != "noself": lock += pk("parse-display", OLD, ["parse-display-derive", "regex"])
    lock += pk("parse-display-benches", "0.11.0", ["parse-display"])
    if o["lock"] != "noderive": lock += pk("parse-display-derive", OLD, ["syn"])
    lock += pk("parse-display-with", "0.0.2", ["parse-display"]) + pk("regex", "0.11.0")
    f["Cargo.lock"] = lock.rstrip("\n") + "\n" if o["lock"] != "crlfless" else lock.rstrip("\n")
    if o["lock"] == "absent": del f["Cargo.lock"]

    un = {"fixed": ["### Added", "", "### Fixed", "", "- Fix a thing.", "", "### Security", ""],
          "empty": ["\n\n".join("### " + c for c in CATS), ""],
          "several": ["### Added", "", "- Add `a`.", "- Add `b`.", "", "### Changed", "", "- Change.", "", "### Performance", "", "- Faster.", ""],
          "multi": ["### Changed", "", "- One", "  continued", "", "  - nested `parse-display = \"%s\"`" % OLD, "", "- Two", "", "### Deprecated", "", "- Gone", "", ""],
          "nocats": [], "extra": ["### Notes", "", "- A note.", "", "### Fixed", "", "- Fix.", ""],
          "content": ["Some words.", "", "### Fixed", "", "- Fix.", ""], "absent": [], "adjacent": ["### Added", "- Close", "### Fixed", "- Closer", ""]}[o["unreleased"]]
    ch = ["# Changelog", ""]
    if o["unreleased"] != "absent": ch += ["## [Unreleased]", ""] + un
    rel = ["0.11.0", "0.10.0", "0.9.1"][:o["older"]]
    vc = o["version_in_changelog"] if rel or o["version_in_changelog"] < 4 else 0
    if vc in (1, 2): rel = [version] + rel
    if vc in (3, 4): rel = rel + [version + ("-rc.1" if vc == 4 else "")]
    if vc == 5: ch[2:2] = ["## [%s] - 2026-05-05" % version, "", "### Fixed", "", "- Fix.", ""]
    for v in rel: ch += ["## [%s]" % v + (" - 2026-05-04" if vc != 2 or v != version else ""), "", "### Added", "", "- Add %s. https://docs.rs/parse-display/%s/x" % (v, OLD), ""] + (["- Item %d of %s." % (i, v) for i in range(170)] + [""] if o.get("changelog") == "long" else [])
    if o["links"] in ("plain", "caps", "present"): ch += ["[%s]: %sv%s...HEAD" % ({"caps": "Unreleased"}.get(o["links"], "unreleased"), BASE, OLD)]
    if o["links"] == "present": ch += ["[%s]: %sother" % (version, BASE)]
    if o["links"] != "absent": ch += ["[%s]: %sv0.10.0...v%s" % (v, BASE, v) for v in rel]
    f["CHANGELOG.md"] = "\n".join(ch).rstrip("\n") + "\n"

    d = o["docs"]
    f["README.md"] = '# parse-display\n\n```toml\n[dependencies]\nparse-display = "%s"\n```\n\nSee https://docs.rs/parse-display/%s/parse_display/ and https://docs.rs/parse-display/latest/\n' % (OLD, OLD)
    f["parse-display/src/lib.rs"] = '//! parse-display = "%s"\n//!\n//! parse-display = "0.10.0"\n\npub fn f() {}\n' % OLD
    f["parse-display/src/plain.rs"] = "pub const V: &str = \"0.11.0\";\n"
    f["notes.txt"] = 'parse-display = "%s"\n' % OLD
    if d in ("several", "many"):
        for i in range(3 if d == "several" else 25):
            f["docs/p%d.md" % i] = "Line %d\n" % i * (i + 1) + 'parse-display = "%s" and parse-display = "%s"\n' % (OLD, OLD if i % 2 else "0.9.1") + ("x" * 6000 + "\n" if i == 2 else "")
    if d == "deprecated":
        f["docs/dep.md"] = "# A\n\nhttps://docs.rs/parse-display/%s/a\n\n## Deprecated\n\nhttps://docs.rs/parse-display/%s/b\nparse-display = \"%s\"\n\n### Sub\n\nhttps://docs.rs/parse-display/%s/c\n\n## Next\n\nhttps://docs.rs/parse-display/%s/d\n" % ((OLD,) * 5)
        f["parse-display/src/dep.rs"] = "/// x https://docs.rs/parse-display/%s/a\n///\n/// ## 非推奨\n///\n/// https://docs.rs/parse-display/%s/b\npub fn g() {}\n/// ## Other\n/// https://docs.rs/parse-display/%s/c\n" % ((OLD,) * 3)
    if d == "crlf":
        f["docs/crlf.md"] = 'A\r\nparse-display = "%s"\r\n\r\n## Deprecated\r\nhttps://docs.rs/parse-display/%s/b\r\n' % (OLD, OLD)
        f["docs/crlf2.md"] = "A\r\nnothing here\r\n"
        f["parse-display/src/c.rs"] = "// nothing\r\n\r\n"
    if d == "ragged":
        f["docs/noeol.md"] = 'parse-display = "%s"' % OLD
        f["docs/noeol2.md"] = "no reference"
        f["docs/blank.md"] = "no reference\n\n\n"
        f["docs/blank2.md"] = 'parse-display = "%s"\n\n\n' % OLD
        f["docs/empty.md"] = ""
        f["parse-display/src/noeol.rs"] = "pub fn h() {}"
    if d == "several": f["docs/bare.md"] = "See docs.rs/parse-display/%s/ and (https://docs.rs/parse-display/%s/x), <http://docs.rs/parse-display/%s/y>.\nmy-parse-display = \"%s\"\n  parse-display = \"%s\" # here\n" % ((OLD,) * 5)
    if d == "unicode": f["docs/日本.md"] = '説明 parse-display = "%s" 終わり\n' % OLD + "非推奨 " * 900 + "\nhttps://docs.rs/parse-display/%s/x\n" % OLD
    if o["nested"] == "deep":
        f["a/b/c/d/e.md"] = 'parse-display = "%s"\n' % OLD
        f["a/b/c/d/e/f/g/h/i/j/k/l/m/n.rs"] = '// parse-display = "%s" docs.rs/parse-display/%s/\n' % (OLD, OLD)
        f["a/UP.MD"] = 'parse-display = "%s"\n' % OLD
        f["a/.md"] = 'parse-display = "%s"\n' % OLD
        f["a/x.md.orig"] = 'parse-display = "%s"\n' % OLD
    if o["nested"] == "hidden":
        f[".codex/s.md"] = 'parse-display = "%s"\n' % OLD
        f["target/t.md"] = 'parse-display = "%s"\n' % OLD
        f["parse-display/target/t.md"] = 'parse-display = "%s"\n' % OLD
        f["parse-display/CHANGELOG.md"] = 'parse-display = "%s"\n' % OLD
        f[".github/x.md"] = 'parse-display = "%s"\n' % OLD
    if o["nested"] == "dirname":
        f["odd.md/in.rs"] = '// parse-display = "%s"\n' % OLD
        f["odd.md/in.toml"] = 'parse-display = "%s"\n' % OLD
    if o["badutf"]: f["docs/bad.md"] = b'parse-display = "0.11.0"\n\xff\xfe\n'
    if o.get("tail", "one") != "one":
        for p in ("CHANGELOG.md", "Cargo.lock", "parse-display/Cargo.toml", "parse-display-derive/Cargo.toml"):
            if p in f: f[p] = f[p].rstrip("\n") + ("" if o["tail"] == "none" else "\n\n\n")
    f["../outside/out.md"] = 'parse-display = "%s"\n' % OLD
    if o["links_fs"] == "file": ln["parse-display/README.md"] = "../README.md"
    if o["links_fs"] == "outside":
        ln["docs-link"] = "../outside"
        ln["out.md"] = "../outside/out.md"
    if o["links_fs"] == "dangling": ln["gone.md"] = "nowhere.md"
    if o["links_fs"] == "loop": ln["docs-loop"] = "."
    if o["derive"] == "ignored":
        f[".gitignore"] = "*.log\n"
        f["parse-display-derive/build.log"] = "built\n"
    f.pop(o.get("missing", "none"), None)
    return {k: (v if isinstance(v, bytes) else v.encode()) for k, v in f.items()}, ln


GITENV = {"GIT_CONFIG_GLOBAL": "/dev/null", "GIT_CONFIG_NOSYSTEM": "1", "GIT_AUTHOR_NAME": "a", "GIT_AUTHOR_EMAIL": "a@a", "GIT_COMMITTER_NAME": "a", "GIT_COMMITTER_EMAIL": "a@a",
          "GIT_AUTHOR_DATE": "2026-01-01T00:00:00Z", "GIT_COMMITTER_DATE": "2026-01-01T00:00:00Z", "LC_ALL": "C"}


class Repo:
    """A scratch repository, put back in its initial state before every history."""

    def __init__(self, box, o, version):
        self.o, self.version, self.box = o, version, box
        self.root = os.path.join(box, "repo")
        self.files, self.links = mk_files(o, version)
        shutil.rmtree(box, ignore_errors=True)
        os.makedirs(os.path.join(box, "outside"))
        os.makedirs(self.root)
        for p, b in self.files.items(): self.put(p, b)
        for p, t in self.links.items():
            os.makedirs(os.path.dirname(os.path.join(self.root, p)), exist_ok=True)
            os.symlink(t, os.path.join(self.root, p))
        if o["exec"]:
            for p in ("README.md", "CHANGELOG.md", "parse-display/Cargo.toml"):
                if p in self.files: os.chmod(os.path.join(self.root, p), 0o755)
        self.derive_changed = o["derive"] not in ("unchanged", "ignored", "reverted") or o["history"] in ("none",)
        if not o["nogit"]:
            e = dict(GITENV, PATH=os.environ.get("PATH", ""), HOME=box, GIT_CEILING_DIRECTORIES=os.path.dirname(box))

            def git(*a):
                subprocess.run(["git"] + list(a), cwd=self.root, env=e, check=True, stdout=subprocess.DEVNULL)

            def drop(p):
                os.remove(os.path.join(self.root, p))
                del self.files[p]

            def commit(m, b=None, day=[0]):
                day[0] += 1
                e["GIT_COMMITTER_DATE"] = e["GIT_AUTHOR_DATE"] = "2026-01-%02dT00:00:00Z" % day[0]
                git("add", "-A")
                git("commit", "-q", "--allow-empty", "-m", m, *(["-m", b] if b else []))
            git("init", "-q", "-b", "main")
            git("config", "gc.auto", "0")
            commit("start")
            h = o["history"]
            if h != "none": commit("Version 0.10.0.")
            lib = "parse-display-derive/src/lib.rs"
            base = self.files[lib]
            if h != "none":
                # a change to the derive crate before the previous release does not count
                self.put("parse-display-derive/src/a.rs", b"// a\n")
                self.files["parse-display-derive/src/a.rs"] = b"// a\n"
                if h == "merged": git("checkout", "-q", "-b", "side")
                commit("work", "more")
                if h == "body": commit("Prepare", "Version 0.11.0.")
                else: commit("Version 0.11.0.")
                if h == "merged":
                    git("checkout", "-q", "main")
                    git("merge", "-q", "--no-ff", "-m", "Merge side", "side")
                if h == "branches":
                    # a later release on a branch of its own, with changes of its own
                    git("checkout", "-q", "-b", "next")
                    self.put(lib, base + b"pub fn next() {}\n")
                    commit("Version 0.12.0.")
                    git("checkout", "-q", "main")
            if o["derive"] == "committed":
                self.files[lib] = base + b"pub fn g() {}\n"
                self.put(lib, self.files[lib])
                commit("change")
            if o["derive"] == "reverted":
                self.put(lib, base + b"pub fn g() {}\n")
                commit("change")
                self.put(lib, base)
                commit("Revert the change")
            if o["derive"] == "mode":
                os.chmod(os.path.join(self.root, lib), 0o755)
                commit("mode")
            if o["derive"] == "deleted":
                drop("parse-display-derive/src/a.rs") if h != "none" else drop("parse-display-derive/src/old.rs")
                commit("remove a file")
            if h == "lookalike":
                commit("Version 0.11.1 is near.")
                commit("Merge Version 0.12.0.")
                commit("Version 0.12.")
            self.put("later.txt", b"x")
            self.files["later.txt"] = b"x"
            commit("later")
            if o["derive"] == "dirty":
                self.files[lib] = base + b"pub fn d() {}\n"
                self.put(lib, self.files[lib])
            if o["derive"] == "staged":
                self.files[lib] = base + b"pub fn s() {}\n"
                self.put(lib, self.files[lib])
                git("add", "-A")
            if o["derive"] == "removed": drop("parse-display-derive/src/a.rs") if h != "none" else drop("parse-display-derive/src/old.rs")
            if o["derive"] == "untracked":
                self.files["parse-display-derive/src/new.rs"] = b"// new\n"
                self.put("parse-display-derive/src/new.rs", b"// new\n")
        self.start = self.snap()

    def put(self, p, b):
        p = os.path.join(self.root, p)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f: f.write(b)

    def snap(self):
        """every path under the box -> what is there; of .git only what records history"""
        s = {}
        for d, ds, fs in os.walk(self.box):
            rel = os.path.relpath(d, self.root)
            if rel == ".":
                rel = ""
            if rel == ".git":
                ds[:] = [x for x in ds if x in ("refs", "logs")]
                fs = [x for x in fs if x in ("HEAD", "packed-refs", "ORIG_HEAD", "MERGE_HEAD", "config")]
            for n in list(ds):
                p = os.path.join(d, n)
                if os.path.islink(p): s[os.path.join(rel, n)] = ("link", os.readlink(p))
                else: s[os.path.join(rel, n) + "/"] = ("dir",)
            for n in fs:
                p = os.path.join(d, n)
                if os.path.islink(p): s[os.path.join(rel, n)] = ("link", os.readlink(p))
                else:
                    with open(p, "rb") as f: s[os.path.join(rel, n)] = (os.stat(p).st_mode & 0o777, f.read())
        return s

    def restore(self):
        now = self.snap()
        for p in sorted(now, reverse=True):
            if p not in self.start or now[p][0] != self.start[p][0] or (now[p][0] == "link" and now[p] != self.start[p]):
                q = os.path.join(self.root, p.rstrip("/"))
                if now[p][0] == "dir": shutil.rmtree(q, ignore_errors=True)
                elif os.path.lexists(q): os.remove(q)
        for p in sorted(self.start):
            v = self.start[p]
            if now.get(p) != v:
                q = os.path.join(self.root, p.rstrip("/"))
                if v[0] == "dir": os.makedirs(q, exist_ok=True)
                elif v[0] == "link":
                    if not os.path.islink(q): os.symlink(v[1], q)
                else:
                    self.put(p, v[1])
                    os.chmod(q, v[0])


# ---- the reference model -------------------------------------------------------------------
def good_version(v):
    return re.fullmatch(r"[0-9]+\.[0-9]+\.[0-9]+", v) is not None


def norm(t):
    """one line end at the end, or one blank line if there were any"""
    b = t.rstrip("\n")
    return b + ("\n" if len(t) - len(b) < 2 else "\n\n")


def sub_doc(text, version):
    out, dep = [], False
    for line in text.splitlines(True) if not any(c in text for c in "\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029") else re.findall(r"[^\n]*\n|[^\n]+", text):
        m = re.sub(r"^\s*(///|//!)", "", line).lstrip()
        if m.startswith("## "): dep = "Deprecated" in m or "非推奨" in m
        line = line.replace('parse-display = "%s"' % OLD, 'parse-display = "%s"' % version)
        if not dep: line = line.replace("docs.rs/parse-display/%s/" % OLD, "docs.rs/parse-display/%s/" % version)
        out.append(line)
    return "".join(out)


def set_first(text, version):
    return norm(re.sub(r'(?m)^[ \t]*version = "[^"\n]*".*$', 'version = "%s"' % version, text, count=1))


def set_dep(text, version):
    return re.sub(r'(?m)^(\s*parse-display-derive = \{[^\n]*?version = ")[^"\n]*(")', lambda m: m.group(1) + "=" + version + m.group(2), text, count=1)


def set_lock(text, name, version):
    return norm(re.sub(r'(\nname = "%s"\nversion = ")[^"\n]*(")' % re.escape(name), lambda m: m.group(1) + version + m.group(2), text))


def strip_blank(ls):
    while ls and not ls[0].strip(): ls = ls[1:]
    while ls and not ls[-1].strip(): ls = ls[:-1]
    return ls


def set_changelog(text, version, date):
    ls = text.split("\n")
    if ls[-1] == "": ls.pop()
    a = ls.index("## [Unreleased]")
    b = next(i for i in range(a + 1, len(ls)) if ls[i].startswith("## ["))
    prev = next(m.group(1) for m in (re.match(r"## \[([^\]]*)\]", l) for l in ls) if m and m.group(1) != "Unreleased")
    cats, cur = [], None
    for l in ls[a + 1:b]:
        if l.startswith("### "):
            cur = (l[4:].strip(), [])
            cats.append(cur)
        elif cur: cur[1].append(l)
    cats = [(n, strip_blank(x)) for n, x in cats]
    cats += [(c, []) for c in CATS if c not in [n for n, _ in cats]]
    new = ls[:a] + ["## [Unreleased]", ""]
    for n, _ in cats: new += ["### " + n, ""]
    new += ["## [%s] - %s" % (version, date), ""]
    for n, x in cats:
        if x: new += ["### " + n, ""] + x + [""]
    new += ls[b:]
    new = norm("\n".join(new) + "\n").split("\n")[:-1]
    k = next((i for i, l in enumerate(new) if l.lower().startswith("[unreleased]:")), None)
    link = "[%s]: %sv%s...v%s" % (version, BASE, prev, version)
    if k is None: new += ["[unreleased]: %sv%s...HEAD" % (BASE, version), link]
    else:
        new[k] = "[unreleased]: %sv%s...HEAD" % (BASE, version)
        if not any(l.startswith("[%s]:" % version) for l in new): new.insert(k + 1, link)
    return norm("\n".join(new) + "\n")


def doc_paths(files):
    for p in files:
        parts = p.split("/")
        if p.startswith("../") or any(x in (".git", "target", ".codex") for x in parts[:-1]) or parts[-1] == "CHANGELOG.md": continue
        if re.search(r"[^/]\.(md|rs)$", p): yield p


def model(repo, dates):
    """-> {path: (acceptable contents while under way, acceptable contents when done)}"""
    v, f, dc = repo.version, {k: b for k, b in repo.files.items()}, repo.derive_changed
    t = lambda p: f[p].decode()
    out = {}
    for p in doc_paths(f):
        if p == "docs/bad.md": continue
        n = sub_doc(t(p), v)
        if n != t(p): out[p] = ({t(p), n}, {n})
    m = "parse-display/Cargo.toml"
    a = t(m)
    vs = [a, norm(a)] + ([set_dep(a, v)] if dc else [])
    done = set_first(set_dep(a, v) if dc else a, v)
    out[m] = (set(vs + [set_first(x, v) for x in vs]), {done})
    if dc:
        d = "parse-display-derive/Cargo.toml"
        out[d] = ({t(d), set_first(t(d), v)}, {set_first(t(d), v)})
    l = "Cargo.lock"
    if l in f:
        names = ["parse-display"] + (["parse-display-derive"] if dc else [])
        st = {t(l), norm(t(l))}
        fin = t(l)
        for n in names:
            st |= {set_lock(x, n, v) for x in st}
            fin = set_lock(fin, n, v)
        out[l] = (st, {fin})
    c = "CHANGELOG.md"
    if repo.o["unreleased"] != "absent" and repo.o["older"]:
        news = {set_changelog(t(c), v, d) for d in dates}
        out[c] = ({t(c)} | news, news)
    return {p: ({x.encode() for x in a}, {x.encode() for x in b}) for p, (a, b) in out.items()}


# ---- one history ---------------------------------------------------------------------------
class Bad(Exception):
    pass


def tool(W, repo, run):
    """one run of the tool -> (exit code, stdout, trace lines, child log lines)"""
    tr, cl = os.path.join(W["dir"], "trace"), os.path.join(W["dir"], "children")
    for p in (tr, cl):
        if os.path.exists(p): os.remove(p)
    b = "bin-nodate" if run.get("nodate") else "bin"
    e = dict(GITENV, PATH=os.path.join(W["work"], b), HOME=repo.box, GIT_CEILING_DIRECTORIES=os.path.dirname(repo.box), LD_PRELOAD=os.path.join(W["work"], "fs.so"),
             PD_ROOT=repo.box, PD_TRACE=tr, PD_PLAN=",".join(run["plan"]), PD_SEED=str(run["seed"]), PD_CHILDLOG=cl, PD_DATE=run["date"], PD_GIT=W["git"])
    cwd = os.path.join(repo.root, run["cwd"])
    try:
        r = subprocess.run([os.path.join(W["work"], "tool")] + run["args"], cwd=cwd, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
        rc, out = r.returncode, r.stdout.decode("utf-8", "replace") + "\n--\n" + r.stderr.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        rc, out = -99, "no end within 60 s"
    rd = lambda p: open(p, encoding="utf-8", errors="replace").read().split("\n")[:-1] if os.path.exists(p) else []
    return rc, out, rd(tr), rd(cl)


def diff_paths(a, b):
    return sorted(p for p in set(a) | set(b) if a.get(p) != b.get(p))


def show(x):
    if x is None: return "absent"
    return "%s %r" % (x[0], x[1][:300] if len(x) > 1 else "")


def play(W, repo, hist):
    """runs a history, raises Bad on a violation; returns statistics"""
    repo.restore()
    st = {"runs": 0, "faults": {}, "points": [], "states": [], "trace": [], "out": []}
    dates = []
    finished = False
    o, v = repo.o, repo.version
    must_refuse = any(o[k] == x for k, x in REFUSALS if not (k == "dependency" or x == "noderive")) or \
        (repo.derive_changed and (o["dependency"] != "ok" or o["lock"] == "noderive"))
    before = repo.start
    for n, run in enumerate(hist):
        rc, out, tr, cl = tool(W, repo, run)
        st["runs"] += 1
        after = repo.snap()
        real = run["kind"] == "real"
        who = "run %d (%s%s%s)" % (n, " ".join(run["args"]) or "no version", ", plan " + " ".join(run["plan"]) if run["plan"] else "", ", exit %d" % rc)
        hit = []
        for l in tr:
            k, what, path, act, num = l.split("\t")
            if what == "ESCAPE": raise Bad("%s: tried to change %s, outside the scratch directory" % (who, path))
            if act != "-":
                hit.append(act)
                st["faults"][act] = st["faults"].get(act, 0) + 1
                st["points"].append((what, path, act))
        st["trace"].append([l.replace(repo.box, "") for l in tr])
        st["out"].append((rc, re.sub(r"thread 'main' \(\d+\)", "thread", out.replace(repo.box, ""))))
        st["last"] = [l.split("\t")[:4] for l in tr]
        for l in cl:
            if l.startswith("FORBIDDEN"): raise Bad("%s: started `%s`" % (who, l.split("\t")[1]))
        gd = [p for p in diff_paths(before, after) if p.startswith(".git/")]
        if gd: raise Bad("%s: changed the history: %s" % (who, gd))
        if not real or (must_refuse and not finished):
            d = diff_paths(before, after)
            if d: raise Bad("%s: changed %s although nothing may change: %s -> %s" % (who, d, show(before.get(d[0])), show(after.get(d[0]))))
            if rc == 0 and (run["kind"] == "refused" or (must_refuse and run["kind"] != "none")) and not hit and run["kind"] != "none":
                raise Bad("%s: succeeded although it must be refused:\n%s" % (who, out))
            if rc != 0 and not hit and not must_refuse and run["kind"] in ("dry", "none") and not run.get("nodate") and not finished and before is repo.start:
                raise Bad("%s: failed without a reason: %s" % (who, out))
            if run["kind"] == "dry" and rc == 0 and before == repo.start:
                want = sorted(p for p, (_, fin) in model(repo, [run["date"]]).items() if before[p][1] not in fin)
                got = listed(out, repo)
                if got != want: raise Bad("%s: lists %s, a real run has to change %s" % (who, got, want))
            before = after
            continue
        # a real run
        dates.append(run["date"])
        m = model(repo, dates)
        extra = []
        for p in diff_paths(repo.start, after):
            if p in m and p in after and len(after[p]) == 2 and after[p][0] != "link":
                if after[p][1] not in m[p][0]:
                    raise Bad("%s: %s is neither as before nor as it should become: %s" % (who, p, show(after[p])))
                if after[p][0] != repo.start[p][0]: raise Bad("%s: the mode of %s became %o" % (who, p, after[p][0]))
            elif p not in repo.start: extra.append(p)
            else: raise Bad("%s: %s, which is no release file, changed: %s -> %s" % (who, p, show(repo.start[p]), show(after.get(p))))
        done = all(after[p][1] in fin for p, (_, fin) in m.items())
        if rc == 0 and not done:
            p = [p for p, (_, fin) in m.items() if after[p][1] not in fin]
            raise Bad("%s: reported success, but %s are not up to date: %s" % (who, p, show(after[p[0]])))
        if rc == 0 and before == repo.start:
            got, want = listed(out, repo), sorted(p for p in m if before[p] != after[p])
            if got != want: raise Bad("%s: reports %s as updated, changed %s" % (who, got, want))
        if not run["plan"]:
            if rc != 0 and not finished and not run.get("nodate"):
                raise Bad("%s: does not complete the release: %s" % (who, out))
            if rc != 0 and not finished and after != before: raise Bad("%s: failed without a fault, but changed %s" % (who, diff_paths(before, after)))
            if rc == 0 and extra: raise Bad("%s: leaves %s behind" % (who, extra))
            if finished and after != before and (rc != 0 or not done): raise Bad("%s: the release was complete, yet %s changed" % (who, diff_paths(before, after)))
        if rc == 0 or done: finished = True
        if after != repo.start: st["states"].append(hashlib.sha1(repr(sorted(after.items())).encode()).hexdigest()[:12])
        before = after
    return st


def listed(out, repo):
    return sorted({l.strip() for l in out.split("\n--\n")[0].split("\n") if l.strip() in repo.files})


ACTS = {
    "openr": ["eio", "eacces", "emfile", "eintr", "crash", "enomem"],
    "openw": ["enospc", "eacces", "eintr", "emfile", "erofs", "full", "rofs", "crash", "crasha", "power", "powera", "eio"],
    "write": ["enospc", "eio", "eintr", "edquot", "short:1", "short:7", "short:100", "torn:0", "torn:1", "torn:100", "full", "crash", "crasha", "power", "powera"],
    "read": ["eio", "eintr", "short:1", "short:5", "crash"],
    "stat": ["eio", "eacces", "enomem", "crash"],
    "opendir": ["eio", "eacces", "emfile", "crash"],
    "readdir": ["eio", "crash"],
    "spawn": ["eagain", "enomem", "child:0", "child:1", "child:2", "child:3", "child:4", "crash", "crasha"],
    "print": ["epipe", "enospc", "eio", "short:3", "crash", "eintr"],
    "rename": ["eio", "enospc", "eacces", "crash", "crasha", "power", "powera", "erofs"],
    "unlink": ["eio", "eacces", "crash", "crasha"],
    "fsync": ["eio", "enospc", "edquot", "crash", "power", "crasha", "powera"],
    "chmod": ["eio", "eacces", "crash"], "truncate": ["eio", "crash", "crasha", "power"], "mkdir": ["enospc", "crash"], "link": ["enospc", "crash"], "symlink": ["enospc", "crash"],
}
MUT = {"openw", "write", "rename", "unlink", "fsync", "chmod", "truncate", "mkdir", "link", "symlink"}


def rand_plan(r, calls, nmax=2):
    """calls = [[k, what, ...]] of a run of the same kind without faults"""
    out = []
    mut = [c for c in calls if c[1] in MUT]
    rare = [c for c in calls if c[1] in ("spawn", "print", "opendir")]
    for _ in range(r.choice([1, 1, 1, 2, 3][:nmax + 2])):
        pool = mut if mut and r.random() < 0.6 else (rare if rare and r.random() < 0.4 else calls)
        if not pool: break
        c = r.choice(pool)
        a = r.choice(ACTS.get(c[1], ["crash"]))
        out.append("%s:%s" % (c[0], a))
    return sorted(set(out), key=lambda x: int(x.split(":")[0]))


BADV = ["", "abc", "1.2", "1.2.3.4", "v1.2.3", "1.2.x", "1..3", "-1.2.3", "1.2.3-rc1", " 1.2.3", "1.2.3 ", "1,2,3", "latest", "0.12.", ".12.0", "0.12.0+x", "99999999999999999999.0.0", "１.２.３", "0x1.2.3", "1.2.3\n"]


def rand_version(r):
    return r.choice(["0.12.0", "0.11.1", "1.0.0", "0.11.10", "10.20.30", "0.110.0"])


def rand_date(r):
    return "%04d-%02d-%02d" % (r.choice([2026, 2030, 1999]), r.randrange(1, 13), r.randrange(1, 29))


def mk_run(r, kind, version, **k):
    args = {"real": [version], "dry": r.choice([["--dry-run", version], [version, "--dry-run"], ["--dry-run", version, "--dry-run"]]), "none": r.choice([[], ["--dry-run"]]),
            "refused": r.choice([[r.choice(BADV)], ["--dry-run", r.choice(BADV)], [version, "0.13.0"], [version, r.choice(BADV)], ["--help"], ["--dryrun", version], [r.choice(BADV), version]])}[kind]
    return dict({"kind": kind, "args": args, "cwd": r.choice(["", "", "", "parse-display", "parse-display/src"]), "plan": [], "seed": r.randrange(1, 1 << 31), "date": rand_date(r)}, **k)


def histories(prop, r, W, repo):
    """yields random histories for a repository; the last one played is told back through send()"""
    v = repo.version

    def probe(kind):
        h = [mk_run(r, kind, v)]
        h[0]["cwd"] = ""
        return h
    clean = {}
    for kind in (["real"] if prop == "C15" else ["real", "dry", "none"]):
        st = yield probe(kind)
        clean[kind] = st["last"] if st else []
    while True:
        if prop == "C14":
            x = r.random()
            if x < 0.45: kind = r.choice(["dry", "dry", "none", "refused"])
            else: kind = r.choice(["real", "real", "dry", "refused"])
            run = mk_run(r, kind, v)
            if r.random() < 0.06: run["nodate"] = 1
            if r.random() < 0.05: run["cwd"], run["kind"] = "../outside", "refused"
            if r.random() < 0.75 and not run.get("nodate"):
                run["plan"] = rand_plan(r, clean.get(kind) or clean["dry"] or clean["none"])
            h = [run]
            if r.random() < 0.3:
                # nothing a dry run or a refusal does may show later either
                h.append(mk_run(r, r.choice(["dry", "none", "refused"]), v))
                if r.random() < 0.5: h[-1]["plan"] = rand_plan(r, clean["dry"])
            yield h
        else:
            h = []
            for _ in range(r.choice([1, 1, 1, 2, 3])):
                x = mk_run(r, "real", v)
                x["plan"] = rand_plan(r, clean["real"])
                h.append(x)
                if r.random() < 0.05: h.append(mk_run(r, "dry", v))
            h.append(mk_run(r, "real", v))
            if r.random() < 0.15: h.append(mk_run(r, "real", v))
            yield h


# ---- known findings ------------------------------------------------------------------------
def known(prop, o, why):
    p = os.path.join(C.HERE, "known_findings.json")
    if not os.path.exists(p): return None
    for k in json.loads(C.read(p)).get("findings", []):
        if k["property"] == prop and all(o.get(a) in b for a, b in k["repository"].items()) and re.search(k["violation"], why, re.S):
            return k
    return None


# ---- search --------------------------------------------------------------------------------
def worker(a):
    work, n, prop, seed, until = a
    W = {"work": work, "dir": os.path.join(work, "w%d" % n), "git": shutil.which("git")}
    os.makedirs(W["dir"], exist_ok=True)
    res = {"evaluations": 0, "runs": 0, "faults": {}, "points": set(), "states": set(), "repos": 0, "refused_repos": 0, "viol": None, "known": {}, "replayed": 0, "nontrivial": set(), "samples": []}
    i = 0
    while time.time() < until and not res["viol"]:
        r = random.Random("%s/%d/%d/%d" % (prop, seed, n, i))
        i += 1
        o = rand_options(r, r.random() < (0.45 if prop == "C14" else 0.3))
        version = rand_version(r)
        repo = Repo(os.path.join(W["dir"], "box"), o, version)
        res["repos"] += 1
        g = histories(prop, r, W, repo)
        st = None
        refused = any(o[k] == v for k, v in REFUSALS)
        res["refused_repos"] += refused
        # most repositories get a few histories only (the kinds of repository matter as much as the faults), every fourth many
        broad = i % 4 != 1
        for j in range(4 if prop == "C15" and refused else (4 if prop == "C15" else 7) if broad else 60):
            h = next(g) if j == 0 else g.send(st)
            if h is None: break
            try:
                st = play(W, repo, h)
            except Bad as e:
                k = known(prop, o, str(e))
                if k:
                    res["known"][k["what"]] = res["known"].get(k["what"], 0) + 1
                    st = None
                    if j < 3: break
                    continue
                res["viol"] = {"options": o, "version": version, "history": h, "why": str(e)}
                break
            res["evaluations"] += 1
            res["runs"] += st["runs"]
            for a, b in st["faults"].items(): res["faults"][a] = res["faults"].get(a, 0) + b
            res["points"].update(st["points"])
            res["states"].update(st["states"])
            if st["faults"] or len(h) > 1: res["nontrivial"].add(hashlib.sha1(json.dumps([st["trace"], o], sort_keys=True).encode()).hexdigest()[:16])
            if j == 3 and len(res["samples"]) < 1: res["samples"].append({"repository": {k: x for k, x in o.items() if x != OPTIONS[k][0]}, "history": h})
            if j % 20 == 9 or broad and j == 3 and i % 8 == 2:
                # the same history again must be the same execution
                s2 = play(W, repo, h)
                res["replayed"] += 1
                if (s2["trace"], s2["out"], s2["states"]) != (st["trace"], st["out"], st["states"]): 
                    res["unrepeatable"] = res.get("unrepeatable", 0) + 1
                    if os.environ.get("PD_DEBUG"): C.log([next(((a, b) for a, b in zip(x, y) if a != b), (len(x), len(y))) for x, y in zip(st["trace"], s2["trace"])], [(a, b) for a, b in zip(st["out"], s2["out"]) if a != b], st["states"], s2["states"])
            if time.time() > until: break
    shutil.rmtree(os.path.join(W["dir"], "box"), ignore_errors=True)
    return res


def attempt(W, x):
    """-> violation text or None"""
    try:
        repo = Repo(os.path.join(W["dir"], "box"), x["options"], x["version"])
        play(W, repo, x["history"])
    except Bad as e:
        return str(e)
    except Exception as e:  # a shape that cannot be built
        return None
    return None


def minimise(W, prop, x):
    x = json.loads(json.dumps(x))

    def same(y):
        w = attempt(W, y)
        return w if w and not known(prop, y["options"], w) else None
    again = True
    end = time.time() + 60
    while again and time.time() < end:
        again = False
        for k in range(len(x["history"]) - 1, -1, -1):
            y = json.loads(json.dumps(x))
            del y["history"][k]
            w = same(y) if y["history"] else None
            if w:
                x, again = dict(y, why=w), True
                break
            for c in range(len(x["history"][k]["plan"])):
                y = json.loads(json.dumps(x))
                del y["history"][k]["plan"][c]
                w = same(y)
                if w:
                    x, again = dict(y, why=w), True
                    break
            if again: break
            for key, val in (("cwd", ""), ("seed", 0)):
                if x["history"][k][key] != val and x["history"][k]["cwd"] != "../outside":
                    y = json.loads(json.dumps(x))
                    y["history"][k][key] = val
                    w = same(y)
                    if w: x, again = dict(y, why=w), True
        for k in OPTIONS:
            if x["options"][k] != OPTIONS[k][0]:
                y = json.loads(json.dumps(x))
                y["options"][k] = OPTIONS[k][0]
                w = same(y)
                if w: x, again = dict(y, why=w), True
    return x


def check(prop):
    t0 = time.time()
    os.makedirs(os.path.join(C.OUT, "replays"), exist_ok=True)
    os.makedirs(C.EVID, exist_ok=True)
    secs = int(os.environ.get("PD_SECS", "0")) or (900 if C.TIER == "thorough" else 60)
    work = tempfile.mkdtemp(prefix="pd-%s-" % prop, dir=C.OUT)
    rc = 0
    try:
        if not build(work):
            C.log("the release tool does not compile")
            return 2
        ts = time.time()
        n = len(os.sched_getaffinity(0))
        with multiprocessing.Pool(n) as pool:
            rs = pool.map(worker, [(work, k, prop, C.SEED, ts + secs) for k in range(n)], chunksize=1)
        dt = time.time() - ts
        kn = {}
        for r in rs:
            for a, b in r["known"].items(): kn[a] = kn.get(a, 0) + b
        for k in json.loads(C.read(os.path.join(C.HERE, "known_findings.json"))).get("findings", []) if os.path.exists(os.path.join(C.HERE, "known_findings.json")) else []:
            if k["property"] == prop: C.log("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
        v = next((r["viol"] for r in rs if r["viol"]), None)
        if v:
            W = {"work": work, "dir": os.path.join(work, "w0"), "git": shutil.which("git")}
            w = attempt(W, v)
            v["reproduced"] = w is not None
            if w: v = minimise(W, prop, v)
            p = os.path.join(C.OUT, "replays/%s-release-%d.json" % (prop, C.SEED))
            with open(p, "w", encoding="utf-8") as f: json.dump(dict(v, kind="release", property=prop), f, indent=1, ensure_ascii=False)
            C.log("repository: %s, version %s" % ({k: x for k, x in v["options"].items() if x != OPTIONS[k][0]} or "plain", v["version"]))
            for h in v["history"]: C.log("  run %s in %s, plan %s" % (h["args"], h["cwd"] or ".", h["plan"] or "none"))
            C.log(v["why"][:1500])
            C.log("VIOLATION property=%s replay=%s" % (prop, p))
            rc = 1
    finally:
        shutil.rmtree(work, ignore_errors=True)
    tot = lambda k: sum(r[k] for r in rs)
    uni = lambda k: len(set().union(*[r[k] for r in rs]))
    faults = {}
    for r in rs:
        for a, b in r["faults"].items(): faults[a] = faults.get(a, 0) + b
    cov = {"evaluations": tot("evaluations"), "distinct_nontrivial": uni("nontrivial"),
           "rule": "one evaluation = one history of 1..6 runs of the tool in one generated repository; non-trivial = a fault fired or the tool ran more than once; distinct = different call traces or repositories",
           "samples": [s for r in rs for s in r["samples"]][:3], "tool_runs": tot("runs"), "repositories": tot("repos"), "repositories_to_refuse": tot("refused_repos"),
           "faults_injected": faults, "distinct_fault_points": uni("points"), "distinct_states_after_interruption": uni("states"),
           "replayed_for_determinism": tot("replayed"), "not_repeatable": sum(r.get("unrepeatable", 0) for r in rs), "runs_per_hour": int(tot("runs") / max(dt, 1) * 3600), "known_findings_met": kn,
           "simulated_time": "calendar dates drawn per run; no other time passes",
           "components": {"real": ["prepare_release.rs as compiled from /repo", "git (read-only commands)", "the scratch file system's data path"],
                          "simulated": ["failures, short and torn transfers, disk full, read-only remount, process stop and power loss at any call; directory order; child failures; calendar date"],
                          "stub": ["powershell; git commands that create history are recorded, not run"]}}
    ev = {"property": prop, "tier": C.TIER, "seed": C.SEED, "level": "exploration", "coverage": cov,
          "assumptions": ["power loss keeps directory operations in order and truncates file data that was not synced", "the scratch repositories have the shape of this one (release.py OPTIONS)"],
          "wall_s": round(time.time() - t0, 1), "violations": rc}
    with open(os.path.join(C.EVID, prop + ".json"), "w") as f: json.dump(ev, f, indent=1, ensure_ascii=False)
    C.log("%s: %d histories, %d tool runs, %d repositories, %d distinct fault points, %d interrupted states, %.1f s" %
          (prop, cov["evaluations"], cov["tool_runs"], cov["repositories"], cov["distinct_fault_points"], cov["distinct_states_after_interruption"], dt))
    return rc


def replay(r):
    os.makedirs(C.OUT, exist_ok=True)
    work = tempfile.mkdtemp(prefix="pd-rel-", dir=C.OUT)
    try:
        if not build(work): return 2
        W = {"work": work, "dir": os.path.join(work, "w0"), "git": shutil.which("git")}
        os.makedirs(W["dir"])
        w = attempt(W, r)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    if w is None:
        C.log("the recorded violation does not occur")
        return 0
    C.log(w)
    return 1
