#!/usr/bin/env python3
"""Generates the zoo of derived types: src/gen.rs (declarations) and model.json (what they mean).

Both come from one abstract description.  The model half follows the documentation of the
attributes; it never looks at what the macros emit.
usage: gen.py SEED COUNT OUTDIR [NAMES TO LEAVE OUT, comma separated]
"""
import json
import random
import re
import sys

seed, count, outdir = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
drop = set(sys.argv[4].split(",")) if len(sys.argv) > 4 else set()
rng = random.Random(seed * 7919 + 17)
WBASE = 100000


def rs(s):
    out = '"'
    for c in s:
        if c == '"': out += '\\"'
        elif c == '\\': out += '\\\\'
        elif c == '\n': out += '\\n'
        elif c == '\t': out += '\\t'
        elif c == '\r': out += '\\r'
        elif ord(c) < 32: out += '\\u{%x}' % ord(c)
        else: out += c
    return out + '"'


# ---- pattern nodes -----------------------------------------------------------
def Lit(s): return {"k": "Lit", "s": s}
ANY = {"k": "Any"}
def Cls(*r, neg=False): return {"k": "Cls", "r": [list(x) for x in r], "neg": neg}
def Seq(*n): return {"k": "Seq", "n": list(n)}
def Alt(*n): return {"k": "Alt", "n": list(n)}
def Rep(n, mn, mx, greedy=True): return {"k": "Rep", "min": mn, "max": mx, "greedy": greedy, "n": n}
def Cap(i, n): return {"k": "Cap", "i": i, "n": n}


META = set('\\.+*?()|[]{}^$#&-~')
def esc(s):
    out = ""
    for c in s:
        if c in META: out += '\\' + c
        elif c == '\n': out += '\\n'
        else: out += c
    return out


class RX:
    """a regex with its text and its node; `hole` marks where a capture group opens"""
    def __init__(self, text, node): self.text, self.node = text, node


def rx_cls():
    k = rng.choice(["d", "d", "w", "w", "al", "neg", "uni", "set"])
    if k == "d": return RX("[0-9]", Cls("09"))
    if k == "w": return RX("[a-z]", Cls("az"))
    if k == "al": return RX("[A-Za-z0-9_]", Cls("AZ", "az", "09", "__"))
    if k == "neg": return RX("[^,<>-]", Cls(",,", "<<", ">>", "--", neg=True))
    if k == "uni": return RX("[à-ÿa-f]", Cls("àÿ", "af"))
    return RX("[ab01.]", Cls("aa", "bb", "00", "11", ".."))


def rx_atom(d=0):
    k = rng.random()
    if k < 0.55:
        c = rx_cls()
        q, mn, mx, g = rng.choice([("+", 1, None, True), ("+", 1, None, True), ("*", 0, None, True), ("+?", 1, None, False),
                                   ("{2}", 2, 2, True), ("{1,3}", 1, 3, True), ("", None, None, None), ("?", 0, 1, True)])
        if mn is None: return c
        return RX(c.text + q, Rep(c.node, mn, mx, g))
    if k < 0.75:
        s = rng.choice(["ab", "x", "foo", "-", ".", "a.b", "(", "0x", "é", "=", "$1"])
        return RX(esc(s), Lit(s))
    if k < 0.9 and d < 2:
        alts = [rx_seq(d + 1, 1) for _ in range(rng.randint(2, 3))]
        g = rng.choice(["(?:", "("])
        return RX(g + "|".join(a.text for a in alts) + ")", Alt(*[a.node for a in alts]))
    a = rng.choice([("ab", Lit("ab")), ("[a-c]x", Seq(Cls("ac"), Lit("x"))), ("q", Lit("q"))])
    q, mn, mx = rng.choice([("?", 0, 1), ("+", 1, None), ("{0,2}", 0, 2)])
    g = rng.choice(["(?:", "("])
    return RX(g + a[0] + ")" + q, Rep(a[1], mn, mx, True))


def rx_seq(d=0, mx=2):
    xs = [rx_atom(d) for _ in range(rng.randint(1, mx))]
    if len(xs) == 1: return xs[0]
    return RX("".join(x.text for x in xs), Seq(*[x.node for x in xs]))


def Look(at): return {"k": "Look", "at": at}
def Not(*r): return Cls(*r, neg=True)
def ci(c): return Cls(c + c, c.swapcase() * 2, *(["\u212a" * 2] if c in "kK" else ["\u017f" * 2] if c in "sS" else []))
SPACES = ["\t\r", "  ", "\x85\x85", "\xa0\xa0", "\u1680\u1680", "\u2000\u200a", "\u2028\u2029", "\u202f\u202f", "\u205f\u205f", "\u3000\u3000"]
PUNCT = ["!/", ":@", "[`", "{~"]


ODD = 13
def rx_odd(own, k=None):
    """what regular expressions offer beyond the usual (texts have no digits but ASCII ones)"""
    def rep(t, n):
        q, mn, mx, g = rng.choice([("+", 1, None, True), ("*", 0, None, True), ("+?", 1, None, False), ("{2,}", 2, None, True), ("{0,2}?", 0, 2, False), ("{1}", 1, 1, True)])
        return RX(t + q, Rep(n, mn, mx, g))
    word = rng.choice(["ab", "kx", "s", "hello"])
    num = Rep(Cls("09"), 1, None)
    if k is None: k = rng.randrange(ODD)
    if k == 0: return rep("." if own else "(?-s:.)", Not("\n\n"))  # a field's regex beside a field format is read with the flag `s`
    if k == 1:
        t, n = rng.choice([("(?s:.)", Not()), ("(?-s:.)", Not("\n\n")), ("(?s:[^a])", Not("aa")), ("(?R-s:.)", Not("\n\n", "\r\r"))])
        return rep(t, n)
    if k == 2:
        n = Seq(*[ci(c) for c in word])
        return rng.choice([RX("(?i:" + word + ")", n), RX("(?i)" + word, n), RX("(?i:(?-i:" + word[0] + ")" + word[1:] + ")", Seq(Lit(word[0]), *[ci(c) for c in word[1:]]))])
    if k == 3: return RX("(?x: a\n b [0-9] )", Seq(Lit("ab"), Cls("09")))
    if k == 4:
        t, n = rng.choice([("\\d", Cls("09")), ("(?-u:\\d)", Cls("09")), ("[[:digit:]]", Cls("09")), ("\\D", Not("09")), ("\\s", Cls(*SPACES)), ("\\S", Not(*SPACES)), ("[\\s\\d]", Cls("09", *SPACES)),
                           ("[[:^digit:]]", Not("09")), ("[[:punct:]]", Cls(*PUNCT)), ("[[:alpha:]]", Cls("az", "AZ")), ("(?-u:\\w)", Cls("az", "AZ", "09", "__")), ("[[:space:]]", Cls("\t\r", "  "))])
        return rep(t, n)
    if k == 5:
        t, n = rng.choice([("[a-z&&[^aeiou]]", Cls("bd", "fh", "jn", "pt", "vz")), ("[a-f--b]", Cls("aa", "cf")), ("[[a-c][x-z]]", Cls("ac", "xz")), ("[a-c~~b-d]", Cls("aa", "dd")), ("[]a]", Cls("]]", "aa")), ("[^-a]", Not("--", "aa")), ("[a^]", Cls("aa", "^^"))])
        return rep(t, n)
    if k == 6: return RX(*rng.choice([("\\x41", Lit("A")), ("\\u{e9}x", Lit("éx")), ("\\u00e9", Lit("é")), ("\\t", Lit("\t")), ("\\r\\n", Lit("\r\n")), ("\\x{1F980}", Lit("\U0001F980")), ("\\-\\#\\ \\/", Lit("-# /"))]))
    if k == 7:
        a, at = rng.choice([("^", "start"), ("\\A", "start"), ("(?m:^)", "line"), ("", None)])
        b, bt = rng.choice([("$", "end"), ("\\z", "end"), ("(?m:$)", "eol"), ("", None)])
        return RX(a + "[0-9]+" + b, Seq(*([Look(at)] if at else []), num, *([Look(bt)] if bt else [])))
    if k == 8:
        d = rng.choice([8, 30, 60])
        o = rng.choice(["(", "(?:"])
        return RX(o * d + "[a-c]" + ")" * d + "+", Rep(Cls("ac"), 1, None))
    if k == 9:
        t, n = rng.choice([("[^,]", Not(",,")), ("(?s:.)", Not()), ("[a-y]", Cls("ay"))])
        m = rng.choice([100, 400, 900])
        return RX(t + "{0,%d}" % m, Rep(n, 0, m))
    if k == 10: return RX(*rng.choice([("a|", Alt(Lit("a"), Seq())), ("(|b)", Alt(Seq(), Lit("b"))), ("(?:x|y|)+", Rep(Alt(Lit("x"), Lit("y"), Seq()), 1, None)), ("a{0}b", Lit("b")), ("()[a-c]", Cls("ac")), ("(?U:[a-c]+)[a-z]*", Seq(Rep(Cls("ac"), 1, None, False), Rep(Cls("az"), 0, None))), ("(?U)[a-c]*?", Rep(Cls("ac"), 0, None))]))
    if k == 11:
        ws = ["w%d" % i for i in range(rng.choice([20, 80]))]
        rng.shuffle(ws)
        return RX("|".join(ws), Alt(*[Lit(w) for w in ws]))
    w = rng.choice(["lorem ", "ab", "é"]) * rng.choice([20, 60])
    return RX(w, Lit(w))


def rx_simple(own=False):
    """a capture-free regex for a field or custom format"""
    if rng.random() < 0.2: return rx_odd(own)
    r = rng.random()
    if r < 0.35: return RX("[0-9]+", Rep(Cls("09"), 1, None))
    if r < 0.6: return RX("[a-z]+", Rep(Cls("az"), 1, None))
    if r < 0.7:
        a, b = rx_seq(1, 1), rx_seq(1, 1)
        return RX(a.text + "|" + b.text, Alt(a.node, b.node))
    return rx_seq()


# ---- types --------------------------------------------------------------------
next_id = [1]
def new_id():
    next_id[0] += 1
    return next_id[0]


class WDef:
    def __init__(self, pre, post, rx, struct):
        self.pre, self.post, self.rx, self.struct = pre, post, rx, struct
        self.id = WBASE + len(WS)
        WS.append(self)
WS = []


def new_w(pattern=None):
    kind = pattern or rng.choice(["W", "W", "Wr", "Wn", "W"])
    pre, post = rng.choice([("", ""), ("", ""), ("<", ">"), ("#", ""), ("", ";"), ("é", "é"), ("((", "))")])
    if kind == "Wn": return WDef(pre, post, None, "Wn")
    rx = rx_simple(True) if rng.random() < 0.8 else None
    if rx is not None and (pre or post):
        inner = rx
        rx = RX(esc(pre) + "(?:" + inner.text + ")" + esc(post), Seq(Lit(pre), inner.node, Lit(post)))
    return WDef(pre, post, rx, kind)


class Ty:
    def __init__(self, k, **kw):
        self.k = k
        self.__dict__.update(kw)

    def rust(self):
        k = self.k
        if k in ("Fld", "Num", "Word"): return f"{k}<{self.id}>"
        if k == "Std": return self.t
        if k == "T": return self.ref.inst_name
        if k == "Opt": return f"Option<{self.e.rust()}>"
        if k == "Vec": return f"Vec<{self.e.rust()}>"
        if k == "Deep": return "Deep<" + ", ".join(x.rust() for x in self.f) + ">"
        if k == "Pair": return "(" + ", ".join(x.rust() for x in self.f) + ")"
        if k == "Param": return self.name
        if k == "CLeaf": return f"{self.leaf}<{self.name}>"
        raise Exception(k)

    def model(self, sub):
        k = self.k
        if k in ("Fld", "Num", "Word"): return {"k": k, "id": self.id}
        if k == "Std": return {"k": "Std", "t": self.t}
        if k == "T": return {"k": "T", "i": self.ref.index}
        if k in ("Opt", "Vec"): return {"k": k, "e": self.e.model(sub)}
        if k in ("Deep", "Pair"): return {"k": k, "f": [x.model(sub) for x in self.f]}
        if k == "Param": return sub[self.name].model(sub)
        if k == "CLeaf": return {"k": self.leaf, "id": sub[self.name]}
        raise Exception(k)

    def resolve(self, sub):
        if self.k == "CLeaf": return Ty(self.leaf, id=sub[self.name])
        return sub[self.name] if self.k == "Param" else self

    def can_default(self, sub=None):
        k = self.k
        if k == "T": return self.ref.has_default
        if k == "Param": return False
        if k == "Std": return "NonZero" not in self.t
        if k in ("Deep", "Pair"): return all(x.can_default() for x in self.f)
        return True

    def pattern(self):
        """node of the pattern the type publishes, or None"""
        k = self.k
        if k == "Num": return Rep(Cls("09"), 1, None)
        if k == "Word": return Rep(Cls("az"), 1, None)
        if k == "Std":
            t = self.t
            if "NonZero" in t: t = t[t.index("<") + 1:-1]
            if t in ("f32", "f64"): return FLOAT
            if t[0] == "u": return Rep(Cls("09"), 1, None)
            if t[0] == "i": return Seq(Rep(Lit("-"), 0, 1), Rep(Cls("09"), 1, None))
            if t == "bool": return Alt(Lit("true"), Lit("false"))
            if t == "char": return Cls(["\u0000", "\U0010ffff"])
            if t == "String": return ANY
        if k == "T" and self.ref.from_str: return self.ref.published()
        return None


SIGN, DIG = Rep(Cls("++", "--"), 0, 1), Rep(Cls("09"), 1, None)
def nocase(w): return Seq(*[Cls(c + c, c.upper() * 2) for c in w])
FLOAT = Alt(Seq(SIGN, Alt(Seq(DIG, Rep(Lit("."), 0, 1)), Seq(Rep(Cls("09"), 0, None), Lit("."), DIG)), Rep(Seq(nocase("e"), SIGN, DIG), 0, 1)),
            Seq(SIGN, nocase("inf")), nocase("nan"))
STD = ["String", "u8", "u32", "i64", "bool", "char", "u64", "i32"] * 2 + ["u16", "u128", "usize", "i8", "i16", "i128", "isize", "f32", "f64", "f64",
       "core::num::NonZero<u8>", "core::num::NonZero<i32>"]


def leaf():
    r = rng.random()
    if r < 0.5: return Ty("Fld", id=new_id())
    if r < 0.68: return Ty("Num", id=new_id())
    if r < 0.75: return Ty("Word", id=new_id())
    return Ty("Std", t=rng.choice(STD))


def dleaf():
    while True:
        t = leaf()
        if t.can_default(): return t


def wable():
    r = rng.random()
    if r < 0.5: return Ty("Fld", id=new_id())
    if r < 0.75: return Ty("Num", id=new_id())
    if r < 0.85: return Ty("Word", id=new_id())
    return Ty("Std", t="String")


class With:
    """kind: W | Join | Infer | Fmt"""
    def __init__(self, kind, w=None, item=None, delim=None):
        self.kind, self.w, self.item, self.delim = kind, w, item, delim

    def expr(self, elem=None):
        if self.kind == "W": return f"{self.w.struct}::<{self.w.id}>"
        if self.kind == "Fmt": return "fmt()"
        if self.kind == "WC": return f"Wn::<{self.w}>"
        if self.kind == "Join":
            if self.item.kind == "Fmt" and self.short: return f"delimiter({rs(self.delim)})"
            return f"join({self.item.expr()}, {rs(self.delim)})"
        raise Exception

    def model(self, sub={}):
        if self.kind == "WC":
            w = WS[sub[self.w] - WBASE]
            return {"k": "W", "id": w.id, "pre": w.pre, "post": w.post}
        if self.kind == "W": return {"k": "W", "id": self.w.id, "pre": self.w.pre, "post": self.w.post}
        if self.kind == "Fmt": return {"k": "Fmt"}
        if self.kind == "Infer": return {"k": "Infer"}
        return {"k": "Join", "item": self.item.model(), "delim": self.delim}

    def node(self, ty):
        """what a capture with this custom format matches"""
        if self.kind == "W" and self.w.rx is not None and self.w.struct != "Wn": return self.w.rx.node
        if self.kind == "Infer": return ty.pattern()
        return ANY


def new_join(elem):
    item = With("Fmt") if rng.random() < 0.6 or elem.k == "T" or (elem.k == "Std" and elem.t != "String") else With("W", w=new_w())
    j = With("Join", item=item, delim=rng.choice([",", ", ", ";", "-", "::", "|", "--", "é", "\n", ".", " ", "ab"]))
    j.short = rng.random() < 0.6
    return j


LITS = ["-", ",", "<", ">", ".", "*", "(", ")", "[", "]", "^", "$", "|", "\\", "\\d", "+", "?", " ", "\n", "é", "日", "=", ": ", "#",
        "none", "0", "a", "\"", "'", "~", "&&", "-->", "\t", "A", "k=", "; ", "^a$", "(?:x)", "[a-z]", "{", "}", "{}", "}{", "%", "x", "@", "/", "!"]


ODD_LITS = [chr(c) for c in range(0x21, 0x7f)] + ["\r", "\0", "\x7f", "\u200b", "ß", "İ", "🦀", "e\u0301", "\\n", "$1", "${n}", "%s", "\r\n", "(?i)", "\\", "--", "[^", "{{", "|a|", "/*", "//"]


def lit():
    if rng.random() < 0.15: return rng.choice(ODD_LITS)
    return rng.choice(LITS) if rng.random() < 0.8 else rng.choice(LITS) + rng.choice(LITS)


def fmt_esc(s): return s.replace("{", "{{").replace("}", "}}")


class Field:
    def __init__(self, name, ty):
        self.name, self.ty = name, ty
        self.opt = self.dfl = self.infer = False
        self.fmt = None          # list of ("s",text) | ("me",) | ("sub",path,names)
        self.dwith = self.pwith = None
        self.rx = None           # RX without capture
        self.rx_hole = None      # (pre RX, inner RX, post RX): regex with (?<>)
        self.in_fmt = True       # appears in the from_str format
        self.deep = []           # deep paths used: list of (path, names)
        self.base_captured = True

    def key(self): return self.name.removeprefix("r#")

    def attrs(self):
        d, f = [], []
        if self.fmt is not None:
            t = ""
            for p in self.fmt:
                if p[0] == "s": t += fmt_esc(p[1])
                elif p[0] == "me": t += "{}"
                else: t += "{" + ".".join(p[2]) + "}"
            d.append(rs(t))
        if self.opt: d.append("opt")
        if self.dwith is not None and self.dwith is self.pwith: d.append("with = " + self.dwith.expr())
        else:
            if self.dwith is not None: d.append("with = " + self.dwith.expr())
            if self.pwith is not None: f.append("with = " + self.pwith.expr())
        if self.rx is not None: f.append("regex = " + rs(self.rx.text))
        if self.rx_hole is not None:
            a, b, c = self.rx_hole
            f.append("regex = " + rs(a.text + rng.choice(["(?<>", "(?P<>"]) + b.text + ")" + c.text))
        if self.dfl: f.append("default")
        if self.infer: f.append("regex_infer")
        out = ""
        if d: out += "#[display(" + ", ".join(d) + ")] "
        if f: out += "#[from_str(" + ", ".join(f) + ")] "
        return out


class Variant:
    def __init__(self, name, kind):
        self.name, self.kind = name, kind
        self.fields = []
        self.fmt = None      # parts: ("s",text) ("f",i) ("d",i,path,names) ("name",)
        self.rx = None       # list of ("rx",RX) ("cap",i,RX) ("dcap",i,path,names,RX) ("optcap",i,RX,quant) ("name",)
        self.new = None      # None | (form, site, picky)
        self.ignore = self.infer = self.dself = False
        self.style = None
        self.dfields = []
        self.base = None

    def fmt_text(self, parts, owner=None):
        t = ""
        for p in parts:
            if p[0] == "s": t += fmt_esc(p[1])
            elif p[0] == "f":
                n = self.fields[p[1]].name if self.kind == "named" else str(p[1])
                if n.startswith("r#") and p[2:] != ("raw",): n = n[2:]
                t += "{" + n + "}"
            elif p[0] == "d":
                n = self.fields[p[1]].key() if self.kind == "named" else str(p[1])
                t += "{" + ".".join([n] + list(p[3])) + "}"
            elif p[0] == "name": t += "{}"
        return t

    def rx_text(self, parts):
        t = ""
        P = rng.choice(["", "P"])
        for p in parts:
            if p[0] == "rx": t += p[1].text
            elif p[0] == "name": t += f"(?{P}<>)"
            else:
                n = self.fields[p[1]].key() if self.kind == "named" else str(p[1])
                if p[0] == "cap": t += f"(?{P}<{n}>{p[2].text})"
                elif p[0] == "optcap": t += f"(?:{p[3].text}(?{P}<{n}>{p[2].text}))?"
                elif p[0] == "repcap": t += f"(?:(?{P}<{n}>{p[2].text}){p[3].text}){p[4]}"
                elif p[0] == "dcap": t += f"(?{P}<{'.'.join([n] + list(p[3]))}>{p[4].text})"
        return t


def style_apply(style, name):
    words = re.findall(r"[A-Z]+[a-z0-9]*|[a-z0-9]+", name)
    lo = [w.lower() for w in words]
    cap = [w[0].upper() + w[1:].lower() for w in words]
    up = [w.upper() for w in words]
    return {
        None: lambda: name, "none": lambda: name,
        "lowercase": lambda: "".join(lo), "UPPERCASE": lambda: "".join(up),
        "snake_case": lambda: "_".join(lo), "SNAKE_CASE": lambda: "_".join(up),
        "camelCase": lambda: lo[0] + "".join(cap[1:]), "CamelCase": lambda: "".join(cap),
        "kebab-case": lambda: "-".join(lo), "KEBAB-CASE": lambda: "-".join(up),
        "Title Case": lambda: " ".join(cap), "Title case": lambda: " ".join(cap[:1] + lo[1:]),
        "title case": lambda: " ".join(lo), "TITLE CASE": lambda: " ".join(up),
    }[style]()


STYLES = ["none", "lowercase", "UPPERCASE", "snake_case", "SNAKE_CASE", "camelCase", "CamelCase", "kebab-case", "KEBAB-CASE", "Title Case",
          "Title case", "title case", "TITLE CASE"]


class Type:
    def __init__(self, name, en):
        self.decl_name = name
        self.inst_name = name
        self.en = en
        self.vars = []
        self.disp = self.from_str = True
        self.fmt = None       # enum-level format parts ("s"/"name"/"f"); struct uses vars[0].fmt
        self.rx = None        # enum-level regex parts
        self.style = None
        self.infer = False
        self.has_default = self.patonly = False
        self.default_site = None
        self.default_val = None
        self.params = []      # names
        self.cparams = []     # const parameters
        self.bound = None
        self.fbound = None
        self.sub = {}
        self.tags = set()
        self.index = None
        self.group = None
        self.extra = ""
        self.split_fmt = False

    # -- meaning --
    def vstyle(self, v): return v.style or self.style

    def variant_format(self, v):
        """effective display parts"""
        if v.fmt is not None: return v.fmt
        if self.en and self.fmt is not None: return self.fmt
        if not self.en and len(v.fields) == 1: return [("f", 0)]
        if self.en and v.kind == "unit": return [("name",)]
        return None

    def shown_name(self, v): return style_apply(self.vstyle(v), v.name)

    def parse_parts(self, v):
        """(parts, is_regex)"""
        if v.rx is not None: return v.rx, True
        if v.fmt is not None: return v.fmt, False
        if self.en and self.rx is not None: return self.rx, True
        return self.variant_format(v), False

    def field_infer(self, v, f):
        return f.infer or v.infer or self.infer

    def pwith_of(self, v, f):
        if f.pwith is not None: return f.pwith
        if self.field_infer(v, f): return With("Infer")
        return None

    def field_node(self, v, f, capi, sub):
        ty = f.ty.resolve(sub)
        if f.rx_hole is not None:
            a, b, c = f.rx_hole
            n = Seq(a.node, Cap(capi, b.node), c.node)
        else:
            if f.rx is not None: inner = Cap(capi, f.rx.node)
            else:
                w = self.pwith_of(v, f)
                inner = Cap(capi, (w.node(ty) if w else ANY))
            if f.fmt is not None:
                n = Seq(*[Lit(p[1]) if p[0] == "s" else inner for p in f.fmt])
            else: n = inner
        if f.opt: n = Rep(n, 0, 1, False)
        return n

    def model_var(self, v, sub):
        parts, is_rx = self.parse_parts(v)
        cap = [1]
        caps = {}
        deep = []
        def newcap():
            cap[0] += 1
            return cap[0] - 1
        nodes = []
        lit = ""
        only = True
        for p in parts or []:
            if p[0] == "s":
                nodes.append(Lit(p[1])); lit += p[1]
            elif p[0] == "name":
                s = self.shown_name(v)
                nodes.append(Lit(s)); lit += s
            elif p[0] == "rx":
                nodes.append(p[1].node); only = False
            elif p[0] == "f":
                only = False
                caps[p[1]] = newcap()
                nodes.append(self.field_node(v, v.fields[p[1]], caps[p[1]], sub))
            elif p[0] == "cap":
                caps[p[1]] = newcap(); nodes.append(Cap(caps[p[1]], p[2].node))
            elif p[0] == "optcap":
                caps[p[1]] = newcap(); nodes.append(Rep(Seq(p[3].node, Cap(caps[p[1]], p[2].node)), 0, 1, True))
            elif p[0] == "repcap":
                caps[p[1]] = newcap()
                nodes.append(Rep(Seq(Cap(caps[p[1]], p[2].node), p[3].node), {"+": 1, "*": 0, "{2}": 2, "+?": 1}[p[4]], 2 if p[4] == "{2}" else None, p[4] != "+?"))
            elif p[0] == "d":
                only = False
                i = newcap(); deep.append({"f": p[1], "p": p[2], "i": i}); nodes.append(Cap(i, ANY))
            elif p[0] == "dcap":
                i = newcap(); deep.append({"f": p[1], "p": p[2], "i": i}); nodes.append(Cap(i, p[4].node))
        src = []
        for i, f in enumerate(v.fields):
            if i in caps:
                w = self.pwith_of(v, f)
                src.append({"k": "Cap", "i": caps[i], "opt": f.opt, "with": w.model(sub) if w else None})
            elif f.dfl or f.key() in v.dfields: src.append({"k": "Def"})
            else: src.append({"k": "Base"})
        disp = []
        if self.disp:
            for p in self.variant_format(v):
                if p[0] == "s": disp.append({"k": "S", "s": p[1]})
                elif p[0] == "name": disp.append({"k": "S", "s": self.shown_name(v)})
                elif p[0] == "d": disp.append({"k": "D", "f": p[1], "p": p[2]})
                else:
                    f = v.fields[p[1]]
                    fm = None
                    if f.fmt is not None:
                        fm = [{"k": "S", "s": q[1]} if q[0] == "s" else {"k": "Me"} if q[0] == "me" else {"k": "Sub", "p": q[1]} for q in f.fmt]
                    disp.append({"k": "F", "f": p[1], "opt": f.opt, "fmt": fm, "with": f.dwith.model(sub) if f.dwith else None})
        is_lit = self.from_str and only and not is_rx
        return {
            "name": v.name, "fields": [f.ty.model(sub) for f in v.fields], "disp": disp,
            "lit": lit if is_lit else None, "pat": None if is_lit or not self.from_str else Seq(*nodes),
            "src": src if self.from_str else [], "deep": deep, "new": v.new[1] if v.new and v.new[0] != "plain" else None,
            "picky": bool(v.new and v.new[2]), "ignore": v.ignore or not self.from_str,
            "base": v.base,
        }

    def published(self):
        ns = []
        for v in self.vars:
            m = self.model_var(v, self.sub)
            if m["ignore"]: continue
            ns.append(Lit(m["lit"]) if m["lit"] is not None else m["pat"])
        return strip_caps(Alt(*ns))

    def model(self):
        return {
            "name": self.inst_name, "group": self.group, "en": self.en, "disp": self.disp, "from": self.from_str,
            "vars": [self.model_var(v, self.sub) for v in self.vars],
            "default": [self.default_site, self.default_val] if self.has_default else None,
            "tags": sorted(self.tags), "patonly": self.patonly,
        }

    # -- declaration --
    def decl(self):
        o = []
        der = (["Display"] if self.disp else []) + (["FromStr"] if self.from_str else [])
        ders = [der] if rng.random() < 0.7 else [[d] for d in der]
        for d in ders: o.append("#[derive(" + ", ".join(d) + ")]")
        o.append("#[derive(Clone, Debug, PartialEq)]")
        d, f = [], []
        if self.en:
            if self.fmt is not None: d.append(rs(self.vars[0].fmt_text(self.fmt)))
            if self.rx is not None: f.append("regex = " + rs(self.vars[0].rx_text(self.rx)))
        else:
            v = self.vars[0]
            if v.fmt is not None: d.append(rs(v.fmt_text(v.fmt)))
            if v.rx is not None: f.append("regex = " + rs(v.rx_text(v.rx)))
            if v.new: f.append("new = " + self.new_expr(v))
            if v.dself or (v.new and self.has_default): f.append("default")
            if v.dfields: f.append("default_fields(" + ", ".join(self.dfield(v, x) for x in v.dfields) + ")")
        if self.style: d.append("style = " + rs(self.style))
        if self.bound: d.append(f"bound({self.bound})")
        if self.infer: f.append("regex_infer")
        if self.fbound: f.append(f"bound({self.fbound})")
        if d:
            if len(d) > 1 and rng.random() < 0.2:
                for x in d: o.append(f"#[display({x})]")
            else: o.append("#[display(" + ", ".join(d) + ")]")
        if f: o.append("#[from_str(" + ", ".join(f) + ")]")
        g = self.gen_decl("")
        if self.en:
            o.append(f"pub enum {self.decl_name}{g} {{")
            for v in self.vars:
                d, f = [], []
                if v.fmt is not None: d.append(rs(v.fmt_text(v.fmt)))
                if v.style: d.append("style = " + rs(v.style))
                if v.rx is not None: f.append("regex = " + rs(v.rx_text(v.rx)))
                if v.new: f.append("new = " + self.new_expr(v))
                if v.infer: f.append("regex_infer")
                if v.ignore: f.append("ignore")
                if v.dfields: f.append("default_fields(" + ", ".join(self.dfield(v, x) for x in v.dfields) + ")")
                a = ""
                if d: a += "#[display(" + ", ".join(d) + ")] "
                if f: a += "#[from_str(" + ", ".join(f) + ")] "
                o.append("    " + a + v.name + self.body(v) + ",")
            o.append("}")
        else:
            v = self.vars[0]
            b = self.body(v, "pub ")
            o.append(f"pub struct {self.decl_name}{g}{b}" + ("" if v.kind == "named" else ";"))
        # constructors
        for v in self.vars:
            if v.new: o.append(self.ctor(v))
        if self.has_default:
            o.append(f"impl Default for {self.decl_name} {{ fn default() -> Self {{ default_gate({self.default_site}); <Self as Zv>::mk(&{rust_v(self.default_val)}) }} }}")
        o.append(self.zv())
        if self.extra: o.append(self.extra)
        return "\n".join(o)

    def dfield(self, v, x):
        return x if v.kind == "tuple" or rng.random() < 0.5 else rs(x)

    def new_args(self, v):
        return [f.name if v.kind == "named" else f"_{i}" for i, f in enumerate(v.fields)]

    def new_expr(self, v):
        return f"Self::make_{v.name.lower()}(" + ", ".join(self.new_args(v)) + ")"

    def ctor(self, v):
        form, site, picky = v.new
        args = self.new_args(v)
        ps = ", ".join(f"{a}: {f.ty.rust()}" for a, f in zip(args, v.fields))
        path = f"Self::{v.name}" if self.en else "Self"
        if v.kind == "named": body = path + " { " + ", ".join(args) + " }"
        elif v.kind == "tuple": body = path + "(" + ", ".join(args) + ")"
        else: body = path
        g = self.gen_use()
        head = f"impl{self.gen_decl('')} {self.decl_name}{g} {{ fn make_{v.name.lower()}({ps})"
        chk = ""
        if picky: chk = f"if {args[0]}.0.contains('!') {{ return BAD; }} "
        if form == "plain": return f"{head} -> Self {{ {body} }} }}"
        if form == "opt": return f"{head} -> Option<Self> {{ if !new_gate({site}) {{ return None; }} {chk.replace('BAD', 'None')}Some({body}) }} }}"
        return f"{head} -> Result<Self, LeafErr> {{ if !new_gate({site}) {{ return Err(LeafErr::at({site})); }} {chk.replace('BAD', f'Err(LeafErr::at({site}))')}Ok({body}) }} }}"

    def body(self, v, vis=""):
        if v.kind == "unit": return ""
        if v.kind == "tuple": return "(" + ", ".join(f.attrs() + vis + f.ty.rust() for f in v.fields) + ")"
        return " { " + ", ".join(f.attrs() + vis + f.name + ": " + f.ty.rust() for f in v.fields) + " }"

    def gen_decl(self, b):
        x = [p + b for p in self.params] + [f"const {c}: u32" for c in self.cparams]
        return "<" + ", ".join(x) + ">" if x else ""

    def gen_use(self):
        x = self.params + self.cparams
        return "<" + ", ".join(x) + ">" if x else ""

    def zv(self):
        g, gb = self.gen_use(), self.gen_decl(": Zv")
        mk, rd = [], []
        for i, v in enumerate(self.vars):
            path = f"Self::{v.name}" if self.en else "Self"
            if v.kind == "named":
                c = path + " { " + ", ".join(f"{f.name}: Zv::mk(&v[{k}])" for k, f in enumerate(v.fields)) + " }"
                pt = path + " { " + ", ".join(f"{f.name}: x{k}" for k, f in enumerate(v.fields)) + " }"
            elif v.kind == "tuple":
                c = path + "(" + ", ".join(f"Zv::mk(&v[{k}])" for k in range(len(v.fields))) + ")"
                pt = path + "(" + ", ".join(f"x{k}" for k in range(len(v.fields))) + ")"
            else: c = pt = path
            vs = "vec![" + ", ".join(f"x{k}.rd()" for k in range(len(v.fields))) + "]"
            if self.en:
                mk.append(f"V::E({i}, v) => {{ let _ = v; {c} }}")
                rd.append(f"{pt} => V::E({i}, {vs})")
            else:
                mk.append(f"V::R(v) => {{ let _ = v; {c} }}")
                rd.append(f"{pt} => V::R({vs})")
        return (f"impl{gb} Zv for {self.decl_name}{g} {{ fn mk(v: &V) -> Self {{ match v {{ {', '.join(mk)}, _ => panic!(\"bad value\") }} }} "
                f"fn rd(&self) -> V {{ match self {{ {', '.join(rd)} }} }} }}")


def strip_caps(n):
    k = n["k"]
    if k == "Cap": return strip_caps(n["n"])
    if k in ("Seq", "Alt"): return {"k": k, "n": [strip_caps(x) for x in n["n"]]}
    if k == "Rep": return {**n, "n": strip_caps(n["n"])}
    return n


def rust_v(v):
    k = next(iter(v)) if isinstance(v, dict) else v
    if v == "N": return "V::N"
    if k == "L": return f"V::L({rs(v['L'])}.to_string())"
    if k == "S": return f"V::S(Box::new({rust_v(v['S'])}))"
    if k == "R": return "V::R(vec![" + ", ".join(rust_v(x) for x in v["R"]) + "])"
    if k == "E": return f"V::E({v['E'][0]}, vec![" + ", ".join(rust_v(x) for x in v["E"][1]) + "])"
    if k == "Q": return "V::Q(vec![" + ", ".join(rust_v(x) for x in v["Q"]) + "])"
    raise Exception(v)


def some_val(ty):
    k = ty.k
    if k in ("Fld", "Word"): return {"L": rng.choice(["base", "b", ""])}
    if k == "Num": return {"L": rng.choice(["5", "12"])}
    if k == "Std":
        return {"L": {"String": "sb", "bool": "true", "char": "q"}.get(ty.t, "3")}
    if k == "Opt": return rng.choice(["N", {"S": some_val(ty.e)}])
    if k == "Vec": return {"Q": [some_val(ty.e) for _ in range(rng.randint(0, 2))]}
    if k in ("Deep", "Pair"): return {"R": [some_val(x) for x in ty.f]}
    if k == "T":
        t = ty.ref
        i = rng.randrange(len(t.vars))
        fs = [some_val(f.ty.resolve(t.sub)) for f in t.vars[i].fields]
        return {"E": [i, fs]} if t.en else {"R": fs}
    raise Exception(k)


# ---- random declarations -------------------------------------------------------
types = []       # concrete (instantiated) types, in order
decls = []       # Type objects whose declaration is emitted


def nested_candidates(infer=False):
    return [t for t in types if t.disp and t.from_str and t.depth < 4 and not t.params and not t.cparams]


def gen_field(name, feats, both=True):
    """a field usable in a format of a type with Display and FromStr"""
    r = rng.random()
    f = None
    feat = rng.choice(feats) if feats and rng.random() < 0.75 else None
    if feat in ("opt", "optfmt", "optnest"):
        e = leaf()
        if feat == "optnest" and nested_candidates(): e = Ty("T", ref=rng.choice(nested_candidates()[-12:]))
        f = Field(name, Ty("Opt", e=e))
        f.opt = True
        if feat == "optfmt": f.fmt = [("s", lit()), ("me",), ("s", rng.choice(["", lit()]))]
        if rng.random() < 0.15: f.rx = rx_simple()
    elif feat == "fmt":
        f = Field(name, leaf())
        f.fmt = [("s", lit()), ("me",), ("s", rng.choice(["", lit(), lit()]))]
        if rng.random() < 0.25: f.rx = rx_simple()
    elif feat == "fmtesc":
        f = Field(name, leaf())
        f.fmt = [("s", "{"), ("me",), ("s", "}")]
    elif feat in ("with", "withfmt"):
        f = Field(name, wable())
        w = With("W", w=new_w())
        f.dwith = f.pwith = w
        if rng.random() < 0.2: f.pwith = With("W", w=w.w)
        if feat == "withfmt": f.fmt = [("s", lit()), ("me",), ("s", rng.choice(["", lit()]))]
        if feat == "with" and rng.random() < 0.15: f.rx = rx_simple()
    elif feat == "join":
        e = rng.choice([leaf, wable, wable])()
        if rng.random() < 0.2 and nested_candidates(): e = Ty("T", ref=rng.choice(nested_candidates()[-12:]))
        f = Field(name, Ty("Vec", e=e))
        j = new_join(e)
        f.dwith = f.pwith = j
        if rng.random() < 0.3: f.fmt = [("s", "["), ("me",), ("s", "]")]
    elif feat == "regex":
        f = Field(name, leaf())
        f.rx = rx_simple()
    elif feat == "hole":
        f = Field(name, leaf())
        f.rx_hole = (rx_seq(1, 1), rx_simple_atomic(), rx_seq(1, 1))
        a, b, c = f.rx_hole
        if a.node["k"] == "Lit" and c.node["k"] == "Lit": f.fmt = [("s", a.node["s"]), ("me",), ("s", c.node["s"])]
    elif feat == "infer":
        e = rng.choice([lambda: Ty("Num", id=new_id()), lambda: Ty("Word", id=new_id()), lambda: Ty("Std", t=rng.choice(STD)),
                        lambda: Ty("T", ref=rng.choice(nested_candidates()[-12:])) if nested_candidates() else Ty("Num", id=new_id())])()
        f = Field(name, e)
        f.infer = True
        if rng.random() < 0.25: f.fmt = [("s", lit()), ("me",), ("s", rng.choice(["", lit()]))]
    elif feat == "nest" and nested_candidates():
        f = Field(name, Ty("T", ref=rng.choice(nested_candidates()[-16:])))
    elif feat == "default":
        f = Field(name, leaf())
        f.dfl = True
        if rng.random() < 0.6: f.in_fmt = False
        if not f.in_fmt and rng.random() < 0.5:
            f.ty = rng.choice([Ty("Opt", e=leaf()), Ty("Vec", e=leaf()), Ty("Pair", f=[dleaf(), dleaf()])])
        if not f.ty.can_default(): f.ty = dleaf()
    elif feat == "deep":
        f = Field(name, Ty("Deep", f=[dleaf(), dleaf()]))
        f.dfl = True
        f.in_fmt = False
        f.deep = rng.choice([[([0], ["x"])], [([1], ["y"])], [([0], ["x"]), ([1], ["y"])], [([1], ["y"]), ([0], ["x"])]])
        if rng.random() < 0.5: deeper(f)
    elif feat == "deeptuple":
        f = Field(name, Ty("Pair", f=[dleaf(), dleaf()]))
        f.dfl = True
        f.in_fmt = False
        f.deep = rng.choice([[([0], ["0"])], [([1], ["1"])], [([0], ["0"]), ([1], ["1"])]])
    if f is None: f = Field(name, leaf())
    return f


def deeper(f):
    """long paths, with common beginnings and ends"""
    levels = rng.choice([2, 2, 3, 3, 4])

    def ty(n):
        if n == 0: return dleaf()
        return Ty(rng.choice(["Deep", "Deep", "Pair"]), f=[ty(n - 1), ty(n - 1 if n < 3 or rng.random() < 0.5 else 0)])
    f.ty = ty(levels)
    paths = []

    def walk(t, path, names):
        if t.k not in ("Deep", "Pair"): paths.append((path, names))
        else:
            for k in (0, 1): walk(t.f[k], path + [k], names + ["xy"[k] if t.k == "Deep" else str(k)])
    walk(f.ty, [], [])
    n = min(len(paths), rng.choice([1, 2, 2, 3, 4]))
    f.deep = rng.sample(paths, n)
    if n > 1:
        # two that end alike, if there are
        a = f.deep[0]
        b = [x for x in paths if x != a and x[1][1:] == a[1][1:]]
        if b and f.deep[1] not in b: f.deep = [a, rng.choice(b)] + [x for x in f.deep[2:] if x != a and x not in b]


def rx_simple_atomic():
    return rng.choice([lambda: RX("[0-9]+", Rep(Cls("09"), 1, None)), lambda: RX("[a-z]+", Rep(Cls("az"), 1, None)),
                       lambda: RX("[a-z]*?", Rep(Cls("az"), 0, None, False)), rx_seq])()


NAMES = ["a", "b", "d", "x", "y", "k1", "key", "val", "name_1", "zz", "aa", "m", "q", "p0", "p1", "p10", "long_field_name", "t9", "u", "w"]
RAW = ["r#type", "r#match", "r#fn", "r#in"]


def field_names(n, raw):
    ns = rng.sample(NAMES, n)
    if raw and n: ns[rng.randrange(n)] = rng.choice(RAW)
    return ns


def gen_variant(vname, kind, n, feats, newok, t):
    v = Variant(vname, kind)
    use_new = "new" in feats and newok and n > 0
    fe = [x for x in feats if x not in ("new", "regex_type", "default_self", "dfields", "raw", "infer_type", "litonly", "dup", "many")]
    names = field_names(n, "raw" in feats and not use_new) if kind == "named" else [str(i) for i in range(n)]
    v.fields = [gen_field(nm, fe) for nm in names]
    if use_new:
        form = rng.choice(["opt", "res", "opt", "plain"])
        picky = form != "plain" and v.fields[0].ty.k in ("Fld", "Word")
        v.new = (form, new_id(), picky)
    return v


def arrange(v, t, with_name=False):
    """build a format in which every captured field appears once"""
    items = []
    for i, f in enumerate(v.fields):
        if f.deep:
            for path, names in f.deep: items.append(("d", i, path, names))
        elif f.in_fmt: items.append(("f", i) if rng.random() < 0.7 else ("f", i, "raw"))
    rng.shuffle(items)
    if with_name: items.insert(0, ("name",))
    parts = []
    if rng.random() < 0.4: parts.append(("s", lit()))
    for k, it in enumerate(items):
        if k and rng.random() < (0.88 if len(items) < 5 else 1): parts.append(("s", lit()))
        parts.append(it)
    if rng.random() < 0.35: parts.append(("s", lit()))
    if not parts and rng.random() < 0.8: parts.append(("s", lit()))
    return parts


def showable(f):
    return {"Opt": f.opt, "Vec": f.dwith is not None, "Pair": False, "Deep": False}.get(f.ty.k, True)


def rx_able(v):
    """a capture name cannot start with a digit followed by more (`(?<0.x>`)"""
    return v.kind == "named" or not any(f.deep for f in v.fields)


def arrange_rx(v, named_ok=True):
    items = []
    for i, f in enumerate(v.fields):
        if f.deep:
            for path, names in f.deep: items.append(("dcap", i, path, names, rx_simple_atomic()))
        elif f.in_fmt:
            if f.opt: items.append(("optcap", i, rx_simple_atomic(), RX(esc(","), Lit(","))))
            elif rng.random() < 0.25:
                c = rng.choice([RX("[0-9]+", Rep(Cls("09"), 1, None)), RX("[a-z]", Cls("az")), RX("[a-z]+?", Rep(Cls("az"), 1, None, False))])
                s = rng.choice([",", ";", "-", ".", "é"])
                items.append(("repcap", i, c, RX(esc(s), Lit(s)), rng.choice(["+", "+", "*", "{2}", "+?"])))
            else: items.append(("cap", i, rx_simple_atomic()))
    rng.shuffle(items)
    parts = []
    if named_ok and rng.random() < 0.35: parts.append(("name",))
    if rng.random() < 0.4 or not items: parts.append(("rx", rx_seq(1, 1)))
    for k, it in enumerate(items):
        if k and rng.random() < 0.85: parts.append(("rx", rng.choice([RX(esc(s), Lit(s)) for s in ["-", ".", " ", "+", "=", "a"]] + [rx_seq(1, 1)])))
        parts.append(it)
    return parts


VNAMES = ["Alpha", "Beta", "Gamma", "DeltaOne", "EpsTwo", "FooBarBaz", "A", "B", "Xyz", "LongName", "Q", "Zeta", "EtaThetaIota", "Kappa2", "C", "Mu", "NuXi",
          "Omicron", "Pi", "SomeVeryLongVariantName", "TheQuickBrownFox2Jumps", "Under_Score", "_LeadingOne", "snake_like_name", "SCREAMING_NAME", "HTTPServer",
          "WithABCInside", "v", "X1", "Trailing_"]

FEATURES = ["plain", "fmt", "fmtesc", "opt", "optfmt", "optnest", "with", "withfmt", "join", "regex", "hole", "infer", "nest", "default", "deep",
            "deeptuple", "new", "regex_type", "default_self", "dfields", "raw", "infer_type", "litonly", "many"]


def add_type(t, depth):
    t.depth = depth
    if t.group is None: t.group = t.index = len(types)
    else: t.index = len(types)
    types.append(t)


def depth_of_ty(ty):
    k = ty.k
    if k == "T": return ty.ref.depth + 1
    if k in ("Opt", "Vec"): return depth_of_ty(ty.e)
    if k in ("Deep", "Pair"): return max(depth_of_ty(x) for x in ty.f)
    return 0


def finish(t):
    for v in t.vars:
        for f in v.fields:
            if f.opt: t.tags.add("opt")
            if f.fmt is not None: t.tags.add("fieldfmt")
            w = f.dwith or f.pwith
            if w: t.tags.add("join" if w.kind == "Join" else "with")
            if w and w.kind == "W" and w.w.struct != "Wn": t.tags.add("pattern")
            if f.infer or t.infer or v.infer:
                t.tags.add("infer")
                if f.ty.k in ("Num", "Word"): t.tags.add("pattern")
                if f.ty.k == "T":
                    t.tags |= {"inferT"} | (f.ty.ref.tags & {"pattern"})
            if f.deep: t.tags.add("deep")
            if f.rx or f.rx_hole: t.tags.add("regex")
            if f.dfl or v.dfields: t.tags.add("default")
            if f.ty.k == "T" or (f.ty.k in ("Opt", "Vec") and f.ty.e.k == "T"): t.tags.add("nest")
        if v.rx or t.rx: t.tags.add("regex")
        if v.new: t.tags.add("new")
        if v.ignore: t.tags.add("ignore")
        if v.dself: t.tags.add("default_self")
    t.tags.add("enum" if t.en else "struct")
    if t.style or any(v.style for v in t.vars): t.tags.add("style")
    add_type(t, max([depth_of_ty(f.ty) for v in t.vars for f in v.fields] + [0]))
    decls.append(t)


def has_rest(t):
    """every type must be able to parse something"""
    return True


def gen_struct(name, feats):
    t = Type(name, False)
    kind = rng.choice(["named", "named", "tuple", "tuple", "unit"] if "litonly" in feats else ["named", "named", "tuple"])
    n = 0 if kind == "unit" else rng.choice([5, 9, 11, 12, 13]) if "many" in feats else rng.choice([1, 1, 2, 2, 2, 3, 3, 4])
    v = gen_variant(name, kind, n, feats, True, t)
    t.vars = [v]
    if "infer_type" in feats:
        t.infer = True
        for f in v.fields:
            if f.pwith is None or f.ty.k in ("Fld", "Opt", "Vec", "Deep", "Pair"):
                if f.pwith is None:
                    f.ty = rng.choice([Ty("Num", id=new_id()), Ty("Word", id=new_id()), Ty("Std", t=rng.choice(STD))])
                    if f.dfl and not f.ty.can_default(): f.ty = Ty("Num", id=new_id())
                    f.opt = False
                    f.deep = []
                    f.in_fmt = not f.dfl or rng.random() < 0.5
    if "dfields" in feats and n > 1:
        f = rng.choice(v.fields)
        if not f.deep and f.ty.can_default():
            f.dfl = False
            v.dfields = [f.key()]
            f.in_fmt = rng.random() < 0.4 and showable(f)
            if f.fmt is None and not f.in_fmt: pass
    if v.new and rng.random() < 0.4:  # `default` next to `new` has no say
        t.has_default = True
        t.default_site = new_id()
        t.default_val = {"R": [some_val(f.ty) for f in v.fields]}
    if "default_self" in feats and kind != "unit" and not v.new:
        v.dself = True
        t.has_default = True
        t.default_site = new_id()
        vals = [some_val(f.ty) for f in v.fields]
        t.default_val = {"R": vals}
        v.base = [t.default_site, vals]
        for f in v.fields:
            if f.deep:
                f.dfl = False
            elif rng.random() < 0.4:
                f.in_fmt = False
                f.dfl = rng.random() < 0.2 and f.ty.can_default()
    if v.kind != "unit" and not any(f.in_fmt or f.deep for f in v.fields) and rng.random() < 0.7:
        f = v.fields[0]
        if f.ty.k not in ("Opt", "Vec", "Deep", "Pair"): f.in_fmt = True
    if "regex_type" in feats and n and rx_able(v):
        v.rx = arrange_rx(v, False)
        v.fmt = arrange(v, t)
    elif n == 1 and v.fields[0].in_fmt and rng.random() < 0.5: v.fmt = None
    else: v.fmt = arrange(v, t)
    fix_new(v)
    finish(t)


def fix_new(v):
    if v.new:
        for f in v.fields:
            pass
        form, site, picky = v.new
        v.new = (form, site, form != "plain" and v.fields[0].ty.k in ("Fld", "Word"))


def gen_enum(name, feats):
    t = Type(name, True)
    if rng.random() < 0.4: t.style = rng.choice(STYLES)
    nv = rng.randint(2, 5) if "many" not in feats else rng.choice([8, 12, 17])
    lits = set()
    efmt = None
    if rng.random() < 0.25: efmt = rng.choice([[("s", "<"), ("name",), ("s", ">")], [("name",)], [("name",), ("s", lit())], [("s", lit()), ("name",)]])
    t.fmt = efmt
    if "infer_type" in feats and rng.random() < 0.5: t.infer = True
    erx = "regex_type" in feats and rng.random() < 0.4
    one = erx and rng.random() < 0.5
    for vn in rng.sample(VNAMES, nv):
        kind = rng.choice(["unit", "unit", "tuple", "tuple", "named"])
        if erx: kind = "tuple" if one else "unit"
        n = 0 if kind == "unit" else 1 if erx else rng.choice([1, 1, 1, 2, 2, 3])
        v = gen_variant(vn, kind, n, [] if erx else [x for x in feats if x != "default_self"], True, t)
        if rng.random() < 0.15: v.style = rng.choice(STYLES)
        if t.infer or ("infer_type" in feats and rng.random() < 0.6):
            v.infer = not t.infer
            for f in v.fields:
                if f.pwith is None:
                    f.ty = rng.choice([Ty("Num", id=new_id()), Ty("Word", id=new_id()), Ty("Std", t=rng.choice(STD))])
                    if f.dfl and not f.ty.can_default(): f.ty = Ty("Num", id=new_id())
                    f.opt = False
                    f.deep = []
                    f.in_fmt = not f.dfl or rng.random() < 0.5
        if "dfields" in feats and n > 1 and rng.random() < 0.7:
            f = rng.choice(v.fields)
            if not f.deep and f.ty.can_default():
                f.dfl = False
                v.dfields = [f.key()]
                f.in_fmt = rng.random() < 0.4 and showable(f)
        if erx:
            v.fmt = None
        elif kind == "unit":
            if rng.random() < 0.5: v.fmt = rng.choice([[("s", lit())], [("name",)], [("s", "v:"), ("name",)], [("name",), ("s", lit())]])
            if rng.random() < 0.12:
                v.rx = [("rx", rx_seq()), ("name",)] if rng.random() < 0.5 else [("rx", rx_seq())]
        else:
            with_name = rng.random() < 0.35
            v.fmt = arrange(v, t, with_name)
            if "regex_type" in feats and rx_able(v) and rng.random() < 0.6: v.rx = arrange_rx(v)
        if rng.random() < 0.12: v.ignore = True
        fix_new(v)
        t.vars.append(v)
    if erx:
        a = rng.choice([RX("", Seq()), RX("<", Lit("<")), RX("[a-c]?", Rep(Cls("ac"), 0, 1)), RX("x*", Rep(Lit("x"), 0, None))])
        b = rng.choice([RX("=", Lit("=")), RX(" *", Rep(Lit(" "), 0, None)), RX("(?:-|:)", Alt(Lit("-"), Lit(":")))])
        t.rx = [("rx", a), ("name",), ("rx", b)] + ([("cap", 0, rx_simple_atomic())] if one else [])
        t.fmt = [("name",), ("s", "=")] + ([("f", 0)] if one else [])
    if all(v.ignore for v in t.vars): t.vars[0].ignore = False
    # the same literal twice would make one variant unreachable
    for v in t.vars:
        if v.ignore: continue
        m = t.model_var(v, {})
        if m["lit"] is not None:
            while m["lit"] in lits:
                v.fmt = [("s", m["lit"] + str(rng.randint(0, 99)))]
                m = t.model_var(v, {})
            lits.add(m["lit"])
    finish(t)


def gen_generic(name, patonly=False):
    """a generic declaration and its instantiations; with `patonly` their patterns differ, so that only
    the published pattern is theirs (a parser is shared by all instantiations of a declaration)"""
    en = rng.random() < 0.4
    two = rng.random() < 0.4
    params = ["T", "U"] if two else ["T"]
    infer = rng.random() < 0.3 or patonly
    wmode = not infer and rng.random() < 0.3
    t = Type(name, en)
    t.params = params
    def pfield(nm, p):
        f = Field(nm, Ty("Param", name=p))
        r = rng.random()
        if infer: f.infer = True
        elif wmode:
            f.dwith = f.pwith = With("W", w=new_w())
        elif r < 0.3: f.fmt = [("s", lit()), ("me",), ("s", lit())]
        elif r < 0.5:
            f.ty = Ty("Opt", e=Ty("Param", name=p)); f.opt = True
            if rng.random() < 0.5: f.fmt = [("s", lit()), ("me",)]
        elif r < 0.65: f.rx = rx_simple()
        return f
    if infer: t.fbound = ", ".join(f"{p} : parse_display::FromStrRegex" for p in params)
    if wmode: t.bound = ", ".join(f"{p} : WVal" for p in params)
    def fill(v):
        n = len(params)
        fs = []
        nms = field_names(n + 1, False) if v.kind == "named" else [str(i) for i in range(n + 1)]
        for i, p in enumerate(params): fs.append(pfield(nms[i], p))
        if rng.random() < 0.5 and not wmode: fs.append(gen_field(nms[n], ["fmt", "opt", "with"] if not infer else []))
        v.fields = fs
        v.fmt = arrange(v, t)
    if en:
        for vn in rng.sample(VNAMES, rng.randint(1, 3)):
            v = Variant(vn, rng.choice(["named", "tuple"])); fill(v); t.vars.append(v)
        u = Variant("UnitOne", "unit")
        t.vars.insert(rng.randrange(len(t.vars) + 1), u)
    else:
        v = Variant(name, rng.choice(["named", "tuple"])); fill(v); t.vars = [v]
    decls.append(t)
    gbase = len(types)
    # instantiations
    if patonly: pools = [[Ty("Std", t=x) for x in ["u8", "bool", "char", "i64", "f64"]] + [Ty("Word", id=new_id()), Ty("Num", id=new_id())]] * 2
    elif infer: pools = [[Ty("Std", t="u8"), Ty("Std", t="u32"), Ty("Num", id=new_id()), Ty("Std", t="u64")]] * 2
    elif wmode: pools = [[Ty("Fld", id=new_id()), Ty("Num", id=new_id()), Ty("Std", t="String"), Ty("Word", id=new_id())] for _ in range(2)]
    else: pools = [[Ty("Fld", id=new_id()), Ty("Num", id=new_id()), Ty("Std", t="u8"), Ty("Std", t="bool"), Ty("Std", t="i64"), Ty("Std", t="char"), Ty("Std", t="String")]
                   + [Ty("T", ref=x) for x in nested_candidates()[-3:]] for _ in range(2)]
    import copy
    seen = set()
    for _ in range(rng.randint(3, 4)):
        sub = {p: rng.choice(pools[i]) for i, p in enumerate(params)}
        nm = name + "<" + ", ".join(sub[p].rust() for p in params) + ">"
        if nm in seen: continue
        seen.add(nm)
        x = copy.copy(t)
        x.inst_name = nm
        x.sub = sub
        x.tags = {"generic", "enum" if en else "struct"} | ({"infer"} if infer else set()) | ({"with", "pattern"} if wmode else set())
        if patonly:
            x.tags.add("patonly")
            x.patonly = True
        x.group = gbase
        x.index = len(types)
        x.depth = 9
        types.append(x)


def gen_std(name, ts):
    """the patterns of standard types, inferred"""
    t = Type(name, False)
    v = Variant(name, rng.choice(["named", "tuple"]))
    ns = field_names(len(ts), False) if v.kind == "named" else [str(i) for i in range(len(ts))]
    v.fields = [Field(n, Ty("Std", t=x)) for n, x in zip(ns, ts)]
    t.infer = rng.random() < 0.6
    for f in v.fields: f.infer = not t.infer
    v.fmt = []
    order = list(range(len(ts)))
    rng.shuffle(order)
    sep = rng.choice(["|", ";", "=", "#", "/"])
    for k, i in enumerate(order): v.fmt += ([("s", sep)] if k else []) + [("f", i)]
    t.vars = [v]
    finish(t)
    t.tags |= {"infer", "std"}


def gen_punct(name, chars):
    """variants written as one character each, next to one with a field"""
    t = Type(name, True)
    for i, c in enumerate(chars):
        v = Variant("V%d" % i, "unit")
        v.fmt = [("s", c)]
        t.vars.append(v)
    v = Variant("Field", "tuple")
    v.fields = [Field("0", rng.choice([lambda: Ty("Num", id=new_id()), lambda: Ty("Word", id=new_id())])())]
    if rng.random() < 0.5: v.fields[0].infer = True
    v.fmt = [("s", rng.choice(chars)), ("f", 0), ("s", rng.choice(chars + [""]))]
    t.vars.insert(rng.randrange(len(t.vars) + 1), v)
    finish(t)


def gen_const(name):
    """a declaration with a constant parameter"""
    en = rng.random() < 0.4
    t = Type(name, en)
    t.cparams = ["N"]
    wmode = rng.random() < 0.4
    def fill(v):
        n = rng.choice([1, 2])
        nms = field_names(n, False) if v.kind == "named" else [str(i) for i in range(n)]
        f = Field(nms[0], Ty("CLeaf", name="N", leaf="Fld" if not wmode else "Num"))
        r = rng.random()
        if wmode:
            f.ty = Ty("Fld", id=new_id())
            f.dwith = f.pwith = With("WC", w="N")
        elif r < 0.3: f.fmt = [("s", lit()), ("me",), ("s", lit())]
        elif r < 0.5: f.ty = Ty("Opt", e=f.ty); f.opt = True
        v.fields = [f] + [gen_field(nms[1], ["fmt", "opt"]) for _ in nms[1:]]
        v.fmt = arrange(v, t)
    if en:
        for vn in rng.sample(VNAMES, rng.randint(1, 3)):
            v = Variant(vn, rng.choice(["named", "tuple"])); fill(v); t.vars.append(v)
        t.vars.insert(rng.randrange(len(t.vars) + 1), Variant("UnitOne", "unit"))
    else:
        v = Variant(name, rng.choice(["named", "tuple"])); fill(v); t.vars = [v]
    decls.append(t)
    gbase = len(types)
    import copy
    for _ in range(rng.randint(3, 4)):
        if wmode:
            pre, post = rng.choice([("", ""), ("<", ">"), ("#", ""), ("", ";"), ("é", "é")])
            n = WDef(pre, post, None, "Wn").id
        else: n = new_id()
        x = copy.copy(t)
        x.inst_name = f"{name}<{n}>"
        x.sub = {"N": n}
        x.tags = {"generic", "enum" if en else "struct"} | ({"with"} if wmode else set())
        x.group, x.index, x.depth = gbase, len(types), 9
        types.append(x)


def gen_empty(name):
    """patterns that match nothing but the empty text, spliced in and published"""
    e = Type(name + "a", False)
    e.vars = [Variant(name + "a", "unit")]
    e.vars[0].fmt = [("s", "")]
    finish(e)
    n = Type(name + "b", True)
    for i, x in enumerate(rng.sample(["", "a", "ab", "|", "-", "()"], 3) + [""]):
        if any(v.fmt[0][1] == x for v in n.vars): continue
        v = Variant("V%d" % i, "unit")
        v.fmt = [("s", x)]
        n.vars.append(v)
    finish(n)
    for k, ty in enumerate([lambda: Ty("T", ref=e), lambda: Ty("T", ref=n), lambda: Ty("Fld", id=new_id())]):
        t = Type(name + "cde"[k], False)
        v = Variant(t.decl_name if hasattr(t, "decl_name") else name, rng.choice(["named", "tuple"]))
        nms = field_names(2, False) if v.kind == "named" else ["0", "1"]
        v.fields = [Field(nms[0], ty()), Field(nms[1], rng.choice([lambda: Ty("Num", id=new_id()), lambda: Ty("Word", id=new_id()), lambda: Ty("Fld", id=new_id())])())]
        f = v.fields[0]
        if k == 2: f.dwith = f.pwith = With("W", w=WDef("", "", RX("", Seq()), "W"))
        else: f.infer = True
        if rng.random() < 0.3: f.fmt = [("s", "<"), ("me",), ("s", ">")]
        order = [0, 1]
        rng.shuffle(order)
        v.fmt = [("f", order[0]), ("s", rng.choice(["", "=", "-"])), ("f", order[1])]
        t.vars = [v]
        finish(t)
        t.tags |= {"infer"}


def gen_odd(name):
    """one type for every kind of unusual regex"""
    for k in list(range(ODD)) + [7]:
        t = Type(f"{name}_{k}" + ("n" if any(x.decl_name == f"{name}_{k}" for x in decls) else ""), False)
        v = Variant(t.decl_name, rng.choice(["named", "tuple"]))
        nms = field_names(2, False) if v.kind == "named" else ["0", "1"]
        rx = rx_odd(True, k)
        f = Field(nms[0], Ty("Fld", id=new_id()))
        g = Field(nms[1], rng.choice([Ty("Fld", id=new_id()), Ty("Num", id=new_id())]))
        if rng.random() < 0.75: f.dwith = f.pwith = With("W", w=WDef("", "", rx, "W"))
        else: f.rx = rx_odd(False, k)
        v.fields = [f, g]
        order = [0, 1]
        rng.shuffle(order)
        v.fmt = [("f", order[0]), ("s", rng.choice(["", "=", ";", " "] if k != 7 else ["", "=", "\n", "\n"])), ("f", order[1])]
        t.vars = [v]
        t.tags.add("odd")
        finish(t)


def gen_long(name):
    """a type with a long published pattern, inferred into others, and those again"""
    e = Type(name + "a", True)
    n = rng.choice([40, 120, 300])
    ws = ["%s%d" % (rng.choice(["item ", "entry-no-", "w", "très long "]), i) for i in range(n)]
    for i, w in enumerate(ws):
        v = Variant("V%d" % i, "unit")
        v.fmt = [("s", w)]
        e.vars.append(v)
    if rng.random() < 0.5:
        v = Variant("Num", "tuple")
        v.fields = [Field("0", Ty("Num", id=new_id()))]
        v.fields[0].infer = True
        v.fmt = [("f", 0)]
        e.vars.append(v)
    finish(e)
    inner = e
    for k in range(rng.choice([1, 2, 5])):
        t = Type(name + "bcdef"[k], rng.random() < 0.5)
        v = Variant("Held" if t.en else t.decl_name, "tuple")
        v.fields = [Field("0", Ty("T", ref=inner)), Field("1", rng.choice([lambda: Ty("Fld", id=new_id()), lambda: Ty("Num", id=new_id())])())]
        v.fields[0].infer = True
        v.fmt = [("f", 0), ("s", rng.choice(["", "=", " ", ";"])), ("f", 1)]
        if rng.random() < 0.5: v.fmt = [("f", 1), ("s", rng.choice(["", "=", " "])), ("f", 0)]
        t.vars = [v]
        finish(t)
        inner = t


def gen_twins(name):
    """the same declared format over custom formats and types with other patterns"""
    pre, post = rng.choice([("a", ""), ("", ";"), ("<", ">"), ("", "")])
    two = rng.random() < 0.5
    sep = rng.choice(["=", "-", " "])
    rxs = [RX("[0-9]+", Rep(Cls("09"), 1, None)), RX("[a-z]+", Rep(Cls("az"), 1, None)), RX("[A-Z]{1,3}", Rep(Cls("AZ"), 1, 3)), RX("x|[0-9]", Alt(Lit("x"), Cls("09"))), rx_seq(), rx_odd(True)]
    rng.shuffle(rxs)
    def fields(v, rx):
        v.fields = [Field("0" if v.kind == "tuple" else "x", Ty("Fld", id=new_id()))]
        if rx is not None: v.fields[0].dwith = v.fields[0].pwith = With("W", w=WDef("", "", rx, "W"))
        if two: v.fields.append(Field("1" if v.kind == "tuple" else "y", Ty("Fld", id=new_id())))
        v.fmt = [("s", pre), ("f", 0), ("s", sep if two else post)] + ([("f", 1), ("s", post)] if two else [])
    kind = rng.choice(["named", "tuple"])
    for k in range(4):
        t = Type(name + "abcd"[k], False)
        v = Variant(t.decl_name, kind)
        fields(v, rxs[k] if k < 3 else None)
        t.vars = [v]
        t.tags.add("same")
        finish(t)
    t = Type(name + "e", True)
    for k in range(rng.randint(2, 4)):
        v = Variant("V%d" % k, kind)
        fields(v, rxs[k])
        t.vars.append(v)
    t.tags.add("same")
    finish(t)


def gen_none(name):
    """enums of which no variant can be parsed, spliced into others"""
    e = Type(name + "a", True)
    for i in range(rng.randint(1, 3)):
        v = Variant("V%d" % i, "unit")
        v.fmt = [("s", rng.choice(["", "", "a", "none"]))] if rng.random() < 0.6 else None
        v.ignore = True
        e.vars.append(v)
    finish(e)
    t = Type(name + "b", True)
    v = Variant("Held", "tuple")
    v.fields = [Field("0", Ty("T", ref=e))]
    v.fields[0].infer = True
    o, c = rng.choice([("<", ">"), ("", ""), ("a", ""), ("", "-")])
    v.fmt = [("s", o), ("f", 0), ("s", c)]
    t.vars.append(v)
    v = Variant("Plain", "unit")
    v.fmt = [("s", rng.choice([o + c, "x"]))]
    t.vars.append(v)
    if rng.random() < 0.5:
        v = Variant("Rest", "tuple")
        v.fields = [Field("0", Ty("Num", id=new_id()))]
        v.fmt = [("f", 0)]
        t.vars.append(v)
    rng.shuffle(t.vars)
    finish(t)
    t = Type(name + "c", False)
    v = Variant(t.decl_name, "tuple")
    v.fields = [Field("0", Ty("T", ref=e)), Field("1", Ty("Num", id=new_id()))]
    v.fields[0].infer = rng.random() < 0.7
    v.fmt = [("f", 0), ("s", rng.choice(["", "="])), ("f", 1)]
    t.vars = [v]
    finish(t)


EXACT = ["a.b", "ab", "AB", "Ab", "aB", "a+b", "x*", "(y)", "[z]", "a|b", "^s", "e$", "q?", "\\d", "Hello", "hello", "HELLO", "K", "k", "\u212a", "ß", "a.b.c", "1.0", "é", "É", "a b", "a  b", "n/a",
         "N/A", "#1", "-", ".", "..", "a-b", "a_b", "(?i)k", "x{2}", "{}"]


def gen_exact(name):
    """literal texts that are easily taken for one another"""
    for k in range(4):
        t = Type(name + "abcd"[k], False)
        t.vars = [Variant(t.decl_name, "unit")]
        sp = list(".+*?()|[]{}^$\\#&-~/ ")
        x = rng.choice(EXACT)
        if k == 1: x = rng.choice(["1.0", "a.b", ".", "v1.2.3", "e.g."])
        if k == 2: x = "".join(rng.choice(["", "a", "b", "Z", "0"]) + c for c in rng.sample(sp, 5))
        if k == 3: x = rng.choice(["x", "ab", ""]) + rng.choice(sp[:14]) + rng.choice(["", "y"])
        t.vars[0].fmt = [("s", x)]
        t.tags.add("exact")
        finish(t)
    for k in range(2):
        t = Type(name + "ef"[k], True)
        xs = rng.sample(EXACT, rng.randint(2, 6))
        if rng.random() < 0.6: xs.insert(rng.randint(0, len(xs)), rng.choice(xs))
        for i, x in enumerate(xs):
            v = Variant("V%d" % i, "unit")
            v.fmt = [("s", x)]
            t.vars.append(v)
        if rng.random() < 0.5:
            v = Variant("Rest", "tuple")
            v.fields = [Field("0", rng.choice([lambda: Ty("Fld", id=new_id()), lambda: Ty("Num", id=new_id())])())]
            v.fmt = [("f", 0)]
            t.vars.insert(rng.randint(0, len(t.vars)), v)
        t.tags.add("exact")
        finish(t)


def gen_recursive(name):
    """a type whose conversion parses the type itself"""
    t = Type(name, True)
    t.index, t.depth = len(types), 8
    me = Ty("T", ref=t)
    a = Variant("Leaf", "tuple")
    a.fields = [Field("0", rng.choice([lambda: Ty("Num", id=new_id()), lambda: Ty("Std", t="u16")])())]
    if rng.random() < 0.5: a.fields[0].infer = True
    a.fmt = [("f", 0)]
    b = Variant("Node", "named")
    f = Field("kids", Ty("Vec", e=me))
    j = With("Join", item=With("Fmt"), delim=rng.choice([",", ";", " "]))
    j.short = rng.random() < 0.5
    f.dwith = f.pwith = j
    o, c = rng.choice([("[", "]"), ("(", ")"), ("<", ">"), ("{", "}")])
    b.fields = [f]
    b.fmt = [("s", o), ("f", 0), ("s", c)]
    v = [a, b]
    if rng.random() < 0.6:
        u = Variant("Nil", "unit")
        u.fmt = [("s", rng.choice(["nil", "~", "0"]))]
        v.insert(rng.randrange(1, 3), u)
    if rng.random() < 0.6:
        w = Variant("Pre", "named")
        f1 = Field("k", Ty("Fld", id=new_id()))
        f2 = Field("v", Ty("Vec", e=me))
        j2 = With("Join", item=With("Fmt"), delim="+")
        j2.short = True
        f2.dwith = f2.pwith = j2
        w.fields = [f1, f2]
        w.fmt = [("f", 0), ("s", rng.choice(["=", "->", ":"])), ("f", 1)]
        v.append(w)
    t.vars = v
    t.depth = 8
    t.tags |= {"enum", "recursive", "join", "nest"}
    t.group = t.index
    types.append(t)
    decls.append(t)


# custom formats the direct list tests use
WDef("<", ">", RX("<[a-z]*>", Seq(Lit("<"), Rep(Cls("az"), 0, None), Lit(">"))), "W")
# forced coverage of every feature, then random mixes
k = 0
for rep in range(3):
    for feat in FEATURES:
        if k >= count: break
        (gen_struct if (k + rep) % 2 == 0 or feat == "default_self" else gen_enum)(f"T{k}", [feat])
        k += 1
while k < count:
    feats = rng.sample(FEATURES, rng.randint(2, 5))
    rng.choice([gen_struct, gen_enum])(f"T{k}", feats)
    k += 1
for g in range(max(6, count // 8)):
    gen_generic(f"G{g}")
for g in range(max(3, count // 30)):
    gen_const(f"C{g}")
for g in range(max(3, count // 30)):
    gen_recursive(f"R{g}")
for g in range(2):
    gen_empty(f"E{g}")
    gen_exact(f"L{g}")
    gen_none(f"N{g}")
    gen_long(f"H{g}")
    gen_twins(f"Y{g}")
    gen_odd(f"O{g}")
for g in range(4):
    gen_generic(f"P{g}", True)
odd = [chr(c) for c in range(0x20, 0x7f) if not chr(c).isalnum()] + ["\t", "\n", "\r", "\0", "é", "日"]
rng.shuffle(odd)
for g in range(0, len(odd), 10):
    gen_punct(f"K{g // 10}", odd[g:g + 10])
every = sorted(set(STD) - {"String"})
rng.shuffle(every)
for g in range(0, len(every), 2):
    gen_std(f"Q{g}", every[g:g + 2] + (["String"] if g % 6 == 0 else []))

# ---- types that are only shown: format specifications ------------------------------
# The expected text is put together with the standard formatting macros, one field at a time.
crng = random.Random(seed * 104729 + 5)
NSPEC = 36
INT_SPECS = [">5", "<6", "^7", "05", "+", "#x", "#b", "o", "X", "#010x", "*^9", "?", "+08", "#06X", "x", "b", "#o", "3", "é>6", "e", "02x?", "#?"]
STR_SPECS = [">4", ".2", "*<6", "?", ">7.3", "^5", ".0", "#", "-^8", "12", "#?"]
FLT_SPECS = [".1", "8.3", "e", "+", ">9", "010.2", "?", "E", ".0", "+.2e"]
CHR_SPECS = [">4", "?", "^5", "#", "<3"]
SPEC_LITS = ["", "", "-", "=", "; ", "{", "}", "{}", "[", "日本", "%", "\n", "\\", "\"", "0", " "]


class Shown:
    """a value: its type, its code, and the code of its text for a given specification"""
    def __init__(self, ty, val, specs, show=None, attr="", ref=None):
        self.ty, self.val, self.specs, self.attr = ty, val, specs, attr
        self.show = show or (lambda sp, v: "format!(%s, %s)" % (rs("{:" + sp + "}") if sp else '"{}"', v))


def gen_shown(k):
    c = crng.choice
    def ints(t, vs): return lambda: Shown(t, "%s as %s" % (c(vs), t), INT_SPECS)
    simple = [
        ints("i32", ["7", "-12345", "i32::MIN", "0", "255"]), ints("u8", ["0", "9", "255"]), ints("u64", ["u64::MAX", "1", "4096"]),
        ints("i8", ["-1", "i8::MIN", "100"]),
        lambda: Shown("f64", c(["1.5", "1e10", "-0.0625", "0.0", "f64::INFINITY", "123456.789"]), FLT_SPECS),
        lambda: Shown("&'static str", rs(c(["", "abc", "é日本x", "a{b}", "two words", "\\q"])), STR_SPECS),
        lambda: Shown("String", rs(c(["own", "", "ééé"])) + ".to_string()", STR_SPECS),
        lambda: Shown("char", c(["'a'", "'日'", "'{'"]), CHR_SPECS), lambda: Shown("bool", c(["true", "false"]), CHR_SPECS),
    ]
    def plain(): return c(simple)()
    if k == "plain": return plain()
    if k == "fld":  # a field of the application's, which writes its text piece by piece
        t = crng.choice(["a", "text", "", "longer text of a field"])
        i = spec_id()
        return Shown("Fld<%d>" % i, "Fld(%s.into())" % rs(t), ["", "", ">9", "#", "03", ".0", ".2", "+", "1"], lambda sp, v: rs(t) + ".to_string()")
    if k == "opt":
        x = plain()
        v = "Some(%s)" % x.val if crng.random() < 0.6 else "None"
        if crng.random() < 0.5:
            return Shown("Option<%s>" % x.ty, v, [], lambda sp, v: "match %s { Some(v) => format!(\"{}\", v), None::<%s> => String::new() }" % (v, x.ty), "opt")
        a, b, sp = c(SPEC_LITS), c(SPEC_LITS), c([""] + x.specs)
        return Shown("Option<%s>" % x.ty, v, [],
                     lambda _, v: "match %s { Some(v) => [%s.to_string(), %s, %s.to_string()].concat(), None::<%s> => String::new() }"
                     % (v, rs(a), x.show(sp, "v"), rs(b), x.ty), rs(fmt_esc(a) + "{%s}" % (":" + sp if sp else "") + fmt_esc(b)) + ", opt")
    if k == "list":
        x = plain()
        d = c([",", "", ", ", "\n", "{}"])
        n = c([0, 1, 2, 3, 5])
        x.ty, vals = x.ty, [x.val] * n
        t, v = c([("Vec<%s>" % x.ty, "vec![%s]"), ("[%s; %d]" % (x.ty, n), "[%s]"), ("VecDeque<%s>" % x.ty, "VecDeque::from([%s])"), ("Box<[%s]>" % x.ty, "Box::new([%s])")])
        if t.startswith("Box") : t, v = "Vec<%s>" % x.ty, "vec![%s]"
        return Shown(t, v % ", ".join(vals), [">20", "#", "05", ".1", ".0", ".2", "+", "1", "*^30.2", "", ""],
                     lambda sp, v: "(%s).iter().map(|x: &%s| format!(\"{}\", x)).collect::<Vec<_>>().join(%s)" % (v, x.ty, rs(d)),
                     "with = " + c(["delimiter(%s)", "join(fmt(), %s)"]) % rs(d))
    if k == "custom":  # a function that honours what it is asked for
        x = plain()
        while x.ty.startswith("&") or x.ty == "String": x = plain()
        return Shown(x.ty, x.val, [s for s in x.specs if s[-1] not in "xXobeE?"] + ["", ""], None, "with = fmt_display(shown::<%s>)" % x.ty)
    if k == "fmt":  # a format given at the field: its own specification counts
        x = plain()
        a, b, sp = c(SPEC_LITS), c(SPEC_LITS), c([""] + x.specs)
        return Shown(x.ty, x.val, [],
                     lambda _, v: "[%s.to_string(), %s, %s.to_string()].concat()" % (rs(a), x.show(sp, v), rs(b)), rs(fmt_esc(a) + "{%s}" % (":" + sp if sp else "") + fmt_esc(b)))
    if k == "tuple":  # reached through a path
        x, y = plain(), plain()
        s = Shown("(%s, %s)" % (x.ty, y.ty), "(%s, %s)" % (x.val, y.val), [])
        s.inner = [("0", x), ("1", y)]
        return s


SPEC_ID = [92000]
def spec_id():
    SPEC_ID[0] += 1
    return SPEC_ID[0]


class SpecType:
    def __init__(self, name, forced=None):
        self.decl_name = name
        c = crng.choice
        self.en = crng.random() < 0.5 and not forced
        self.style = c([None, "snake_case", "UPPERCASE", "Title case", "kebab-case"]) if self.en else None
        self.vars = []
        for i in range(crng.randint(2, 4) if self.en else 1):
            named = crng.random() < 0.5
            n = crng.randint(0 if self.en else 1, 5)
            fs = [gen_shown(c(["plain", "plain", "plain", "fld", "opt", "list", "custom", "fmt", "tuple"])) for _ in range(n)]
            if forced:
                n, fs = len(forced), [gen_shown(k) for k, _ in forced]
                for f, (_, sp) in zip(fs, forced): f.specs = [sp]
            names = field_names_c(n) if named else [str(j) for j in range(n)]
            vname = c(["Alpha", "BetaGamma", "Delta2", "Xy", "LongerNameOfOne"]) + ["A", "Be", "C3", "Dd"][i]
            fmt, exp = "", []
            parts = [(nm, f) for nm, f in zip(names, fs)]
            parts += [crng.choice(parts) for _ in range(crng.randint(0, 2))] if parts else []
            crng.shuffle(parts)
            if self.en and (not parts or crng.random() < 0.4): parts.insert(crng.randrange(len(parts) + 1), ("", None))
            for nm, f in parts:
                l = c(SPEC_LITS)
                fmt += fmt_esc(l)
                exp.append(rs(l) + ".to_string()")
                if f is None:
                    sp = c(["", "", ">12", "*^20", ".3"])
                    fmt += "{%s}" % (":" + sp if sp else "")
                    exp.append("format!(%s, %s)" % (rs("{:" + sp + "}"), rs(style_apply(self.style, vname))))
                    continue
                while hasattr(f, "inner"):
                    j, f2 = c(f.inner)
                    nm, f = nm + "." + j, f2
                sp = c(f.specs) if f.specs and (forced or crng.random() < 0.7) else ""
                fmt += "{%s%s}" % (nm, ":" + sp if sp else "")
                exp.append(f.show(sp, "(%s)" % f.val))
            l = c(SPEC_LITS)
            fmt += fmt_esc(l)
            exp.append(rs(l) + ".to_string()")
            self.vars.append((vname, named, names, fs, fmt, "[%s].concat()" % ", ".join(exp)))

    def fields(self, named, names, fs):
        at = lambda f: "#[display(%s)] " % f.attr if f.attr else ""
        if named: return "{ %s }" % ", ".join("%s%s: %s" % (at(f), n, f.ty) for n, f in zip(names, fs))
        return "(%s)" % ", ".join(at(f) + f.ty for f in fs) if fs else ""

    def value(self, named, names, fs):
        if named: return "{ %s }" % ", ".join("%s: %s" % (n, f.val) for n, f in zip(names, fs))
        return "(%s)" % ", ".join(f.val for f in fs) if fs else ""

    def decl(self):
        if not self.en:
            v, named, names, fs, fmt, _ = self.vars[0]
            return "#[derive(Display)]\n#[display(%s)]\nstruct %s%s%s" % (rs(fmt), self.decl_name, self.fields(named, names, fs), "" if named else ";")
        st = "#[display(style = %s)]\n" % rs(self.style) if self.style else ""
        vs = "".join("    #[display(%s)]\n    %s%s,\n" % (rs(fmt), v, self.fields(named, names, fs)) for v, named, names, fs, fmt, _ in self.vars)
        return "#[derive(Display)]\n%senum %s {\n%s}" % (st, self.decl_name, vs)

    def cases(self):
        for v, named, names, fs, fmt, exp in self.vars:
            path = self.decl_name + ("::" + v if self.en else "")
            yield "    r.push(case(%s, %s%s, %s));" % (rs(path + " " + fmt), path, self.value(named, names, fs), exp)


def field_names_c(n): return crng.sample(["a", "b", "width", "value_1", "f", "x", "name", "_tail", "self_"], n)


spec_types = [SpecType(f"S{i}") for i in range(NSPEC)]
# every kind of custom format with everything it can be asked for
pairs = [(k, sp) for k in ["fld", "list", "custom"] for sp in [">20", "#", "05", ".1", ".0", ".2", "+", "1", "*^30.2"]]
crng.shuffle(pairs)
spec_types += [SpecType(f"SF{i}", pairs[i:i + 4]) for i in range(0, len(pairs), 4)]

# ---- output ---------------------------------------------------------------------
out = ["// generated by gen.py seed=%d count=%d" % (seed, count)]
# declarations to leave out, with everything that mentions them
decls += spec_types
texts = {t.decl_name: t.decl() for t in decls}
more = True
while more:
    more = False
    for t in decls:
        if t.decl_name not in drop and any(re.search(r"\b%s\b" % d, texts[t.decl_name]) for d in drop):
            drop.add(t.decl_name)
            more = True
gone = lambda t: any(re.search(r"\b%s\b" % d, t.inst_name) for d in drop)
# Some are called the same: in modules of their own, or in blocks of one function (where even `type_name` agrees).
prng = random.Random(seed * 31 + 7)
place, local = {}, []
for t in decls:
    if not isinstance(t, Type): continue
    r = prng.random()
    alone = not t.params and not t.cparams and not any(u is not t and re.search(r"\b%s\b" % t.decl_name, texts[u.decl_name]) for u in decls) and sum(bool(re.search(r"\b%s\b" % t.decl_name, x.inst_name)) for x in types) == 1
    if r < 0.12: place[t.decl_name] = "mod"
    elif r < 0.3 and alone: place[t.decl_name] = "local"
for t in types:
    if t.decl_name in place: t.tags.add("same")
def renamed(n): return re.sub(r"\b%s\b" % n, "Same", texts[n])
for t in decls:
    n = t.decl_name
    if n in drop: continue
    if place.get(n) == "local":
        local.append(n)
        continue
    out.append("// @" + n)
    if place.get(n) == "mod": out.append("pub mod m_%s { use super::*;\n%s\n}\npub use m_%s::Same as %s;" % (n, renamed(n), n, n))
    else: out.append(texts[n])
out.append("const fn locals() -> [TypeOps; %d] {\n[" % len(local))
for n in local:
    out.append("// @" + n)
    out.append("{\n%s\nTypeOps { name: %s, mk: mk_disp::<Same>, parse: Some(parse_any::<Same>), pattern: Some(pattern_any::<Same>) } }," % (renamed(n), rs(n)))
out.append("]\n}")
out.append("pub static GEN: &[TypeOps] = &[")
for t in types:
    if t.decl_name in local: out.append(f"    locals()[{local.index(t.decl_name)}],")
    elif gone(t): out.append(f"    TypeOps {{ name: {rs(t.inst_name)}, mk: mk_none, parse: None, pattern: None }},")
    else: out.append(f"    TypeOps {{ name: {rs(t.inst_name)}, mk: mk_disp::<{t.inst_name}>, parse: Some(parse_any::<{t.inst_name}>), pattern: Some(pattern_any::<{t.inst_name}>) }},")
out.append("];")
out.append("pub static WTAB: &[WSpec] = &[")
for w in WS:
    pat = "None" if w.rx is None or w.struct == "Wn" else f"Some({rs(w.rx.text)})"
    out.append(f"    WSpec {{ pre: {rs(w.pre)}, post: {rs(w.post)}, pat: {pat} }},")
out.append("];")
out.append("fn gen_cases(r: &mut Vec<Case>) {")
out += [l for t in spec_types if t.decl_name not in drop for l in t.cases()]
out.append("}")
model = {"seed": seed, "types": [dict(t.model(), **({"disp": False, "from": False, "dropped": True} if gone(t) else {})) for t in types],
         "ws": [{"id": w.id, "pat": w.rx.node if w.rx is not None and w.struct != "Wn" else None} for w in WS]}


def put(path, s):
    try:
        with open(path) as f:
            if f.read() == s: return
    except OSError: pass
    with open(path, "w") as f: f.write(s)


put(outdir + "/src/gen.rs", "\n".join(out) + "\n")
put(outdir + "/model.json", json.dumps(model, ensure_ascii=False))
put(outdir + "/decls.json", json.dumps([texts[t.decl_name] for t in decls], ensure_ascii=False))
