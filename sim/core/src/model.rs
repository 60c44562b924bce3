//! Executable reference model of derived types.
//!
//! Everything here follows the documentation of the attributes, evaluated over the abstract
//! description the zoo generator wrote; nothing is taken from the code under test.
use crate::leaf::*;
use crate::rt::Rng;
use serde::Deserialize;
use std::collections::BTreeSet;

#[derive(Clone, Debug, Deserialize)]
#[serde(tag = "k")]
pub enum Node {
    /// literal text
    Lit { s: String },
    /// shortest text, newlines included
    Any,
    /// character class
    Cls { r: Vec<(char, char)>, #[serde(default)] neg: bool },
    Seq { n: Vec<Node> },
    Alt { n: Vec<Node> },
    Rep { min: usize, max: Option<usize>, greedy: bool, n: Box<Node> },
    Cap { i: usize, n: Box<Node> },
    /// a position: start or end of the text, of a line
    Look { at: String },
}
impl Node {
    /// roughly the number of states a matcher needs
    pub fn size(&self) -> usize {
        let n = match self {
            Node::Lit { s } => s.chars().count(),
            Node::Seq { n } | Node::Alt { n } => 1 + n.iter().map(Node::size).sum::<usize>(),
            Node::Rep { min, max, n, .. } => 1 + n.size().saturating_mul(max.unwrap_or(min + 1)),
            Node::Cap { n, .. } => 1 + n.size(),
            _ => 1,
        };
        n.min(1_000_000)
    }
}
#[derive(Clone, Debug, Deserialize)]
#[serde(tag = "k")]
pub enum Ty {
    Fld { id: u32 },
    Num { id: u32 },
    Word { id: u32 },
    Std { t: String },
    T { i: usize },
    Opt { e: Box<Ty> },
    Vec { e: Box<Ty> },
    Deep { f: Vec<Ty> },
    /// formats only through a custom format or nested access
    Pair { f: Vec<Ty> },
}
#[derive(Clone, Debug, Deserialize)]
#[serde(tag = "k")]
pub enum With {
    W { id: u32, pre: String, post: String },
    /// fmt(): the type's own conversions
    Fmt,
    Infer,
    Join { item: Box<With>, delim: String },
}
#[derive(Clone, Debug, Deserialize)]
#[serde(tag = "k")]
pub enum Fp {
    S { s: String },
    Me,
    Sub { p: Vec<usize> },
}
#[derive(Clone, Debug, Deserialize)]
#[serde(tag = "k")]
pub enum Dp {
    S { s: String },
    F { f: usize, opt: bool, fmt: Option<Vec<Fp>>, with: Option<With> },
    D { f: usize, p: Vec<usize> },
}
#[derive(Clone, Debug, Deserialize)]
#[serde(tag = "k")]
pub enum Src {
    Cap { i: usize, opt: bool, with: Option<With> },
    Def,
    Base,
}
#[derive(Clone, Debug, Deserialize)]
pub struct DeepSet {
    pub f: usize,
    pub p: Vec<usize>,
    pub i: usize,
}
#[derive(Clone, Debug, Deserialize)]
pub struct Var {
    pub name: String,
    pub fields: Vec<Ty>,
    pub disp: Vec<Dp>,
    /// the whole format is one literal
    pub lit: Option<String>,
    pub pat: Option<Node>,
    pub src: Vec<Src>,
    #[serde(default)]
    pub deep: Vec<DeepSet>,
    /// constructor site; refusal predicate "value text contains '!'" on field 0 if `picky`
    pub new: Option<u32>,
    #[serde(default)]
    pub picky: bool,
    #[serde(default)]
    pub ignore: bool,
    /// `default` on the type: the value fields start from, and its callback site
    pub base: Option<(u32, Vec<V>)>,
}
#[derive(Clone, Debug, Deserialize)]
pub struct Type {
    pub name: String,
    /// instantiations of one generic declaration share this
    pub group: usize,
    pub en: bool,
    pub disp: bool,
    pub from: bool,
    pub vars: Vec<Var>,
    /// value of Default::default(), if implemented, and its site
    pub default: Option<(u32, V)>,
    pub tags: Vec<String>,
    /// only its published pattern is used
    #[serde(default)]
    pub patonly: bool,
}
#[derive(Clone, Debug, Deserialize)]
pub struct WInfo {
    pub id: u32,
    pub pat: Option<Node>,
}
#[derive(Clone, Debug, Deserialize)]
pub struct Model {
    pub seed: u64,
    pub types: Vec<Type>,
    pub ws: Vec<WInfo>,
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Out {
    Ok(V),
    Err,
    Panic,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Stop {
    Err,
    Panic(u8, u32),
}

// ---- matcher ----------------------------------------------------------------
pub struct Matcher<'s> {
    s: &'s str,
    caps: Vec<Option<(usize, usize)>>,
    fuel: usize,
}
type K<'k> = &'k mut dyn FnMut(&mut Matcher, usize) -> bool;
impl<'s> Matcher<'s> {
    fn go(&mut self, n: &Node, p: usize, k: K) -> bool {
        if self.fuel == 0 {
            return false;
        }
        self.fuel -= 1;
        match n {
            Node::Lit { s } => self.s[p..].starts_with(s.as_str()) && k(self, p + s.len()),
            Node::Any => {
                let mut q = p;
                loop {
                    if k(self, q) {
                        return true;
                    }
                    match self.s[q..].chars().next() {
                        Some(c) => q += c.len_utf8(),
                        None => return false,
                    }
                }
            }
            Node::Cls { r, neg } => match self.s[p..].chars().next() {
                Some(c) => {
                    let m = r.iter().any(|x| x.0 <= c && c <= x.1);
                    m != *neg && k(self, p + c.len_utf8())
                }
                None => false,
            },
            Node::Look { at } => {
                let b = self.s.as_bytes();
                let here = match at.as_str() {
                    "start" => p == 0,
                    "end" => p == b.len(),
                    "line" => p == 0 || b[p - 1] == b'\n',
                    _ => p == b.len() || b[p] == b'\n',
                };
                here && k(self, p)
            }
            Node::Seq { n } => self.seq(n, p, k),
            Node::Alt { n } => n.iter().any(|x| self.go(x, p, k)),
            Node::Rep { min, max, greedy, n } => self.rep(n, *min, *max, *greedy, 0, p, k),
            Node::Cap { i, n } => {
                let i = *i;
                let old = self.caps[i];
                if self.go(n, p, &mut |m, q| {
                    let o = m.caps[i];
                    m.caps[i] = Some((p, q));
                    if k(m, q) {
                        return true;
                    }
                    m.caps[i] = o;
                    false
                }) {
                    return true;
                }
                self.caps[i] = old;
                false
            }
        }
    }
    fn seq(&mut self, n: &[Node], p: usize, k: K) -> bool {
        match n.split_first() {
            None => k(self, p),
            Some((a, rest)) => self.go(a, p, &mut |m, q| m.seq(rest, q, k)),
        }
    }
    #[allow(clippy::too_many_arguments)]
    fn rep(&mut self, n: &Node, min: usize, max: Option<usize>, greedy: bool, c: usize, p: usize, k: K) -> bool {
        if self.fuel == 0 {
            return false;
        }
        let may_stop = c >= min;
        let may_go = max.is_none_or(|m| c < m);
        if let (Node::Cls { r, neg }, 0) = (n, c) {
            // one character each: no need to go deeper for every one
            let hit = |c: char| r.iter().any(|x| x.0 <= c && c <= x.1) != *neg;
            let mut ends = vec![p];
            for ch in self.s[p..].chars().take(max.unwrap_or(usize::MAX)).take_while(|c| hit(*c)) {
                ends.push(ends[ends.len() - 1] + ch.len_utf8());
            }
            if ends.len() <= min {
                return false;
            }
            let ends = &ends[min..];
            let mut try_ = |m: &mut Self, q: usize| {
                m.fuel = m.fuel.saturating_sub(1);
                m.fuel > 0 && k(m, q)
            };
            return match greedy {
                true => ends.iter().rev().any(|q| try_(self, *q)),
                false => ends.iter().any(|q| try_(self, *q)),
            };
        }
        if !greedy && may_stop && k(self, p) {
            return true;
        }
        if may_go && self.go(n, p, &mut |m, q| {
            if q == p && c >= min {
                return false; // no progress
            }
            m.rep(n, min, max, greedy, c + 1, q, k)
        }) {
            return true;
        }
        greedy && may_stop && k(self, p)
    }
}
pub type Caps = Vec<Option<(usize, usize)>>;
pub enum Match {
    No,
    Yes(Caps),
    /// the matcher gave up
    Unknown,
}
const FUEL: usize = 300_000;
pub fn match_full(n: &Node, s: &str) -> Match {
    let mut m = Matcher { s, caps: vec![None; 64], fuel: FUEL };
    let len = s.len();
    if m.go(n, 0, &mut |_, q| q == len) {
        Match::Yes(m.caps)
    } else if m.fuel == 0 {
        Match::Unknown
    } else {
        Match::No
    }
}
/// All distinct ways to match (up to `cap`); None if there are more or the search gave up.
pub fn match_all(n: &Node, s: &str, cap: usize) -> Option<Vec<Caps>> {
    let mut m = Matcher { s, caps: vec![None; 64], fuel: FUEL };
    let len = s.len();
    let mut all: Vec<Caps> = Vec::new();
    m.go(n, 0, &mut |m, q| {
        if q == len && !all.contains(&m.caps) {
            all.push(m.caps.clone());
        }
        all.len() > cap
    });
    if m.fuel == 0 || all.len() > cap {
        None
    } else {
        Some(all)
    }
}

// ---- evaluation -----------------------------------------------------------------
/// The faults of one operation, as the model sees them.
pub struct Env<'a> {
    pub plan: &'a [Fault],
    /// what the callbacks of this operation actually did
    pub log: &'a [LogE],
    /// consult the log for faults that hit only one occurrence
    pub unknown: std::cell::Cell<bool>,
}
impl<'a> Env<'a> {
    pub fn new(plan: &'a [Fault], log: &'a [LogE]) -> Self {
        Env { plan, log, unknown: std::cell::Cell::new(false) }
    }
    /// possible behaviours of a conversion-like callback: (may pass, may fail, may panic)
    fn gate(&self, kind: u8, id: u32, text: &str) -> (bool, bool, bool) {
        let mut r = (false, false, false);
        let mut nth = false;
        for f in self.plan.iter().filter(|f| f.kind == kind && f.id == id && f.act.terminal()) {
            if f.nth == 0 {
                match f.act {
                    Act::Panic(_) => return (false, false, true),
                    _ => return (false, kind != SITE_DEF, kind == SITE_DEF),
                }
            }
            nth = true;
        }
        if !nth {
            return (true, false, false);
        }
        for e in self.log.iter().filter(|e| e.kind == kind && e.id == id && e.text == text) {
            match e.act {
                None => r.0 = true,
                Some(Act::Panic(_)) => r.2 = true,
                Some(_) if kind == SITE_DEF => r.2 = true,
                Some(_) => r.1 = true,
            }
        }
        if r == (false, false, false) {
            // never called (or not with this text): only possible if the op ended earlier
            r.0 = true;
            r.1 = true;
        }
        r
    }
}
fn push(v: &mut Vec<Out>, o: Out) {
    if !v.contains(&o) {
        v.push(o)
    }
}
fn std_ok(t: &str, s: &str) -> Option<String> {
    macro_rules! p {
        ($t:ty) => {
            s.parse::<$t>().ok().map(|x| x.to_string())
        };
    }
    match t {
        "String" => Some(s.to_string()),
        "u8" => p!(u8),
        "u16" => p!(u16),
        "u32" => p!(u32),
        "u64" => p!(u64),
        "u128" => p!(u128),
        "usize" => p!(usize),
        "i16" => p!(i16),
        "i128" => p!(i128),
        "isize" => p!(isize),
        "f32" => p!(f32),
        "f64" => p!(f64),
        "core::num::NonZero<u8>" => p!(core::num::NonZero<u8>),
        "core::num::NonZero<i32>" => p!(core::num::NonZero<i32>),
        "i8" => p!(i8),
        "i32" => p!(i32),
        "i64" => p!(i64),
        "bool" => p!(bool),
        "char" => p!(char),
        _ => panic!("std type {t}"),
    }
}
const CAP: usize = 64;

impl Model {
    pub fn load(s: &str) -> Model {
        serde_json::from_str(s).expect("zoo model")
    }
    // ---- parsing --------------------------------------------------------------
    fn gate_then(&self, env: &Env, kind: u8, id: u32, text: &str, ok: Option<V>) -> Vec<Out> {
        let (pass, fail, pan) = env.gate(kind, id, text);
        let mut v = Vec::new();
        if pass {
            push(&mut v, ok.map_or(Out::Err, Out::Ok));
        }
        if fail {
            push(&mut v, Out::Err);
        }
        if pan {
            push(&mut v, Out::Panic);
        }
        v
    }
    /// `text.parse::<ty>()`
    pub fn conv(&self, ty: &Ty, text: &str, env: &Env) -> Vec<Out> {
        match ty {
            Ty::Fld { id } | Ty::Word { id } => self.gate_then(env, SITE_CONV, *id, text, Some(V::l(text))),
            Ty::Num { id } => self.gate_then(env, SITE_CONV, *id, text, num_ok(text).then(|| V::l(text))),
            Ty::Std { t } => vec![std_ok(t, text).map_or(Out::Err, |x| Out::Ok(V::L(x)))],
            Ty::T { i } => self.parse(*i, text, env),
            _ => panic!("no FromStr for {ty:?}"),
        }
    }
    fn conv_with(&self, ty: &Ty, with: &Option<With>, text: &str, env: &Env) -> Vec<Out> {
        match with {
            None | Some(With::Fmt) | Some(With::Infer) => self.conv(ty, text, env),
            Some(With::W { id, pre, post }) => {
                let inner = text.strip_prefix(pre.as_str()).and_then(|s| s.strip_suffix(post.as_str()));
                let ok = inner.and_then(|x| match ty {
                    Ty::Num { .. } => num_ok(x).then(|| V::l(x)),
                    _ => Some(V::l(x)),
                });
                self.gate_then(env, SITE_CONV, *id, text, ok)
            }
            Some(With::Join { item, delim }) => {
                let Ty::Vec { e } = ty else { panic!("join on non-list") };
                // in order, stopping at the first piece that does not convert
                let item = Some((**item).clone());
                let mut done: Vec<Out> = Vec::new();
                let mut part: Vec<Vec<V>> = vec![vec![]];
                for piece in text.split(delim.as_str()) {
                    let outs = self.conv_with(e, &item, piece, env);
                    if let ([p], [Out::Ok(v)]) = (&mut part[..], &outs[..]) {
                        p.push(v.clone());
                        continue;
                    }
                    let mut next = Vec::new();
                    for o in outs {
                        match o {
                            Out::Ok(v) => {
                                for p in &part {
                                    let mut p = p.clone();
                                    p.push(v.clone());
                                    if next.len() < CAP {
                                        next.push(p);
                                    }
                                }
                            }
                            o => push(&mut done, o),
                        }
                    }
                    part = next;
                    if part.is_empty() {
                        break;
                    }
                }
                for p in part {
                    push(&mut done, Out::Ok(V::Q(p)));
                }
                done
            }
        }
    }
    fn default_of(&self, ty: &Ty, env: &Env) -> Vec<Out> {
        match ty {
            Ty::Fld { id } => self.gate_then(env, SITE_DEF, *id, "", Some(V::l("dfl"))),
            Ty::Num { id } => self.gate_then(env, SITE_DEF, *id, "", Some(V::l("0"))),
            Ty::Word { id } => self.gate_then(env, SITE_DEF, *id, "", Some(V::l("dw"))),
            Ty::Std { t } => vec![Out::Ok(V::l(match t.as_str() {
                "String" => "",
                "bool" => "false",
                "char" => "\0",
                _ => "0",
            }))],
            Ty::Opt { .. } => vec![Out::Ok(V::N)],
            Ty::Vec { .. } => vec![Out::Ok(V::Q(vec![]))],
            Ty::Deep { f } | Ty::Pair { f } => {
                let parts: Vec<Vec<Out>> = f.iter().map(|t| self.default_of(t, env)).collect();
                product(&parts).into_iter().map(|r| r.map_or_else(|o| o, |v| Out::Ok(V::R(v)))).collect()
            }
            Ty::T { i } => {
                let (site, v) = self.types[*i].default.clone().expect("nested Default");
                self.gate_then(env, SITE_DEF, site, "", Some(v))
            }
        }
    }
    fn build(&self, var: &Var, vi: usize, en: bool, text: &str, caps: &Caps, env: &Env) -> Vec<Out> {
        let cap = |i: usize| caps[i].map(|(a, b)| &text[a..b]);
        let mut parts: Vec<Vec<Out>> = Vec::new();
        // deep captures first: one slot per field, then one per deep setter
        for (fi, s) in var.src.iter().enumerate() {
            let ty = &var.fields[fi];
            parts.push(match s {
                Src::Cap { i, opt: false, with } => self.conv_with(ty, with, cap(*i).unwrap_or(""), env),
                Src::Cap { i, opt: true, with } => {
                    let Ty::Opt { e } = ty else { panic!("opt on non-option") };
                    match cap(*i) {
                        None => vec![Out::Ok(V::N)],
                        Some(t) => self
                            .conv_with(e, with, t, env)
                            .into_iter()
                            .map(|o| match o {
                                Out::Ok(v) => Out::Ok(V::S(Box::new(v))),
                                o => o,
                            })
                            .collect(),
                    }
                }
                Src::Def => self.default_of(ty, env),
                Src::Base => vec![Out::Ok(var.base.as_ref().expect("base").1[fi].clone())],
            });
        }
        if let Some((site, _)) = &var.base {
            let g = self.gate_then(env, SITE_DEF, *site, "", Some(V::N));
            parts.push(g);
        } else {
            parts.push(vec![Out::Ok(V::N)]);
        }
        for d in &var.deep {
            let mut ty = &var.fields[d.f];
            for k in &d.p {
                let (Ty::Deep { f } | Ty::Pair { f }) = ty else { panic!("deep path") };
                ty = &f[*k];
            }
            parts.push(self.conv(ty, cap(d.i).unwrap_or(""), env));
        }
        let nf = var.fields.len();
        let mut outs = Vec::new();
        for r in product(&parts) {
            match r {
                Err(o) => push(&mut outs, o),
                Ok(vals) => {
                    let mut fv: Vec<V> = vals[..nf].to_vec();
                    for (k, d) in var.deep.iter().enumerate() {
                        let mut slot = &mut fv[d.f];
                        for p in &d.p {
                            let V::R(x) = slot else { panic!("deep value") };
                            slot = &mut x[*p];
                        }
                        *slot = vals[nf + 1 + k].clone();
                    }
                    let picky_bad = var.picky && fv.first().is_some_and(has_bang);
                    let v = if en { V::E(vi, fv) } else { V::R(fv) };
                    if let Some(site) = var.new {
                        for o in self.gate_then(env, SITE_NEW, site, "", (!picky_bad).then_some(v)) {
                            push(&mut outs, o);
                        }
                    } else {
                        push(&mut outs, Out::Ok(v));
                    }
                }
            }
        }
        outs
    }
    /// The set of results the declared format allows for `text`.
    pub fn parse(&self, ty: usize, text: &str, env: &Env) -> Vec<Out> {
        let t = &self.types[ty];
        // an exact literal first, then declaration order
        let mut order: Vec<usize> = Vec::new();
        for (i, v) in t.vars.iter().enumerate() {
            if !v.ignore && v.lit.as_deref() == Some(text) {
                order.push(i);
                break;
            }
        }
        for (i, v) in t.vars.iter().enumerate() {
            if !v.ignore && v.lit.is_none() {
                order.push(i);
            }
        }
        let mut outs = Vec::new();
        for i in order {
            let v = &t.vars[i];
            let caps = if v.lit.is_some() {
                vec![None; 64]
            } else {
                match match_full(v.pat.as_ref().expect("pattern"), text) {
                    Match::Yes(c) => c,
                    Match::No => continue,
                    Match::Unknown => {
                        env.unknown.set(true);
                        continue;
                    }
                }
            };
            let mut open = false;
            for o in self.build(v, i, t.en, text, &caps, env) {
                match o {
                    Out::Err => open = true,
                    o => push(&mut outs, o),
                }
            }
            if !open {
                return outs;
            }
        }
        push(&mut outs, Out::Err);
        outs
    }
    /// Does the declared format match `text` (conversions aside)?
    pub fn matches(&self, ty: usize, text: &str) -> Option<bool> {
        let t = &self.types[ty];
        let mut unknown = false;
        for v in t.vars.iter().filter(|v| !v.ignore) {
            match (&v.lit, &v.pat) {
                (Some(l), _) => {
                    if l == text {
                        return Some(true);
                    }
                }
                (None, Some(p)) => match match_full(p, text) {
                    Match::Yes(_) => return Some(true),
                    Match::No => {}
                    Match::Unknown => unknown = true,
                },
                _ => {}
            }
        }
        if unknown { None } else { Some(false) }
    }
    /// Does `text` have exactly one reading, namely `v`?
    pub fn one_reading(&self, ty: usize, text: &str, v: &V) -> bool {
        let t = &self.types[ty];
        let env = Env::new(&[], &[]);
        let mut seen: BTreeSet<V> = BTreeSet::new();
        for (i, var) in t.vars.iter().enumerate().filter(|x| !x.1.ignore) {
            let all = match (&var.lit, &var.pat) {
                (Some(l), _) if l == text => vec![vec![None; 64]],
                (Some(_), _) => continue,
                (None, Some(p)) => match match_all(p, text, 12) {
                    Some(a) => a,
                    None => return false,
                },
                _ => return false,
            };
            for caps in all {
                for o in self.build(var, i, t.en, text, &caps, &env) {
                    if let Out::Ok(x) = o {
                        seen.insert(x);
                    }
                }
            }
        }
        seen.len() == 1 && seen.contains(v) && self.parse(ty, text, &env) == vec![Out::Ok(v.clone())]
    }

    // ---- display ----------------------------------------------------------------
    pub fn display(&self, ty: usize, v: &V, d: &mut Disp) -> Result<(), Stop> {
        let t = &self.types[ty];
        let (var, fv) = match v {
            V::E(i, f) => (&t.vars[*i], f),
            V::R(f) => (&t.vars[0], f),
            _ => panic!("display of {v:?} as {}", t.name),
        };
        for p in &var.disp {
            match p {
                Dp::S { s } => d.text.push_str(s),
                Dp::F { f, opt, fmt, with } => {
                    let (mut ty, mut v) = (&var.fields[*f], &fv[*f]);
                    if *opt {
                        match (ty, v) {
                            (Ty::Opt { .. }, V::N) => continue,
                            (Ty::Opt { e }, V::S(x)) => {
                                ty = e;
                                v = x;
                            }
                            _ => panic!("opt"),
                        }
                    }
                    match fmt {
                        None => self.disp_ty(ty, v, with, d)?,
                        Some(parts) => {
                            for fp in parts {
                                match fp {
                                    Fp::S { s } => d.text.push_str(s),
                                    Fp::Me => self.disp_ty(ty, v, with, d)?,
                                    Fp::Sub { p } => {
                                        let (ty, v) = sub(ty, v, p);
                                        self.disp_ty(ty, v, &None, d)?
                                    }
                                }
                            }
                        }
                    }
                }
                Dp::D { f, p } => {
                    let (ty, v) = sub(&var.fields[*f], &fv[*f], p);
                    self.disp_ty(ty, v, &None, d)?;
                }
            }
        }
        Ok(())
    }
    pub fn disp_with(&self, ty: &Ty, v: &V, with: &Option<With>, d: &mut Disp) -> Result<(), Stop> {
        self.disp_ty(ty, v, with, d)
    }
    fn disp_ty(&self, ty: &Ty, v: &V, with: &Option<With>, d: &mut Disp) -> Result<(), Stop> {
        match with {
            Some(With::W { id, pre, post }) => {
                let V::L(s) = v else { panic!("W on {v:?}") };
                let full = format!("{pre}{s}{post}");
                // the piecewise cut of the implementation works part by part; bytes are the same
                let mut cuts = |n: usize| {
                    let mut left = n;
                    let mut out = String::new();
                    for part in [pre.as_str(), s.as_str(), post.as_str()] {
                        let k = cut_at(part, left);
                        out.push_str(&part[..k]);
                        if k < part.len() {
                            break;
                        }
                        left -= k;
                    }
                    out
                };
                d.site(*id, &full, Some(&mut cuts))
            }
            Some(With::Join { item, delim }) => {
                let (Ty::Vec { e }, V::Q(items)) = (ty, v) else { panic!("join") };
                let item = Some((**item).clone());
                for (i, x) in items.iter().enumerate() {
                    if i > 0 {
                        d.text.push_str(delim);
                    }
                    self.disp_ty(e, x, &item, d)?;
                }
                Ok(())
            }
            _ => match (ty, v) {
                (Ty::Fld { id } | Ty::Num { id } | Ty::Word { id }, V::L(s)) => d.site(*id, s, None),
                (Ty::Std { .. }, V::L(s)) => {
                    d.text.push_str(s);
                    Ok(())
                }
                (Ty::T { i }, v) => self.display(*i, v, d),
                _ => panic!("display {ty:?} {v:?}"),
            },
        }
    }
    pub fn display_text(&self, ty: usize, v: &V) -> String {
        let mut d = Disp::new(&[]);
        self.display(ty, v, &mut d).unwrap();
        d.text
    }

    // ---- generation -----------------------------------------------------------------
    pub fn gen_ty(&self, ty: &Ty, with: Option<&With>, r: &mut Rng) -> V {
        match ty {
            Ty::Fld { .. } => V::L(gen_text(r)),
            Ty::Word { .. } => {
                if r.p(0.9) { V::L(gen_word(r)) } else { V::L(gen_text(r)) }
            }
            Ty::Num { .. } => V::L(gen_num(r)),
            Ty::Std { t } => V::L(match t.as_str() {
                "String" => gen_text(r),
                "u8" => r.below(256).to_string(),
                "core::num::NonZero<u8>" => r.range(1, 255).to_string(),
                "core::num::NonZero<i32>" => r.pick(&["1", "-1", "77", "-2147483648", "2147483647"]).to_string(),
                "u16" => gen_num(r).parse::<u16>().unwrap_or(u16::MAX).to_string(),
                "u128" if r.p(0.1) => u128::MAX.to_string(),
                "u32" if r.p(0.1) => u32::MAX.to_string(),
                "u64" | "usize" if r.p(0.1) => u64::MAX.to_string(),
                "u32" | "u64" | "u128" | "usize" => gen_num(r).parse::<u16>().unwrap_or(7).to_string(),
                "i8" => (r.below(256) as i64 - 128).to_string(),
                "i128" if r.p(0.1) => i128::MIN.to_string(),
                "i64" | "isize" if r.p(0.1) => i64::MIN.to_string(),
                "i16" | "i32" | "i64" | "i128" | "isize" => (r.below(2001) as i64 - 1000).to_string(),
                "f32" | "f64" => {
                    let x = *r.pick(&[0.0, -0.0, 1.0, -2.5, 1e10, 3.0e-5, 0.1, 123.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN]);
                    if t == "f32" { (x as f32).to_string() } else { x.to_string() }
                }
                "bool" => r.p(0.5).to_string(),
                "char" if r.p(0.3) => ((r.range(0x20, 0x7e)) as u8 as char).to_string(),
                "char" => r.pick(&['a', 'z', '0', '-', 'é', '{', ',', ' ', '\n', '\r', '\0', '🦀', '\u{10ffff}', '\u{85}', '\u{2028}']).to_string(),
                _ => unreachable!(),
            }),
            Ty::T { i } => self.gen_val(*i, r),
            Ty::Opt { e } => {
                if r.p(0.4) { V::N } else { V::S(Box::new(self.gen_ty(e, with, r))) }
            }
            Ty::Vec { e } => {
                let n = if DEPTH.get() <= 1 && BIG.replace(false) {
                    *r.pick(&[64, 65, 100, 128, 255, 256, 257, 300, 512, 1000, 1001, 1024, 1025, 2500])
                } else if DEPTH.get() > 1 {
                    r.below(3)
                } else if r.p(0.02) {
                    r.range(8, 70)
                } else {
                    *r.pick(&[0usize, 1, 1, 2, 2, 3, 4, 6])
                };
                V::Q((0..n).map(|_| self.gen_ty(e, with, r)).collect())
            }
            Ty::Deep { f } | Ty::Pair { f } => V::R(f.iter().map(|t| self.gen_ty(t, None, r)).collect()),
        }
    }
    pub fn gen_val(&self, ty: usize, r: &mut Rng) -> V {
        let t = &self.types[ty];
        // the first variant of a recursive type does not recurse
        let deep = DEPTH.get() > 3 && t.tags.iter().any(|t| t == "recursive");
        let vi = if deep { 0 } else { r.below(t.vars.len()) };
        let var = &t.vars[vi];
        DEPTH.set(DEPTH.get() + 1);
        let f: Vec<V> = var.fields.iter().map(|x| self.gen_ty(x, None, r)).collect();
        DEPTH.set(DEPTH.get() - 1);
        if t.en { V::E(vi, f) } else { V::R(f) }
    }
    fn sample(&self, n: &Node, r: &mut Rng, out: &mut String) {
        match n {
            Node::Lit { s } => out.push_str(s),
            Node::Any => {
                let s = match r.below(4) {
                    0 => gen_num(r),
                    1 => gen_word(r),
                    _ => gen_text(r),
                };
                out.push_str(&s)
            }
            Node::Cls { r: rs, neg } => {
                if *neg {
                    for _ in 0..20 {
                        let c = *r.pick(&['x', 'Q', '5', '%', 'é', '\n', ';']);
                        if !rs.iter().any(|x| x.0 <= c && c <= x.1) {
                            out.push(c);
                            return;
                        }
                    }
                } else {
                    let (a, b) = *r.pick(rs);
                    let n = (b as u32 - a as u32) as usize;
                    if let Some(c) = char::from_u32(a as u32 + r.range(0, n) as u32) {
                        out.push(c)
                    }
                }
            }
            Node::Seq { n } => n.iter().for_each(|x| self.sample(x, r, out)),
            Node::Alt { n } if n.is_empty() => {}
            Node::Alt { n } => {
                let i = r.below(n.len());
                self.sample(&n[i], r, out)
            }
            Node::Rep { min, max, n, .. } => {
                let hi = max.unwrap_or(min + 3).min(min + 3);
                for _ in 0..r.range(*min, hi) {
                    self.sample(n, r, out)
                }
            }
            Node::Cap { n, .. } => self.sample(n, r, out),
            Node::Look { .. } => {}
        }
    }
    /// An input for parsing `ty`.
    pub fn gen_input(&self, ty: usize, r: &mut Rng) -> String {
        let t = &self.types[ty];
        let mut s = match r.below(10) {
            0..=3 if t.disp => self.display_text(ty, &self.gen_val(ty, r)),
            4 if t.en => {
                let lits: Vec<_> = t.vars.iter().filter_map(|v| v.lit.clone()).collect();
                if lits.is_empty() { self.gen_sample(ty, r) } else { r.pick(&lits).clone() }
            }
            9 => gen_text(r),
            _ => self.gen_sample(ty, r),
        };
        if r.p(if t.vars.iter().all(|v| v.lit.is_some()) { 0.5 } else { 0.25 }) {
            mutate(&mut s, r);
        }
        let most = if s.len() > 50_000 { 80_000 } else { 6000 };
        if s.len() > most {
            let k = cut_at(&s, most);
            s.truncate(k);
        }
        s
    }
    pub fn gen_sample(&self, ty: usize, r: &mut Rng) -> String {
        let t = &self.types[ty];
        let vi = r.below(t.vars.len());
        let v = &t.vars[vi];
        let mut s = String::new();
        match (&v.lit, &v.pat) {
            (Some(l), _) => s.push_str(l),
            (None, Some(p)) => {
                // fill captured fields with something their conversion likes
                self.sample_conv(p, v, r, &mut s)
            }
            _ => s = gen_text(r),
        }
        s
    }
    fn sample_conv(&self, n: &Node, var: &Var, r: &mut Rng, out: &mut String) {
        match n {
            Node::Seq { n } => n.iter().for_each(|x| self.sample_conv(x, var, r, out)),
            Node::Rep { min: 0, max: Some(1), n, .. } => {
                if r.p(0.6) {
                    self.sample_conv(n, var, r, out)
                }
            }
            Node::Cap { i, n } => {
                if matches!(**n, Node::Any) && r.p(0.85) {
                    for (fi, s) in var.src.iter().enumerate() {
                        if let Src::Cap { i: j, with, .. } = s {
                            if j == i {
                                let mut ty = &var.fields[fi];
                                if let Ty::Opt { e } = ty {
                                    ty = e;
                                }
                                let v = self.gen_ty(ty, with.as_ref(), r);
                                if self.displayable(ty, with) {
                                    let mut d = Disp::new(&[]);
                                    let _ = self.disp_ty(ty, &v, with, &mut d);
                                    out.push_str(&d.text);
                                    return;
                                }
                            }
                        }
                    }
                }
                self.sample(n, r, out)
            }
            _ => self.sample(n, r, out),
        }
    }
    fn displayable(&self, ty: &Ty, with: &Option<With>) -> bool {
        match (ty, with) {
            (Ty::T { i }, _) => self.types[*i].disp,
            (Ty::Vec { .. }, Some(With::Join { .. })) => true,
            (Ty::Vec { .. } | Ty::Deep { .. } | Ty::Pair { .. } | Ty::Opt { .. }, _) => false,
            _ => true,
        }
    }

    // ---- structure ---------------------------------------------------------------------
    /// Groups whose parser a parse of `ty` may enter.
    pub fn touches(&self, ty: usize) -> BTreeSet<usize> {
        let mut s = BTreeSet::new();
        self.touch(ty, &mut s);
        s
    }
    fn touch(&self, ty: usize, s: &mut BTreeSet<usize>) {
        if !s.insert(self.types[ty].group) {
            return;
        }
        for v in &self.types[ty].vars {
            for f in &v.fields {
                self.touch_ty(f, s);
            }
        }
    }
    fn touch_ty(&self, t: &Ty, s: &mut BTreeSet<usize>) {
        match t {
            Ty::T { i } => self.touch(*i, s),
            Ty::Opt { e } | Ty::Vec { e } => self.touch_ty(e, s),
            Ty::Deep { f } | Ty::Pair { f } => f.iter().for_each(|t| self.touch_ty(t, s)),
            _ => {}
        }
    }
    /// Callback sites an operation on `ty` can reach: (kind, id).
    pub fn sites(&self, ty: usize) -> Vec<(u8, u32)> {
        let mut s = BTreeSet::new();
        let mut seen = BTreeSet::new();
        self.sites_(ty, &mut s, &mut seen);
        s.into_iter().collect()
    }
    fn sites_(&self, ty: usize, s: &mut BTreeSet<(u8, u32)>, seen: &mut BTreeSet<usize>) {
        if !seen.insert(ty) {
            return;
        }
        let t = &self.types[ty];
        if let Some((d, _)) = &t.default {
            s.insert((SITE_DEF, *d));
        }
        for v in &t.vars {
            if t.from && !v.ignore {
                if let Some(n) = v.new {
                    s.insert((SITE_NEW, n));
                }
                if let Some((b, _)) = &v.base {
                    s.insert((SITE_DEF, *b));
                }
                for (fi, src) in v.src.iter().enumerate() {
                    match src {
                        Src::Cap { with, .. } => self.with_sites(&v.fields[fi], with, true, s, seen),
                        Src::Def => self.ty_sites(&v.fields[fi], SITE_DEF, s, seen),
                        Src::Base => {}
                    }
                }
                for d in &v.deep {
                    self.ty_sites(&v.fields[d.f], SITE_CONV, s, seen);
                }
            }
            if t.disp {
                for p in &v.disp {
                    match p {
                        Dp::F { f, with, .. } => self.with_sites(&v.fields[*f], with, false, s, seen),
                        Dp::D { f, .. } => self.ty_sites(&v.fields[*f], SITE_FMT, s, seen),
                        _ => {}
                    }
                }
            }
        }
    }
    fn with_sites(&self, ty: &Ty, with: &Option<With>, parse: bool, s: &mut BTreeSet<(u8, u32)>, seen: &mut BTreeSet<usize>) {
        let k = if parse { SITE_CONV } else { SITE_FMT };
        match with {
            Some(With::W { id, .. }) => {
                s.insert((k, *id));
                if parse {
                    s.insert((SITE_PAT, *id));
                }
            }
            Some(With::Join { item, .. }) => {
                let Ty::Vec { e } = ty else { return };
                let item = Some((**item).clone());
                let mut inner = BTreeSet::new();
                self.with_sites(e, &item, parse, &mut inner, seen);
                s.extend(inner.into_iter().filter(|x| x.0 != SITE_PAT));
            }
            Some(With::Infer) if parse => {
                self.ty_sites(ty, k, s, seen);
                self.ty_sites(ty, SITE_PAT, s, seen);
            }
            _ => self.ty_sites(ty, k, s, seen),
        }
    }
    fn ty_sites(&self, ty: &Ty, k: u8, s: &mut BTreeSet<(u8, u32)>, seen: &mut BTreeSet<usize>) {
        match ty {
            Ty::Fld { id } => {
                if k != SITE_PAT {
                    s.insert((k, *id));
                }
            }
            Ty::Num { id } | Ty::Word { id } => {
                s.insert((k, *id));
            }
            Ty::Std { .. } => {}
            Ty::T { i } => self.sites_(*i, s, seen),
            Ty::Opt { e } | Ty::Vec { e } => self.ty_sites(e, k, s, seen),
            Ty::Deep { f } | Ty::Pair { f } => f.iter().for_each(|t| self.ty_sites(t, k, s, seen)),
        }
    }
}
fn has_bang(v: &V) -> bool {
    match v {
        V::L(s) => s.contains('!'),
        V::S(x) => has_bang(x),
        _ => false,
    }
}
fn sub<'a>(mut ty: &'a Ty, mut v: &'a V, p: &[usize]) -> (&'a Ty, &'a V) {
    for k in p {
        match (ty, v) {
            (Ty::Deep { f } | Ty::Pair { f }, V::R(x)) => {
                ty = &f[*k];
                v = &x[*k];
            }
            _ => panic!("deep path on {ty:?}"),
        }
    }
    (ty, v)
}
/// All combinations; a combination with a failure is Err(failure).  With both a failure and
/// a panic the order of evaluation decides, which the documentation leaves open: both.
fn product(parts: &[Vec<Out>]) -> Vec<Result<Vec<V>, Out>> {
    let mut combos: Vec<(Vec<V>, bool, bool)> = vec![(vec![], false, false)];
    for p in parts {
        let mut next: Vec<(Vec<V>, bool, bool)> = Vec::new();
        for (vals, e, q) in &combos {
            for o in p {
                let mut vals = vals.clone();
                let (mut e, mut q) = (*e, *q);
                match o {
                    Out::Ok(v) => vals.push(v.clone()),
                    Out::Err => {
                        e = true;
                        vals.push(V::N)
                    }
                    Out::Panic => {
                        q = true;
                        vals.push(V::N)
                    }
                }
                if next.len() < CAP {
                    next.push((vals, e, q));
                }
            }
        }
        combos = next;
    }
    let mut r: Vec<Result<Vec<V>, Out>> = Vec::new();
    for (vals, e, q) in combos {
        if e && !r.contains(&Err(Out::Err)) {
            r.push(Err(Out::Err));
        }
        if q && !r.contains(&Err(Out::Panic)) {
            r.push(Err(Out::Panic));
        }
        if !e && !q {
            r.push(Ok(vals));
        }
    }
    r
}

/// Display evaluation under a fault plan.
pub struct Disp<'a> {
    pub text: String,
    plan: &'a [Fault],
    counts: Vec<(u32, u32)>,
}
impl<'a> Disp<'a> {
    pub fn new(plan: &'a [Fault]) -> Self {
        Disp { text: String::new(), plan, counts: vec![] }
    }
    fn site(&mut self, id: u32, full: &str, cuts: Option<&mut dyn FnMut(usize) -> String>) -> Result<(), Stop> {
        let n = match self.counts.iter_mut().find(|x| x.0 == id) {
            Some(x) => {
                x.1 += 1;
                x.1
            }
            None => {
                self.counts.push((id, 1));
                1
            }
        };
        for f in self.plan {
            if f.kind == SITE_FMT && f.id == id && (f.nth == 0 || f.nth == n) && f.act.terminal() {
                let (k, stop) = match f.act {
                    Act::Err(k) => (k, Stop::Err),
                    Act::Panic(k) => (k, Stop::Panic(SITE_FMT, id)),
                    _ => break,
                };
                match cuts {
                    Some(c) => self.text.push_str(&c(k)),
                    None => self.text.push_str(&full[..cut_at(full, k)]),
                }
                return Err(stop);
            }
        }
        self.text.push_str(full);
        Ok(())
    }
}

thread_local! {
    /// the next text or list is a large one
    pub static BIG: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    /// how deep a generated value is nested
    static DEPTH: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
}
const TEXTS: &[&str] = &[
    "", "a", "b", "ab", "x", "0", "7", "42", "-", ",", "a,b", "<", ">", "<a>", "{", "}", "{}", " ", "a b", "\n", "a\nb", "é", "日本", "!", "a!", ".", "*",
    "(", ")", "[x]", "^", "$", "|", "\\", "\\d", "+", "?", "=", ":", ";", "none", "None", "A", "B", "Abc", "abc", "xyz", "true", "00", "1e5", "--", "; ",
    "foo", "bar", "foo-bar", "k=v", "\t", "\u{0}", "ß", "İ", "🦀", "/", "#", "\"", "'", "_", "~", "&&", "a-", "-a", "<>", "a=", "=b",
];
pub fn gen_text(r: &mut Rng) -> String {
    if BIG.replace(false) {
        let n = *r.pick(&[255usize, 256, 257, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 8192, 65535, 65536, 65537, 70_000]);
        let t = *r.pick(&["a", "a", "b-", "é", "x,", "0", "\n", "ab "]);
        return if r.p(0.5) { t.repeat(n) } else { t.repeat(n.div_ceil(t.len())) };
    }
    if r.p(0.006) {
        let t = *r.pick(&["a", "b-", "é", "x,", "0", "\n", "ab "]);
        return t.repeat((2.0f64).powf(4.0 + r.f() * 7.0) as usize);
    }
    match r.below(8) {
        0..=3 => r.pick(TEXTS).to_string(),
        4 => gen_word(r),
        5 => gen_num(r),
        6 => format!("{}{}", r.pick(TEXTS), r.pick(TEXTS)),
        _ => {
            let n = r.range(1, 6);
            (0..n).map(|_| *r.pick(&['a', 'b', 'c', '1', '2', '-', ',', '<', '>', ' ', '=', '.', 'é', 'Z', '\n', '!', '\r', '\t', '\0', '🦀', 'İ', '"', '\\', '{', '}', '\u{301}', '\u{85}'])).collect()
        }
    }
}
pub fn gen_word(r: &mut Rng) -> String {
    let n = r.range(1, 5);
    (0..n).map(|_| (b'a' + r.below(26) as u8) as char).collect()
}
pub fn gen_num(r: &mut Rng) -> String {
    let n = r.range(1, 4);
    (0..n).map(|_| (b'0' + r.below(10) as u8) as char).collect()
}
pub fn mutate(s: &mut String, r: &mut Rng) {
    for _ in 0..r.range(1, 2) {
        let mut cs: Vec<char> = s.chars().collect();
        let n = cs.len();
        match r.below(9) {
            8 if r.p(0.3) => cs = if r.p(0.5) { s.to_uppercase() } else { s.to_lowercase() }.chars().collect(),
            8 if cs.iter().any(|c| !c.is_alphanumeric()) => {
                // what a pattern may take a special character for
                let odd: Vec<usize> = (0..n).filter(|i| !cs[*i].is_alphanumeric()).collect();
                cs[*r.pick(&odd)] = *r.pick(&['x', 'a', '1', '-', 'é']);
            }
            7 => {
                let c = *r.pick(&['\0', '\n', '\r', ' ', '\t', '\u{feff}', '\u{a0}', '\u{200b}', '\u{2028}', '\u{85}', '\u{b}', '\u{c}', '\u{301}', '\u{1680}', '\u{3000}']);
                if r.p(0.5) { cs.insert(0, c) } else { cs.push(c) }
            }
            6 if n > 0 => {
                let k = r.below(n);
                let c = cs[k];
                cs[k] = if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() };
            }
            0 if n > 0 => {
                let k = r.below(n);
                cs.remove(k);
            }
            1 => {
                let k = r.range(0, n);
                cs.insert(k, *r.pick(&['a', '0', '-', ',', '\n', ' ', 'é', '<', '.', '!', 'Z']));
            }
            2 if n > 0 => {
                let k = r.below(n);
                cs[k] = *r.pick(&['b', '9', '_', '>', '\n', 'A', '?']);
            }
            3 if n > 0 => {
                let k = r.below(n);
                cs.truncate(k);
            }
            4 if n > 0 => {
                let k = r.below(n);
                let c = cs[k];
                cs.insert(k, c);
            }
            _ => {
                let k = r.range(0, n);
                for (j, c) in r.pick(TEXTS).chars().enumerate() {
                    cs.insert(k + j, c);
                }
            }
        }
        *s = cs.into_iter().collect();
    }
}
