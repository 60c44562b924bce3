//! Values, callback sites and the leaf types the derived types are made of.
use crate::rt::*;
use serde::{Deserialize, Serialize};
use std::fmt::{self, Formatter};
use std::str::FromStr;

/// Model-level value.
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, Serialize, Deserialize)]
pub enum V {
    /// leaf, by its text
    L(String),
    /// None
    N,
    /// Some
    S(Box<V>),
    /// struct or tuple
    R(Vec<V>),
    /// enum variant
    E(usize, Vec<V>),
    /// list
    Q(Vec<V>),
}
impl V {
    pub fn l(s: &str) -> V {
        V::L(s.to_string())
    }
    pub fn size(&self) -> usize {
        match self {
            V::L(s) => s.len() + 4,
            V::N => 4,
            V::S(v) => v.size() + 4,
            V::R(l) | V::E(_, l) | V::Q(l) => l.iter().map(V::size).sum::<usize>() + 4,
        }
    }
}

pub const SITE_FMT: u8 = b'd';
pub const SITE_CONV: u8 = b'c';
pub const SITE_PAT: u8 = b'p';
pub const SITE_NEW: u8 = b'n';
pub const SITE_DEF: u8 = b'z';
pub const SITE_SINK: u8 = b'w';

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Act {
    /// fail (a formatter first writes `0` bytes of its text)
    Err(usize),
    Panic(usize),
    Stall,
    Sleep(i64),
    /// run scenario.inner[i]
    Reenter(usize),
    /// pattern providers: yield this text instead
    Bad(String),
}
impl Act {
    pub fn terminal(&self) -> bool {
        matches!(self, Act::Err(_) | Act::Panic(_) | Act::Bad(_))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Fault {
    pub kind: u8,
    pub id: u32,
    /// 0 = every time within the operation, k = only the k-th time
    pub nth: u32,
    pub act: Act,
}
#[derive(Clone, Debug, PartialEq)]
pub struct LogE {
    pub kind: u8,
    pub id: u32,
    pub text: String,
    pub act: Option<Act>,
}
#[derive(Default)]
pub struct Frame {
    pub plan: Vec<Fault>,
    pub counts: Vec<(u8, u32, u32)>,
    pub log: Vec<LogE>,
    pub fired: Vec<(u8, u32, &'static str)>,
}
#[derive(Default)]
pub struct Ctx {
    pub stack: Vec<Frame>,
    /// (op index, inner depth) currently running; -1 = none
    pub cur: i64,
    pub stall_site: Option<(u8, u32)>,
}
pub const NCTX: usize = 17;
static mut CTXS: [Option<Ctx>; NCTX] = [const { None }; NCTX];
/// The context of the calling thread.  Only one thread runs at a time.
#[allow(static_mut_refs)]
pub fn ctx() -> &'static mut Ctx {
    let t = unsafe { rt_tid() };
    ctx_of((t + 1) as usize)
}
#[allow(static_mut_refs)]
pub fn ctx_of(i: usize) -> &'static mut Ctx {
    unsafe { CTXS[i].get_or_insert_with(Ctx::default) }
}

pub struct SimPanic {
    pub kind: u8,
    pub id: u32,
}
pub fn throw(kind: u8, id: u32) -> ! {
    unsafe { rt_refuse(0) }; // raising the panic takes memory
    std::panic::resume_unwind(Box::new(SimPanic { kind, id }))
}
pub static mut RUN_INNER: Option<fn(usize)> = None;

fn act_name(kind: u8, a: &Act) -> &'static str {
    match (kind, a) {
        (SITE_FMT, Act::Err(_)) => "formatter_error",
        (SITE_FMT, Act::Panic(_)) => "formatter_panic",
        (SITE_CONV, Act::Err(_)) => "conversion_error",
        (SITE_CONV, Act::Panic(_)) => "conversion_panic",
        (SITE_PAT, Act::Panic(_)) => "pattern_panic",
        (SITE_PAT, Act::Err(_)) => "pattern_panic",
        (SITE_NEW, Act::Err(_)) => "constructor_refusal",
        (SITE_NEW, Act::Panic(_)) => "constructor_panic",
        (SITE_DEF, Act::Panic(_)) => "default_panic",
        (SITE_DEF, Act::Err(_)) => "default_panic",
        (SITE_SINK, Act::Panic(_)) => "sink_panic",
        (SITE_SINK, Act::Err(_)) => "sink_error",
        (_, Act::Bad(_)) => "pattern_invalid",
        (SITE_FMT, Act::Stall) => "stall_formatter",
        (SITE_CONV, Act::Stall) => "stall_conversion",
        (SITE_PAT, Act::Stall) => "stall_pattern",
        (SITE_NEW, Act::Stall) => "stall_constructor",
        (SITE_DEF, Act::Stall) => "stall_default",
        (SITE_SINK, Act::Stall) => "stall_sink",
        (_, Act::Stall) => "stall",
        (_, Act::Sleep(_)) => "delay",
        (SITE_SINK, Act::Reenter(_)) => "reenter_sink",
        (SITE_FMT, Act::Reenter(_)) => "reenter_formatter",
        (SITE_CONV, Act::Reenter(_)) => "reenter_conversion",
        (SITE_NEW, Act::Reenter(_)) => "reenter_constructor",
        (SITE_DEF, Act::Reenter(_)) => "reenter_default",
        (_, Act::Reenter(_)) => "reenter",
        (_, Act::Err(_)) => "error",
        (_, Act::Panic(_)) => "panic",
    }
}

/// A callback from the code under test into "user" code.  Stalls, delays and re-entrant
/// operations happen here; the terminal action, if any, is returned.
pub fn cb(kind: u8, id: u32, text: &str) -> Option<Act> {
    unsafe { rt_cb_point() };
    let mut soft: Vec<Act> = Vec::new();
    let mut term = None;
    {
        let _n = NoPreempt::new();
        let c = ctx();
        let Some(fr) = c.stack.last_mut() else { return None };
        let n = match fr.counts.iter_mut().find(|x| x.0 == kind && x.1 == id) {
            Some(x) => {
                x.2 += 1;
                x.2
            }
            None => {
                fr.counts.push((kind, id, 1));
                1
            }
        };
        for f in fr.plan.iter().filter(|f| f.kind == kind && f.id == id && (f.nth == 0 || f.nth == n)) {
            fr.fired.push((kind, id, act_name(kind, &f.act)));
            if f.act.terminal() {
                if term.is_none() {
                    term = Some(f.act.clone());
                }
            } else {
                soft.push(f.act.clone());
            }
        }
        fr.log.push(LogE { kind, id, text: text.to_string(), act: term.clone() });
        if !soft.is_empty() {
            drop(_n);
            soft_acts(kind, id, soft);
        } else {
            drop(soft);
        }
    }
    term
}
fn soft_acts(kind: u8, id: u32, soft: Vec<Act>) {
    for a in &soft {
        match a {
            Act::Stall => {
                ctx().stall_site = Some((kind, id));
                unsafe { rt_stall() };
                ctx().stall_site = None;
            }
            Act::Sleep(ns) => unsafe { rt_sleep_ns(*ns) },
            Act::Reenter(i) => {
                if let Some(f) = unsafe { RUN_INNER } {
                    f(*i)
                }
            }
            _ => {}
        }
    }
    let _n = NoPreempt::new();
    drop(soft);
}

fn cut(s: &str, mut n: usize) -> usize {
    if n > s.len() {
        n = s.len();
    }
    while !s.is_char_boundary(n) {
        n -= 1;
    }
    n
}
/// How many bytes of `s` a formatter that fails "after n" writes.
pub fn cut_at(s: &str, n: usize) -> usize {
    cut(s, n)
}
fn write_chunks(f: &mut Formatter, mut s: &str) -> fmt::Result {
    while !s.is_empty() {
        let n = s.char_indices().nth(3).map_or(s.len(), |x| x.0);
        f.write_str(&s[..n])?;
        s = &s[n..];
        unsafe { rt_cb_point() };
    }
    Ok(())
}
pub fn leaf_fmt(id: u32, s: &str, f: &mut Formatter) -> fmt::Result {
    match cb(SITE_FMT, id, s) {
        None => write_chunks(f, s),
        Some(Act::Err(n)) => {
            write_chunks(f, &s[..cut(s, n)])?;
            Err(fmt::Error)
        }
        Some(Act::Panic(n)) => {
            write_chunks(f, &s[..cut(s, n)])?;
            throw(SITE_FMT, id)
        }
        Some(_) => write_chunks(f, s),
    }
}
/// Which conversion failed, and on what text.
#[derive(Debug, Clone, PartialEq)]
pub struct LeafErr(pub u32, pub String);
impl LeafErr {
    pub fn at(id: u32) -> Self {
        LeafErr(id, String::new())
    }
}
impl fmt::Display for LeafErr {
    fn fmt(&self, f: &mut Formatter) -> fmt::Result {
        write!(f, "leaf {} failed", self.0)
    }
}
impl std::error::Error for LeafErr {}

fn conv_gate(id: u32, s: &str) -> Result<(), LeafErr> {
    match cb(SITE_CONV, id, s) {
        Some(Act::Panic(_)) => throw(SITE_CONV, id),
        Some(_) => Err(LeafErr(id, s.to_string())),
        None => Ok(()),
    }
}
fn def_gate(id: u32) {
    if cb(SITE_DEF, id, "").is_some() {
        throw(SITE_DEF, id)
    }
}
/// Used by generated `new = ...` expressions: may refuse or panic on request.
pub fn new_gate(id: u32) -> bool {
    match cb(SITE_NEW, id, "") {
        Some(Act::Panic(_)) => throw(SITE_NEW, id),
        Some(_) => false,
        None => true,
    }
}
/// Used by generated `impl Default`.
pub fn default_gate(id: u32) {
    def_gate(id)
}
fn pat_gate(id: u32, ok: &str) -> String {
    match cb(SITE_PAT, id, "") {
        Some(Act::Bad(s)) => s,
        Some(_) => throw(SITE_PAT, id),
        None => ok.to_string(),
    }
}

pub trait Zv: Sized {
    fn mk(v: &V) -> Self;
    fn rd(&self) -> V;
}
fn txt(v: &V) -> &str {
    match v {
        V::L(s) => s,
        _ => panic!("leaf expected, got {v:?}"),
    }
}

/// Any text.
#[derive(Clone, Debug, PartialEq)]
pub struct Fld<const ID: u32>(pub String);
impl<const ID: u32> fmt::Display for Fld<ID> {
    fn fmt(&self, f: &mut Formatter) -> fmt::Result {
        leaf_fmt(ID, &self.0, f)
    }
}
impl<const ID: u32> FromStr for Fld<ID> {
    type Err = LeafErr;
    fn from_str(s: &str) -> Result<Self, LeafErr> {
        conv_gate(ID, s)?;
        Ok(Fld(s.to_string()))
    }
}
impl<const ID: u32> Default for Fld<ID> {
    fn default() -> Self {
        def_gate(ID);
        Fld("dfl".into())
    }
}
impl<const ID: u32> Zv for Fld<ID> {
    fn mk(v: &V) -> Self {
        Fld(txt(v).into())
    }
    fn rd(&self) -> V {
        V::l(&self.0)
    }
}
/// Decimal number; publishes the pattern `[0-9]+`.
#[derive(Clone, Debug, PartialEq)]
pub struct Num<const ID: u32>(pub String);
pub fn num_ok(s: &str) -> bool {
    !s.is_empty() && s.len() <= 6 && s.bytes().all(|b| b.is_ascii_digit())
}
impl<const ID: u32> fmt::Display for Num<ID> {
    fn fmt(&self, f: &mut Formatter) -> fmt::Result {
        leaf_fmt(ID, &self.0, f)
    }
}
impl<const ID: u32> FromStr for Num<ID> {
    type Err = LeafErr;
    fn from_str(s: &str) -> Result<Self, LeafErr> {
        conv_gate(ID, s)?;
        if num_ok(s) {
            Ok(Num(s.to_string()))
        } else {
            Err(LeafErr(ID, s.to_string()))
        }
    }
}
impl<const ID: u32> Default for Num<ID> {
    fn default() -> Self {
        def_gate(ID);
        Num("0".into())
    }
}
impl<const ID: u32> parse_display::FromStrRegex for Num<ID> {
    fn from_str_regex() -> String {
        pat_gate(ID, "[0-9]+")
    }
}
impl<const ID: u32> Zv for Num<ID> {
    fn mk(v: &V) -> Self {
        Num(txt(v).into())
    }
    fn rd(&self) -> V {
        V::l(&self.0)
    }
}
/// Any text, but publishes the pattern `[a-z]+`.
#[derive(Clone, Debug, PartialEq)]
pub struct Word<const ID: u32>(pub String);
impl<const ID: u32> fmt::Display for Word<ID> {
    fn fmt(&self, f: &mut Formatter) -> fmt::Result {
        leaf_fmt(ID, &self.0, f)
    }
}
impl<const ID: u32> FromStr for Word<ID> {
    type Err = LeafErr;
    fn from_str(s: &str) -> Result<Self, LeafErr> {
        conv_gate(ID, s)?;
        Ok(Word(s.to_string()))
    }
}
impl<const ID: u32> Default for Word<ID> {
    fn default() -> Self {
        def_gate(ID);
        Word("dw".into())
    }
}
impl<const ID: u32> parse_display::FromStrRegex for Word<ID> {
    fn from_str_regex() -> String {
        pat_gate(ID, "[a-z]+")
    }
}
impl<const ID: u32> Zv for Word<ID> {
    fn mk(v: &V) -> Self {
        Word(txt(v).into())
    }
    fn rd(&self) -> V {
        V::l(&self.0)
    }
}

macro_rules! std_zv {
    ($($t:ty),*) => {$(
        impl Zv for $t {
            fn mk(v: &V) -> Self { txt(v).parse().unwrap_or_else(|_| panic!("bad {} {:?}", stringify!($t), v)) }
            fn rd(&self) -> V { V::L(self.to_string()) }
        }
    )*};
}
std_zv!(String, u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize, f32, f64, bool, char, core::num::NonZero<u8>, core::num::NonZero<i32>);
impl<T: Zv> Zv for Option<T> {
    fn mk(v: &V) -> Self {
        match v {
            V::N => None,
            V::S(v) => Some(T::mk(v)),
            _ => panic!("option expected"),
        }
    }
    fn rd(&self) -> V {
        match self {
            None => V::N,
            Some(x) => V::S(Box::new(x.rd())),
        }
    }
}
impl<T: Zv> Zv for Vec<T> {
    fn mk(v: &V) -> Self {
        match v {
            V::Q(v) => v.iter().map(T::mk).collect(),
            _ => panic!("list expected"),
        }
    }
    fn rd(&self) -> V {
        V::Q(self.iter().map(T::rd).collect())
    }
}
impl<T: Zv, U: Zv> Zv for (T, U) {
    fn mk(v: &V) -> Self {
        match v {
            V::R(v) => (T::mk(&v[0]), U::mk(&v[1])),
            _ => panic!("pair expected"),
        }
    }
    fn rd(&self) -> V {
        V::R(vec![self.0.rd(), self.1.rd()])
    }
}
/// A plain struct whose fields are addressed with nested format arguments (`{a.x}`).
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Deep<X, Y> {
    pub x: X,
    pub y: Y,
}
impl<X: Zv, Y: Zv> Zv for Deep<X, Y> {
    fn mk(v: &V) -> Self {
        match v {
            V::R(v) => Deep { x: X::mk(&v[0]), y: Y::mk(&v[1]) },
            _ => panic!("deep expected"),
        }
    }
    fn rd(&self) -> V {
        V::R(vec![self.x.rd(), self.y.rd()])
    }
}

/// What a custom format `W<ID>` does.
pub struct WSpec {
    pub pre: &'static str,
    pub post: &'static str,
    /// None: inherits the default (any text)
    pub pat: Option<&'static str>,
}
static mut WTAB: &[WSpec] = &[];
pub fn set_wtab(t: &'static [WSpec]) {
    unsafe { WTAB = t }
}
pub fn wspec(id: u32) -> &'static WSpec {
    unsafe { &WTAB[id as usize - WBASE as usize] }
}
/// ids of custom formats start here
pub const WBASE: u32 = 100_000;

pub trait WVal: Sized {
    fn wfmt(&self, f: &mut Formatter) -> fmt::Result;
    fn wtext(&self) -> &str;
    fn wparse(s: &str, id: u32) -> Result<Self, LeafErr>;
}
macro_rules! wval {
    ($t:ident, $ok:expr) => {
        impl<const ID: u32> WVal for $t<ID> {
            fn wfmt(&self, f: &mut Formatter) -> fmt::Result {
                write_chunks(f, &self.0)
            }
            fn wtext(&self) -> &str {
                &self.0
            }
            fn wparse(s: &str, id: u32) -> Result<Self, LeafErr> {
                let ok: fn(&str) -> bool = $ok;
                if ok(s) {
                    Ok($t(s.to_string()))
                } else {
                    Err(LeafErr(id, s.to_string()))
                }
            }
        }
    };
}
wval!(Fld, |_| true);
wval!(Num, num_ok);
wval!(Word, |_| true);
impl WVal for String {
    fn wfmt(&self, f: &mut Formatter) -> fmt::Result {
        write_chunks(f, self)
    }
    fn wtext(&self) -> &str {
        self
    }
    fn wparse(s: &str, _: u32) -> Result<Self, LeafErr> {
        Ok(s.to_string())
    }
}

pub fn w_write<T: WVal>(id: u32, f: &mut Formatter, v: &T) -> fmt::Result {
    let sp = wspec(id);
    let full = |f: &mut Formatter| -> fmt::Result {
        f.write_str(sp.pre)?;
        v.wfmt(f)?;
        f.write_str(sp.post)
    };
    match cb(SITE_FMT, id, v.wtext()) {
        Some(a @ (Act::Err(n) | Act::Panic(n))) => {
            // write the first n bytes of pre + text + post, then fail
            let mut left = n;
            for part in [sp.pre, v.wtext(), sp.post] {
                let k = cut(part, left);
                f.write_str(&part[..k])?;
                if k < part.len() {
                    break;
                }
                left -= k;
            }
            if matches!(a, Act::Panic(_)) {
                throw(SITE_FMT, id)
            }
            Err(fmt::Error)
        }
        _ => full(f),
    }
}
pub fn w_parse<T: WVal>(id: u32, s: &str) -> Result<T, LeafErr> {
    conv_gate(id, s)?;
    let sp = wspec(id);
    match s.strip_prefix(sp.pre).and_then(|s| s.strip_suffix(sp.post)) {
        Some(x) => T::wparse(x, id).map_err(|e| LeafErr(e.0, s.to_string())),
        None => Err(LeafErr(id, s.to_string())),
    }
}
pub fn w_pattern(id: u32) -> String {
    let sp = wspec(id);
    pat_gate(id, sp.pat.unwrap_or("(?s:.*?)"))
}
/// Custom format implementing `regex_pattern`.
#[derive(Clone, Copy)]
pub struct W<const ID: u32>;
/// Custom format implementing the deprecated `regex`.
#[derive(Clone, Copy)]
pub struct Wr<const ID: u32>;
/// Custom format without a pattern of its own.
#[derive(Clone, Copy)]
pub struct Wn<const ID: u32>;
macro_rules! wfmt {
    ($w:ident, {$($m:tt)*}) => {
        impl<T: WVal, const ID: u32> parse_display::DisplayFormat<T> for $w<ID> {
            fn write(&self, f: &mut Formatter, v: &T) -> fmt::Result {
                w_write(ID, f, v)
            }
        }
        impl<T: WVal, const ID: u32> parse_display::FromStrFormat<T> for $w<ID> {
            type Err = LeafErr;
            fn parse(&self, s: &str) -> Result<T, LeafErr> {
                w_parse(ID, s)
            }
            $($m)*
        }
    };
}
wfmt!(W, { fn regex_pattern(&self) -> String { w_pattern(ID) } });
#[allow(deprecated)]
mod dep {
    use super::*;
    wfmt!(Wr, { fn regex(&self) -> Option<String> { Some(w_pattern(ID)) } });
}
wfmt!(Wn, {});

pub trait AnyVal: Send + Sync {
    fn show(&self, f: &mut Formatter) -> fmt::Result;
    fn v(&self) -> V;
}
pub struct Shown<'a>(pub &'a dyn AnyVal);
impl fmt::Display for Shown<'_> {
    #[inline]
    fn fmt(&self, f: &mut Formatter) -> fmt::Result {
        self.0.show(f)
    }
}
pub struct DispVal<T>(pub T);
impl<T: fmt::Display + Zv + Send + Sync> AnyVal for DispVal<T> {
    fn show(&self, f: &mut Formatter) -> fmt::Result {
        fmt::Display::fmt(&self.0, f)
    }
    fn v(&self) -> V {
        self.0.rd()
    }
}
pub struct PlainVal<T>(pub T);
impl<T: Zv + Send + Sync> AnyVal for PlainVal<T> {
    fn show(&self, _: &mut Formatter) -> fmt::Result {
        Err(fmt::Error)
    }
    fn v(&self) -> V {
        self.0.rd()
    }
}
/// A value with a Display and a hand-written expectation.
pub struct CaseVal<T>(pub T);
impl<T: fmt::Display + Send + Sync> AnyVal for CaseVal<T> {
    fn show(&self, f: &mut Formatter) -> fmt::Result {
        fmt::Display::fmt(&self.0, f)
    }
    fn v(&self) -> V {
        V::N
    }
}
pub struct Case {
    pub name: &'static str,
    pub val: Box<dyn AnyVal>,
    pub expect: String,
}
/// A delimited list format used directly, without a derive.
pub struct JoinOps {
    pub name: &'static str,
    /// item types, innermost last: site id of the conversions
    pub item: JoinItem,
    pub prep: fn(&V) -> Box<dyn AnyList>,
    pub parse: Option<fn(&str, &str) -> Result<V, LeafErr>>,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum JoinItem {
    /// site
    Fld(u32),
    Num(u32),
    /// custom format id; item is any text
    W(u32),
    /// list of Fld(site) with delimiter ","
    List(u32),
}
pub trait AnyList: Send + Sync {
    fn show(&self, delim: &str, f: &mut Formatter) -> fmt::Result;
}
/// One derived type, as the simulator sees it.
#[derive(Clone, Copy)]
pub struct TypeOps {
    pub name: &'static str,
    pub mk: fn(&V) -> Box<dyn AnyVal>,
    pub parse: Option<fn(&str) -> Result<V, String>>,
    pub pattern: Option<fn() -> String>,
}
pub fn mk_disp<T: fmt::Display + Zv + Send + Sync + 'static>(v: &V) -> Box<dyn AnyVal> {
    Box::new(DispVal(T::mk(v)))
}
/// A declaration that was left out.
pub fn mk_none(_: &V) -> Box<dyn AnyVal> {
    panic!("not in this zoo")
}
pub fn mk_plain<T: Zv + Send + Sync + 'static>(v: &V) -> Box<dyn AnyVal> {
    Box::new(PlainVal(T::mk(v)))
}
pub fn parse_any<T: FromStr + Zv>(s: &str) -> Result<V, String>
where
    T::Err: fmt::Display,
{
    match s.parse::<T>() {
        Ok(x) => {
            let _n = NoPreempt::new();
            Ok(x.rd())
        }
        Err(e) => {
            let _n = NoPreempt::new();
            Err(e.to_string())
        }
    }
}
pub fn pattern_any<T: parse_display::FromStrRegex>() -> String {
    T::from_str_regex()
}
