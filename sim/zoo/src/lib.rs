//! The zoo: derived types the simulator drives.
#![allow(deprecated, dead_code, unused_imports, unused_variables, unused_parens, clippy::all)]
use parse_display::{Display, DisplayFormat, FromStr, FromStrFormat};
use parse_display_with::formats::{delimiter, fmt, fmt_display, fmt_from_str, join};
use pdcore::leaf::*;
use std::collections::{LinkedList, VecDeque};

// one zoo per build profile, so that neither displaces the other
#[cfg(debug_assertions)]
include!("gen.rs");
#[cfg(debug_assertions)]
pub static MODEL: &str = include_str!("../model.json");
#[cfg(not(debug_assertions))]
include!("../rel/src/gen.rs");
#[cfg(not(debug_assertions))]
pub static MODEL: &str = include_str!("../rel/model.json");

// ---- Display-only types with hand-written expectations --------------------------------
#[derive(Display)]
#[display("{a:>6}|{a:<4}|{a:^7}|{a:05}|{a:+}|{a:#x}|{a:#b}|{a:o}|{a:X}|{b:*^5}|{c:>4}|{c:.2}|{d:e}|{d:.1}|{d:8.3}|{c:?}|{a:?}")]
struct Specs {
    a: i32,
    b: u8,
    c: &'static str,
    d: f64,
}
#[derive(Display)]
#[display("{0:?}")]
struct DbgOnly(Vec<u8>);
#[derive(Display, Debug)]
#[display("{:?}")]
enum DbgSelf {
    Unit,
    Tup(u8, &'static str),
    Named { x: i8 },
}
#[derive(Display)]
#[display(style = "snake_case")]
enum EnumSpecs {
    #[display("{}={x:>3}")]
    NamedOne { x: u8 },
    #[display("{}:{0:02x}{1:02x}")]
    TupleTwo(u8, u8),
    UnitThree,
    #[display("{{{0}}}")]
    Braces(Fld<91001>),
}
#[derive(Display)]
#[display("{s}/{t}")]
struct Borrowed<'a, T: ?Sized> {
    s: &'a str,
    t: &'a T,
}
#[derive(Display)]
#[display("<{1}>{0}")]
struct Dst<T: ?Sized>(u8, T);
#[derive(Display)]
#[display("{x:>5},{y}")]
struct FieldFmt {
    #[display("[{}]")]
    y: Fld<91002>,
    x: u16,
}
#[derive(Display)]
struct FieldSpec {
    #[display("{:>6}")]
    v: i64,
}
#[derive(Display)]
#[display("{a}{b}{c}")]
struct Opts {
    #[display("a={:>3};", opt)]
    a: Option<u8>,
    #[display("b={}", opt)]
    b: Option<&'static str>,
    #[display(opt)]
    c: Option<Fld<91003>>,
}
#[derive(Display)]
#[display("{p.x.y}+{p.x.y}-{q.0.1}")]
struct DeepPath {
    p: DeepX,
    q: ((u8, i8), bool),
}
struct DeepX {
    x: DeepY,
}
struct DeepY {
    y: Fld<91004>,
}
#[derive(Display)]
#[display("{a}{a}{a}{b}")]
struct Repeated {
    #[display(with = delimiter("+"))]
    a: Vec<Fld<91005>>,
    #[display(with = join(join(fmt(), ","), ";"))]
    b: Vec<Vec<u8>>,
}
#[derive(Display)]
#[display("{0}", bound(T))]
struct Bound<T>(Inner<T>);
#[derive(Display)]
struct Inner<T>(T);
#[derive(Display)]
#[display("{0}", crate = parse_display)]
struct CratePath(Fld<91006>);
fn hash_u8(f: &mut std::fmt::Formatter, x: &u8) -> std::fmt::Result {
    f.write_str("#")?;
    std::fmt::Display::fmt(x, f)
}
#[derive(Display)]
#[display("{v}")]
struct WithClosure {
    #[display(with = fmt_display(hash_u8))]
    v: u8,
}
#[derive(Display)]
#[display("{0}{1}")]
struct Slices<'a>(#[display(with = delimiter("|"))] &'a [Fld<91007>], #[display(with = delimiter(" "))] [u8; 3]);
#[derive(Display)]
enum Deeply {
    #[display("({0})")]
    Node(Box<Deeply>),
    #[display("{0}")]
    Leaf(Fld<91008>),
}
#[derive(Display)]
#[display("{p:p}")]
struct Ptr {
    p: &'static u8,
}
static PTR_TARGET: u8 = 7;
static SLICE: &[Fld<91007>] = &[];

/// Wraps an unsized value behind a box.
struct Unsized(Box<Dst<dyn std::fmt::Display + Send + Sync>>);
impl std::fmt::Display for Unsized {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        std::fmt::Display::fmt(&*self.0, f)
    }
}
fn shown<T: std::fmt::Display>(f: &mut std::fmt::Formatter, x: &T) -> std::fmt::Result {
    x.fmt(f)
}
fn case<T: std::fmt::Display + Send + Sync + 'static>(name: &'static str, x: T, expect: impl Into<String>) -> Case {
    Case { name, val: Box::new(CaseVal(x)), expect: expect.into() }
}
pub fn cases() -> Vec<Case> {
    use case as c;
    let mut r = vec![];
    for (a, b, s, d) in [(5, 7, "abc", 1.5), (-12345, 255, "", 1e10), (i32::MIN, 0, "é日本x", -0.0625)] {
        r.push(c(
            "Specs",
            Specs { a, b, c: s, d },
            format!("{a:>6}|{a:<4}|{a:^7}|{a:05}|{a:+}|{a:#x}|{a:#b}|{a:o}|{a:X}|{b:*^5}|{s:>4}|{s:.2}|{d:e}|{d:.1}|{d:8.3}|{s:?}|{a:?}"),
        ));
    }
    r.push(c("TupleSpecs", TupleSpecs3(7, Some(3), Fld("x".into())), "0007-Some(3)-x"));
    r.push(c("DbgOnly", DbgOnly(vec![1, 2]), "[1, 2]"));
    r.push(c("DbgSelf", DbgSelf::Unit, "Unit"));
    r.push(c("DbgSelf", DbgSelf::Tup(3, "q"), "Tup(3, \"q\")"));
    r.push(c("DbgSelf", DbgSelf::Named { x: -1 }, "Named { x: -1 }"));
    r.push(c("EnumSpecs", EnumSpecs::NamedOne { x: 9 }, "named_one=  9"));
    r.push(c("EnumSpecs", EnumSpecs::TupleTwo(10, 255), "tuple_two:0aff"));
    r.push(c("EnumSpecs", EnumSpecs::UnitThree, "unit_three"));
    r.push(c("EnumSpecs", EnumSpecs::Braces(Fld("in".into())), "{in}"));
    r.push(c("Borrowed", Borrowed { s: "left", t: "right" }, "left/right"));
    r.push(c("Dst", Dst(4u8, Fld::<91009>("tail".into())), "<tail>4"));
    r.push(c("Unsized", Unsized(Box::new(Dst(1, Fld::<91010>("u".into())))), "<u>1"));
    r.push(c("FieldFmt", FieldFmt { y: Fld("yy".into()), x: 42 }, "   42,[yy]"));
    r.push(c("FieldSpec", FieldSpec { v: -7 }, "    -7"));
    r.push(c("Opts", Opts { a: Some(5), b: Some("x"), c: Some(Fld("z".into())) }, "a=  5;b=xz"));
    r.push(c("Opts", Opts { a: None, b: Some(""), c: None }, "b="));
    r.push(c("Opts", Opts { a: Some(200), b: None, c: Some(Fld("longer text".into())) }, "a=200;longer text"));
    r.push(c("DeepPath", DeepPath { p: DeepX { x: DeepY { y: Fld("dd".into()) } }, q: ((1, -2), true) }, "dd+dd--2"));
    r.push(c(
        "Repeated",
        Repeated { a: vec![Fld("1".into()), Fld("2".into())], b: vec![vec![1, 2], vec![], vec![3]] },
        "1+21+21+21,2;;3",
    ));
    r.push(c("Repeated", Repeated { a: vec![], b: vec![] }, ""));
    r.push(c("Bound", Bound(Inner(Fld::<91011>("b".into()))), "b"));
    r.push(c("CratePath", CratePath(Fld("cp".into())), "cp"));
    r.push(c("WithClosure", WithClosure { v: 12 }, "#12"));
    r.push(c("Slices", Slices(SLICE, [1, 2, 3]), "1 2 3"));
    r.push(c(
        "Deeply",
        Deeply::Node(Box::new(Deeply::Node(Box::new(Deeply::Leaf(Fld("core".into())))))),
        "((core))",
    ));
    r.push(c("Ptr", Ptr { p: &PTR_TARGET }, format!("{:p}", &PTR_TARGET)));
    gen_cases(&mut r);
    r
}
#[derive(Display)]
#[display("{0:>04}-{1:?}-{2}")]
struct TupleSpecs3(u32, Option<u8>, Fld<91012>);

// ---- delimited lists used directly ---------------------------------------------------------
struct Lst<C>(C, fn(&C, &str, &mut std::fmt::Formatter) -> std::fmt::Result);
impl<C: Send + Sync> AnyList for Lst<C> {
    fn show(&self, delim: &str, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        (self.1)(&self.0, delim, f)
    }
}
fn lst<C: Send + Sync + 'static>(c: C, f: fn(&C, &str, &mut std::fmt::Formatter) -> std::fmt::Result) -> Box<dyn AnyList> {
    Box::new(Lst(c, f))
}
fn items<T: Zv, C: FromIterator<T>>(v: &V) -> C {
    match v {
        V::Q(v) => v.iter().map(T::mk).collect(),
        _ => panic!("list expected"),
    }
}
fn back<'a, T: Zv + 'a>(i: impl IntoIterator<Item = &'a T>) -> V {
    let _n = pdcore::rt::NoPreempt::new();
    V::Q(i.into_iter().map(T::rd).collect())
}
type F1 = Fld<90001>;
type F2 = Num<90002>;
type F3 = Fld<90003>;
type F4 = Fld<90004>;
type F5 = Fld<90005>;
type F6 = Fld<90006>;
type F7 = Num<90007>;
pub static JOINS: &[JoinOps] = &[
    JoinOps {
        name: "delimiter(Vec)",
        item: JoinItem::Fld(90001),
        prep: |v| lst::<Vec<F1>>(items(v), |c, d, f| delimiter(d).write(f, c)),
        parse: Some(|d, s| delimiter(d).parse(s).map(|v: Vec<F1>| back(&v))),
    },
    JoinOps {
        name: "join(fmt, VecDeque)",
        item: JoinItem::Num(90002),
        prep: |v| lst::<VecDeque<F2>>(items(v), |c, d, f| join(fmt(), d).write(f, c)),
        parse: Some(|d, s| join(fmt(), d).parse(s).map(|v: VecDeque<F2>| back(&v))),
    },
    JoinOps {
        name: "join(custom, LinkedList)",
        item: JoinItem::W(100000),
        prep: |v| lst::<LinkedList<F3>>(items(v), |c, d, f| join(W::<100000>, d).write(f, c)),
        parse: Some(|d, s| join(W::<100000>, d).parse(s).map(|v: LinkedList<F3>| back(&v))),
    },
    JoinOps {
        name: "join(join)",
        item: JoinItem::List(90004),
        prep: |v| lst::<Vec<Vec<F4>>>(items(v), |c, d, f| join(join(fmt(), ","), d).write(f, c)),
        parse: Some(|d, s| join(join(fmt(), ","), d).parse(s).map(|v: Vec<Vec<F4>>| back(&v))),
    },
    JoinOps {
        name: "slice",
        item: JoinItem::Fld(90005),
        prep: |v| lst::<Vec<F5>>(items(v), |c, d, f| DisplayFormat::<[F5]>::write(&delimiter(d), f, &c[..])),
        parse: Some(|d, s| delimiter(d).parse(s).map(|v: Box<[F5]>| back(v.iter()))),
    },
    JoinOps {
        name: "closures",
        item: JoinItem::Fld(90006),
        prep: |v| {
            lst::<Vec<F6>>(items(v), |c, d, f| {
                join(fmt_display(|f: &mut std::fmt::Formatter, x: &F6| std::fmt::Display::fmt(x, f)), d).write(f, c)
            })
        },
        parse: Some(|d, s| join(fmt_from_str(|s: &str| s.parse::<F6>()), d).parse(s).map(|v: Vec<F6>| back(&v))),
    },
    JoinOps {
        name: "array",
        item: JoinItem::Num(90007),
        prep: |v| {
            let mut x: Vec<F7> = items(v);
            while x.len() < 3 {
                x.push(Num("0".into()));
            }
            x.truncate(3);
            let a: [F7; 3] = x.try_into().ok().unwrap();
            lst::<[F7; 3]>(a, |c, d, f| delimiter(d).write(f, c))
        },
        parse: None,
    },
];
