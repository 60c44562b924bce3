//! Scenarios: what each simulated thread does, which faults happen, and how it is scheduled.
use pdcore::leaf::*;
use pdcore::model::*;
use pdcore::rt::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Clone, Debug, Serialize, Deserialize, Default, PartialEq)]
pub struct Sink {
    /// 0 fmt::Write, 1 io::Write, 2 to_string()
    pub kind: u8,
    /// bytes accepted before the stream fails
    pub limit: Option<usize>,
    /// a piece that crosses the limit is accepted up to the limit
    pub torn: bool,
    /// keeps failing once it failed
    pub sticky: bool,
    /// io: at most this many bytes per write
    pub short: usize,
    /// io: every k-th write is interrupted
    pub intr: u32,
    /// io: at the limit, 0 = error, 1 = Ok(0), 2 = WouldBlock
    pub mode: u8,
    /// what the caller asks for beside the text (see SPECS)
    #[serde(default)]
    pub spec: u8,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Tx {
    /// simulated delay before each fragment
    pub delay: i64,
    /// the stream fails after this many bytes
    pub fail: Option<usize>,
    /// the complete transmission is lost
    pub lost: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
#[serde(tag = "op")]
pub enum Op {
    Parse { ty: usize, text: String, plan: Vec<Fault> },
    Show { ty: usize, v: V, sink: Sink, plan: Vec<Fault>, refuse: bool },
    Case { i: usize, sink: Sink, refuse: bool },
    Pat { ty: usize, probes: Vec<String>, plan: Vec<Fault> },
    JShow { j: usize, v: V, delim: String, sink: Sink, plan: Vec<Fault>, refuse: bool },
    JParse { j: usize, text: String, delim: String, plan: Vec<Fault> },
    Send { ty: usize, v: V, chan: usize, tx: Vec<Tx> },
    Recv { ty: usize, v: V, chan: usize, copies: usize },
    /// run derive macro `which` on declaration `d`
    Expand { d: usize, which: usize },
    /// the same operations over and over; `vary`: every MARK in a text is another word each time
    Loop {
        n: usize,
        body: Vec<Op>,
        #[serde(default)]
        vary: bool,
    },
}
pub const MARK: &str = "\u{431}\u{431}\u{431}";
/// The operations of a list, loops unrolled and their texts varied.
pub fn unrolled(l: &[Op]) -> Vec<&Op> {
    let mut out = Vec::new();
    for o in l {
        match o {
            Op::Loop { n, body, vary: true } => {
                let texts: Vec<String> = body.iter().map(|o| serde_json::to_string(o).unwrap()).collect();
                for i in 0..*n {
                    let word: String = [i / 225 % 15, i / 15 % 15, i % 15].iter().map(|d| char::from_u32(0x431 + *d as u32).unwrap()).collect();
                    for t in &texts {
                        let o: Op = serde_json::from_str(&t.replace(MARK, &word)).unwrap();
                        out.push(&*Box::leak(Box::new(o)));
                    }
                }
            }
            Op::Loop { n, body, .. } => (0..*n).for_each(|_| out.extend(body)),
            o => out.push(o),
        }
    }
    out
}
/// The operations of a list, loops unrolled.
pub fn flat(l: &[Op]) -> impl Iterator<Item = &Op> {
    l.iter().flat_map(|o| {
        let (n, b) = match o {
            Op::Loop { n, body, .. } => (*n, &body[..]),
            o => (1, std::slice::from_ref(o)),
        };
        (0..n).flat_map(move |_| b.iter())
    })
}
static WEIGHT: std::sync::OnceLock<Vec<usize>> = std::sync::OnceLock::new();
/// The size of a type's patterns, those of nested types included.
fn weight(ty: usize) -> usize {
    WEIGHT.get().map_or(0, |w| w[ty])
}
fn ty_weight(t: &Ty, w: &[usize]) -> usize {
    match t {
        Ty::T { i } => w.get(*i).copied().unwrap_or(0),
        Ty::Opt { e } | Ty::Vec { e } => ty_weight(e, w),
        Ty::Deep { f } | Ty::Pair { f } => f.iter().map(|t| ty_weight(t, w)).sum(),
        _ => 0,
    }
}
/// How much text operations handle, roughly.
pub fn volume(l: &[Op]) -> usize {
    l.iter()
        .map(|o| match o {
            Op::Parse { ty, text, .. } => 30 + text.len() + text.len() * weight(*ty) / 200,
            Op::Recv { ty, v, .. } => 200 + v.size() * weight(*ty) / 200,
            Op::JParse { text, .. } => 30 + text.len(),
            Op::Show { v, .. } | Op::JShow { v, .. } | Op::Send { v, .. } => 30 + v.size(),
            Op::Loop { n, body, .. } => n * volume(body),
            Op::Pat { .. } => 1500,
            _ => 200,
        })
        .sum()
}
const VOLUME: usize = 150_000;
impl Op {
    pub fn plan(&self) -> &[Fault] {
        match self {
            Op::Parse { plan, .. } | Op::Show { plan, .. } | Op::Pat { plan, .. } | Op::JShow { plan, .. } | Op::JParse { plan, .. } => plan,
            _ => &[],
        }
    }
    pub fn plan_mut(&mut self) -> Option<&mut Vec<Fault>> {
        match self {
            Op::Parse { plan, .. } | Op::Show { plan, .. } | Op::Pat { plan, .. } | Op::JShow { plan, .. } | Op::JParse { plan, .. } => Some(plan),
            _ => None,
        }
    }
    pub fn ty(&self) -> Option<usize> {
        match self {
            Op::Parse { ty, .. } | Op::Show { ty, .. } | Op::Pat { ty, .. } | Op::Send { ty, .. } | Op::Recv { ty, .. } => Some(*ty),
            _ => None,
        }
    }
    pub fn kind(&self) -> &'static str {
        match self {
            Op::Parse { .. } => "parse",
            Op::Show { .. } => "display",
            Op::Case { .. } => "display_case",
            Op::Pat { .. } => "pattern",
            Op::JShow { .. } => "list_display",
            Op::JParse { .. } => "list_parse",
            Op::Send { .. } => "send",
            Op::Recv { .. } => "receive",
            Op::Expand { .. } => "expand",
            Op::Loop { .. } => "loop",
        }
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Sched {
    pub policy: i32,
    pub seed: u64,
    pub mean: f64,
    pub cb_p: f64,
    pub spur_p: f64,
    pub npct: i32,
    pub pct_len: i64,
    pub max_preempt: i64,
    pub count_alloc: bool,
    pub count_mem: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct Thr {
    pub ops: Vec<Op>,
    /// run from a thread-local destructor registered before / after everything else
    pub late_a: Vec<Op>,
    pub late_b: Vec<Op>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Phase {
    pub threads: Vec<Thr>,
    /// run this often, with new threads every time
    #[serde(default)]
    pub repeat: usize,
    pub sched: Sched,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Scen {
    pub prop: String,
    pub seed: u64,
    pub hash_seed: u64,
    pub phases: Vec<Phase>,
    pub inner: Vec<Op>,
    pub chans: usize,
}
impl Scen {
    pub fn ops(&self) -> impl Iterator<Item = &Op> {
        self.phases.iter().flat_map(|p| &p.threads).flat_map(|t| t.ops.iter().chain(&t.late_a).chain(&t.late_b)).chain(&self.inner)
    }
    pub fn each_list_mut(&mut self, mut f: impl FnMut(&mut Vec<Op>)) {
        for p in &mut self.phases {
            for t in &mut p.threads {
                f(&mut t.ops);
                f(&mut t.late_a);
                f(&mut t.late_b);
            }
        }
    }
}

pub struct Zoo {
    pub model: Model,
    pub groups: BTreeMap<usize, Vec<usize>>,
    pub with_tag: BTreeMap<String, Vec<usize>>,
    pub from: Vec<usize>,
    pub disp: Vec<usize>,
    /// types with a site of this kind
    pub with_site: BTreeMap<u8, Vec<usize>>,
    pub ncases: usize,
    pub patterns: Vec<String>,
    pub decls: Vec<String>,
    /// per declaration and derive: the expansion in a process that did nothing else
    pub expansions: Vec<Vec<String>>,
}
impl Zoo {
    pub fn load() -> Zoo {
        let model = Model::load(zoo::MODEL);
        let mut groups: BTreeMap<usize, Vec<usize>> = BTreeMap::new();
        let mut with_tag: BTreeMap<String, Vec<usize>> = BTreeMap::new();
        let mut with_site: BTreeMap<u8, Vec<usize>> = BTreeMap::new();
        let (mut from, mut disp) = (vec![], vec![]);
        for (i, t) in model.types.iter().enumerate() {
            if !t.from && !t.disp {
                continue; // left out of this zoo
            }
            if t.patonly {
                with_tag.entry("patonly".into()).or_default().push(i);
                continue;
            }
            groups.entry(t.group).or_default().push(i);
            for g in &t.tags {
                with_tag.entry(g.clone()).or_default().push(i);
            }
            if t.from {
                from.push(i)
            }
            if t.disp {
                disp.push(i)
            }
            let mut ks: Vec<u8> = model.sites(i).iter().map(|s| s.0).collect();
            ks.dedup();
            for k in ks {
                let v = with_site.entry(k).or_default();
                if v.last() != Some(&i) {
                    v.push(i)
                }
            }
        }
        let mut w: Vec<usize> = vec![];
        for t in &model.types {
            let v = t.vars.iter().map(|v| 10 + v.pat.as_ref().map_or(0, |p| p.size()) + v.fields.iter().map(|f| ty_weight(f, &w)).sum::<usize>()).sum::<usize>();
            w.push(v.min(1_000_000));
        }
        let _ = WEIGHT.set(w);
        Zoo { model, groups, with_tag, from, disp, with_site, ncases: zoo::cases().len(), patterns: vec![], decls: vec![], expansions: vec![] }
    }
    fn tag<'a>(&'a self, t: &str) -> &'a [usize] {
        self.with_tag.get(t).map_or(&self.from[..], |v| &v[..])
    }
}

pub struct Gen<'a> {
    pub z: &'a Zoo,
    pub r: Rng,
    /// texts of this history, to be used again: by the same type or another
    recent: Vec<String>,
}
#[derive(Clone, Default)]
struct Mix {
    /// probability that an operation carries a fault of this kind
    conv: f64,
    conv_panic: f64,
    new: f64,
    def: f64,
    pat: f64,
    fmt: f64,
    sink: f64,
    stall: f64,
    sleep: f64,
    reenter: f64,
    refuse: f64,
    /// weights: parse, show, pat, jshow, jparse, case
    w: [f64; 6],
}
const BAD: &[&str] = &["(", "[a", "a{2,1}", "(?<n>x)", "*", "(?P<value_1>.)", "x)(", "\\", "(?z)",
    // what other dialects allow
    "\\1", "\\07", "(?=a)", "(?<!a)b", "[b-a]", "\\x{110000}", "x{99999999999}", "(?i", "(?ii:a)", "a{1", "(?P=n)", "\\k<n>", "a{,2}{",
    // well formed, but no regex can be built from them
    "\\p{NoSuchClass}", "(?:(?:a{1000}){1000}){1000}", "(?P<n>a)(?P<n>b)", "\\b{nope}"];
impl<'a> Gen<'a> {
    fn kind_sites(&self, ty: usize, k: u8) -> Vec<u32> {
        self.z.model.sites(ty).into_iter().filter(|s| s.0 == k).map(|s| s.1).collect()
    }
    fn fault(&mut self, sites: &[u32], kind: u8, act: Act, plan: &mut Vec<Fault>) {
        if sites.is_empty() {
            return;
        }
        let id = *self.r.pick(sites);
        if plan.iter().any(|f| f.kind == kind && f.id == id && f.act.terminal()) {
            return; // one way to fail per site
        }
        let nth = if self.r.p(0.7) { 0 } else { self.r.range(1, 4) as u32 };
        plan.push(Fault { kind, id, nth, act });
    }
    fn sink(&mut self, full: usize, faulty: bool, io_ok: bool) -> Sink {
        let mut s = Sink { kind: if io_ok && self.r.p(0.4) { 1 } else { 0 }, sticky: true, ..Default::default() };
        if self.r.p(0.25) {
            s.spec = self.r.range(1, 8) as u8;
        }
        if s.kind == 1 {
            if self.r.p(0.7) {
                s.short = *self.r.pick(&[1, 1, 2, 3, 7]);
            }
            if self.r.p(0.5) {
                s.intr = self.r.range(2, 4) as u32;
            }
        }
        if faulty {
            s.limit = Some(if self.r.p(0.06) { full + self.r.below(3) } else { self.r.below(full.max(1)) });
            s.torn = self.r.p(0.5);
            s.sticky = self.r.p(0.5);
            s.mode = self.r.below(3) as u8;
        } else if s.kind == 0 && self.r.p(0.3) {
            s.kind = 2;
        }
        s
    }
    fn sched(&mut self, nthreads: usize, concurrency: bool) -> Sched {
        let r = &mut self.r;
        let policy = if nthreads <= 1 {
            POL_SERIAL
        } else if concurrency {
            *r.pick(&[POL_GEOM, POL_GEOM, POL_GEOM, POL_PCT, POL_PCT, POL_CB, POL_SERIAL])
        } else {
            *r.pick(&[POL_GEOM, POL_CB, POL_SERIAL])
        };
        let mean = (2.0f64).powf(1.0 + r.f() * 13.0);
        let npct = r.range(1, 5) as i32;
        let pct_len = *r.pick(&[2000, 10_000, 40_000, 150_000]);
        let cb_p = *r.pick(&[0.05, 0.2, 0.5, 0.9]);
        let spur_p = if r.p(0.4) { *r.pick(&[0.001, 0.02, 0.2]) } else { 0.0 };
        let seed = r.u64();
        Sched {
            policy,
            seed,
            mean,
            cb_p,
            spur_p,
            npct,
            pct_len,
            max_preempt: *r.pick(&[3, 20, 400, 4000]),
            count_alloc: r.p(0.7),
            count_mem: r.p(0.6),
        }
    }
    fn focus(&mut self, pool: &[usize], n: usize) -> Vec<usize> {
        (0..n).map(|_| *self.r.pick(pool)).collect()
    }
    fn probes(&mut self, ty: usize) -> Vec<String> {
        let n = self.r.range(2, 5);
        (0..n).map(|_| self.z.model.gen_input(ty, &mut self.r)).collect()
    }
    fn op(&mut self, focus: &[usize], m: &Mix, inner: usize) -> Op {
        let mut t = self.r.f() * m.w.iter().sum::<f64>();
        let mut k = 0;
        while k < 5 && t >= m.w[k] {
            t -= m.w[k];
            k += 1;
        }
        let ty = *self.r.pick(focus);
        BIG.set(self.r.p(0.0015));
        let model = &self.z.model;
        if model.types[ty].patonly {
            k = 2
        }
        let refuse = self.r.p(m.refuse);
        let mut plan = vec![];
        match k {
            0 => {
                let text = if !self.recent.is_empty() && self.r.p(0.2) {
                    self.r.pick(&self.recent).clone()
                } else {
                    model.gen_input(ty, &mut self.r)
                };
                if text.len() < 100 && self.recent.len() < 12 {
                    self.recent.push(text.clone());
                }
                self.parse_plan(ty, m, inner, &mut plan);
                Op::Parse { ty, text, plan }
            }
            1 => {
                let v = model.gen_val(ty, &mut self.r);
                let full = model.display_text(ty, &v).len();
                let sites = self.kind_sites(ty, SITE_FMT);
                self.fmt_plan(&sites, m, inner, &mut plan);
                let bad_fmt = plan.iter().any(|f| f.kind == SITE_FMT && f.act.terminal());
                let bad = self.r.p(m.sink);
                let mut sink = self.sink(full, bad, !bad_fmt && !refuse);
                if (bad_fmt || refuse) && sink.kind == 2 {
                    sink.kind = 0
                }
                self.sink_plan(m, inner, &sink, &mut plan);
                Op::Show { ty, v, sink, plan, refuse }
            }
            2 => {
                let s = self.kind_sites(ty, SITE_PAT);
                if self.r.p(m.pat) {
                    self.pat_fault(&s, &mut plan);
                }
                let probes = self.probes(ty);
                Op::Pat { ty, probes, plan }
            }
            3 | 4 => {
                let j = self.r.below(zoo::JOINS.len());
                let j = if k == 4 && zoo::JOINS[j].parse.is_none() { 0 } else { j };
                self.join_op(j, k == 3, m, inner, refuse)
            }
            _ => {
                let i = self.r.below(self.z.ncases);
                let full = self.z_case_len(i);
                let bad = self.r.p(m.sink);
                let mut sink = self.sink(full, bad, !refuse);
                if refuse && sink.kind == 2 {
                    sink.kind = 0
                }
                Op::Case { i, sink, refuse }
            }
        }
    }
    fn z_case_len(&self, i: usize) -> usize {
        zoo::cases()[i].expect.len()
    }
    fn pat_fault(&mut self, s: &[u32], plan: &mut Vec<Fault>) {
        let a = if self.r.p(0.6) { Act::Panic(0) } else { Act::Bad(self.r.pick(BAD).to_string()) };
        self.fault(s, SITE_PAT, a, plan);
    }
    fn soft(&mut self, m: &Mix, inner: usize, sites: &[(u8, u32)], plan: &mut Vec<Fault>) {
        if sites.is_empty() {
            return;
        }
        let (k, id) = *self.r.pick(sites);
        let act = if self.r.p(m.stall) {
            Act::Stall
        } else if self.r.p(m.sleep) {
            Act::Sleep(*self.r.pick(&[1_000, 50_000, 1_000_000, 1_000_000_000]))
        } else if inner > 0 && k != SITE_PAT && self.r.p(m.reenter) {
            Act::Reenter(self.r.below(inner))
        } else {
            return;
        };
        let nth = if self.r.p(0.5) { 0 } else { self.r.range(1, 3) as u32 };
        plan.push(Fault { kind: k, id, nth, act });
    }
    fn parse_plan(&mut self, ty: usize, m: &Mix, inner: usize, plan: &mut Vec<Fault>) {
        let conv = self.kind_sites(ty, SITE_CONV);
        if self.r.p(m.conv) {
            for _ in 0..self.r.range(1, 2) {
                self.fault(&conv, SITE_CONV, Act::Err(0), plan);
            }
        }
        if self.r.p(m.conv_panic) {
            self.fault(&conv, SITE_CONV, Act::Panic(0), plan);
        }
        if self.r.p(m.new) {
            let s = self.kind_sites(ty, SITE_NEW);
            let a = if self.r.p(0.8) { Act::Err(0) } else { Act::Panic(0) };
            self.fault(&s, SITE_NEW, a, plan);
        }
        if self.r.p(m.def) {
            let s = self.kind_sites(ty, SITE_DEF);
            self.fault(&s, SITE_DEF, Act::Panic(0), plan);
        }
        if self.r.p(m.pat) {
            let s = self.kind_sites(ty, SITE_PAT);
            self.pat_fault(&s, plan);
        }
        let all: Vec<(u8, u32)> = self.z.model.sites(ty).into_iter().filter(|s| s.0 != SITE_FMT).collect();
        self.soft(m, inner, &all, plan);
    }
    fn fmt_plan(&mut self, sites: &[u32], m: &Mix, inner: usize, plan: &mut Vec<Fault>) {
        if self.r.p(m.fmt) {
            let n = self.r.below(8);
            let a = if self.r.p(0.65) { Act::Err(n) } else { Act::Panic(n) };
            self.fault(sites, SITE_FMT, a, plan);
        }
        let all: Vec<(u8, u32)> = sites.iter().map(|s| (SITE_FMT, *s)).collect();
        self.soft(m, inner, &all, plan);
    }
    fn sink_plan(&mut self, m: &Mix, inner: usize, sink: &Sink, plan: &mut Vec<Fault>) {
        if sink.kind == 2 {
            return;
        }
        if self.r.p(m.sink * 0.25) {
            let a = if self.r.p(0.5) { Act::Panic(0) } else { Act::Err(0) };
            plan.push(Fault { kind: SITE_SINK, id: 0, nth: self.r.range(1, 8) as u32, act: a });
        }
        self.soft(m, inner, &[(SITE_SINK, 0)], plan);
    }
    fn delim(&mut self) -> String {
        self.r.pick(&[",", ";", "-", "::", "|", ", ", "é", "\n", " ", "ab", "=", "<>", "aa", ".", "--", "", "\\", "日本"]).to_string()
    }
    fn join_op(&mut self, j: usize, show: bool, m: &Mix, inner: usize, refuse: bool) -> Op {
        let jo = &zoo::JOINS[j];
        let delim = self.delim();
        let (ety, with, sites) = join_model(jo.item);
        let vty = Ty::Vec { e: Box::new(ety.clone()) };
        let mut v = self.z.model.gen_ty(&vty, Some(&with), &mut self.r);
        if let V::Q(x) = &mut v {
            if jo.parse.is_none() {
                while x.len() < 3 {
                    x.push(V::l("0"));
                }
                x.truncate(3);
            }
        }
        let jw = With::Join { item: Box::new(with), delim: delim.clone() };
        let mut d = Disp::new(&[]);
        let _ = self.z.model.disp_with(&vty, &v, &Some(jw), &mut d);
        let mut plan = vec![];
        if show {
            self.fmt_plan(&sites, m, inner, &mut plan);
            if self.r.p(m.fmt) {
                if let Some(f) = plan.first_mut() {
                    f.nth = self.r.range(1, 5) as u32;
                }
            }
            let bad_fmt = plan.iter().any(|f| f.kind == SITE_FMT && f.act.terminal());
            let bad = self.r.p(m.sink);
            let mut sink = self.sink(d.text.len(), bad, !bad_fmt && !refuse);
            if (bad_fmt || refuse) && sink.kind == 2 {
                sink.kind = 0
            }
            self.sink_plan(m, inner, &sink, &mut plan);
            Op::JShow { j, v, delim, sink, plan, refuse }
        } else {
            let mut text = d.text;
            if self.r.p(0.35) {
                mutate(&mut text, &mut self.r);
            }
            if self.r.p(m.conv) {
                self.fault(&sites, SITE_CONV, Act::Err(0), &mut plan);
                if self.r.p(0.6) {
                    plan.last_mut().unwrap().nth = self.r.range(1, 5) as u32;
                }
            }
            if self.r.p(m.conv_panic) {
                self.fault(&sites, SITE_CONV, Act::Panic(0), &mut plan);
                if self.r.p(0.6) {
                    plan.last_mut().unwrap().nth = self.r.range(1, 5) as u32;
                }
            }
            let all: Vec<(u8, u32)> = sites.iter().map(|s| (SITE_CONV, *s)).collect();
            self.soft(m, inner, &all, &mut plan);
            Op::JParse { j, text, delim, plan }
        }
    }
    fn threads(&mut self, n: usize, ops: (usize, usize), focus: &[usize], m: &Mix, inner: usize) -> Vec<Thr> {
        (0..n)
            .map(|_| {
                let k = self.r.range(ops.0, ops.1);
                Thr { ops: (0..k).map(|_| self.op(focus, m, inner)).collect(), ..Default::default() }
            })
            .collect()
    }
    /// A long life: one or two operations many hundred or thousand times, other operations after.
    fn long(&mut self, th: &mut [Thr], p: f64, focus: &[usize], m: &Mix) {
        if !self.r.p(p) {
            return;
        }
        let t = self.r.below(th.len());
        let n = (2.0f64).powf(5.0 + self.r.f() * 7.5) as usize;
        let nb = *self.r.pick(&[1, 1, 1, 2]);
        let body: Vec<Op> = (0..nb)
            .map(|_| match th[t].ops.is_empty() || self.r.p(0.6) {
                true => self.op(focus, m, 0),
                false => self.r.pick(&th[t].ops).clone(),
            })
            .collect();
        let ty = body[0].ty();
        for _ in 0..self.r.range(1, 4) {
            let f: Vec<usize> = match ty {
                Some(x) if self.r.p(0.8) => vec![x],
                _ => focus.to_vec(),
            };
            let o = self.op(&f, m, 0);
            let k = self.r.below(th.len());
            th[if self.r.p(0.7) { t } else { k }].ops.push(o);
        }
        let at = if self.r.p(0.7) { 0 } else { self.r.below(th[t].ops.len()) };
        let n = n.min(VOLUME / volume(&body)).max(2);
        th[t].ops.insert(at, Op::Loop { n, body, vary: false });
    }
    /// Operations on a great many different types.
    fn wide(&mut self, pool: &[usize], m: &Mix) -> Vec<Op> {
        let n = *self.r.pick(&[20, 40, 80, 160, 400]);
        let mut p = pool.to_vec();
        for i in 0..p.len() {
            let j = self.r.range(i, p.len() - 1);
            p.swap(i, j);
        }
        p.truncate(n);
        p.iter().map(|t| self.op(&[*t], m, 0)).collect()
    }
    /// Operations that follow up on a failed one: same type, same argument, no faults.
    fn follow_ups(&mut self, th: &mut Vec<Thr>, p: f64) {
        let mut extra: Vec<(usize, Op)> = vec![];
        let n = th.len();
        for (t, x) in th.iter().enumerate() {
            for o in &x.ops {
                if !o.plan().is_empty() && self.r.p(p) {
                    let mut o = o.clone();
                    if let Some(p) = o.plan_mut() {
                        p.clear()
                    }
                    if let Op::Show { sink, .. } | Op::JShow { sink, .. } = &mut o {
                        *sink = Sink { sticky: true, ..Default::default() };
                    }
                    extra.push((if self.r.p(0.5) { t } else { self.r.below(n) }, o));
                }
            }
        }
        for (t, o) in extra {
            th[t].ops.push(o);
        }
    }
    pub fn scen(z: &'a Zoo, prop: &str, seed: u64) -> Scen {
        let mut g = Gen { z, r: Rng::new(seed ^ fnv(prop.as_bytes())), recent: vec![] };
        let hash_seed = g.r.u64();
        let mut phases = vec![];
        let mut inner_ops = vec![];
        let mut chans = 0;
        match prop {
            "C01" => {
                let m = Mix { sink: 0.85, sleep: 0.1, w: [0.0, 6.0, 0.0, 2.0, 0.0, 2.0], ..Default::default() };
                let f = g.focus(&z.disp, 5);
                let n = g.r.range(1, 3);
                let mut th = g.threads(n, (2, 8), &f, &m, 0);
                g.long(&mut th, 0.03, &f, &m);
                phases.push(Phase { sched: g.sched(n, false), threads: th, repeat: 0 });
            }
            "C02" => {
                let m = Mix { fmt: 0.85, sink: 0.06, sleep: 0.05, w: [0.0, 7.0, 0.0, 2.0, 0.0, 0.3], ..Default::default() };
                let pool = z.with_site.get(&SITE_FMT).unwrap_or(&z.disp).clone();
                let f = g.focus(&pool, 4);
                let n = g.r.range(1, 3);
                let mut th = g.threads(n, (2, 6), &f, &m, 0);
                g.follow_ups(&mut th, 0.7);
                g.long(&mut th, 0.03, &f, &m);
                phases.push(Phase { sched: g.sched(n, false), threads: th, repeat: 0 });
            }
            "C03" => {
                let m = Mix { refuse: 0.95, sink: 0.1, sleep: 0.05, w: [0.3, 7.0, 0.0, 2.0, 0.0, 3.0], ..Default::default() };
                let f = g.focus(&z.disp, 6);
                let n = g.r.range(1, 4);
                let mut th = g.threads(n, (3, 10), &f, &m, 0);
                g.long(&mut th, 0.03, &f, &m);
                phases.push(Phase { sched: g.sched(n, false), threads: th, repeat: 0 });
            }
            "C04" => {
                let m = Mix {
                    conv: 0.08,
                    new: 0.03,
                    sleep: 0.08,
                    w: [10.0, 0.7, 0.5, 0.0, 0.0, 0.0],
                    ..Default::default()
                };
                let k = *g.r.pick(&[1, 1, 1, 2, 2, 3]);
                let pool = if g.r.p(0.05) { z.tag("same") } else { &z.from[..] };
                let f = g.focus(pool, k);
                let n = *g.r.pick(&[2, 2, 2, 3, 3, 4, 5, 6]);
                let mut th = g.threads(n, (1, 4), &f, &m, 0);
                g.long(&mut th, 0.01, &f, &m);
                phases.push(Phase { sched: g.sched(n, true), threads: th, repeat: 0 });
            }
            "C05" => {
                let m = Mix { pat: 0.5, conv: 0.03, sleep: 0.1, w: [10.0, 0.3, 1.5, 0.0, 0.0, 0.0], ..Default::default() };
                let pool = z.with_site.get(&SITE_PAT).unwrap_or(&z.from).clone();
                let k = *g.r.pick(&[1, 1, 1, 2]);
                let f = g.focus(&pool, k);
                let n = *g.r.pick(&[1, 2, 2, 3, 3, 4]);
                let mut th = g.threads(n, (1, 4), &f, &m, 0);
                g.follow_ups(&mut th, 0.6);
                g.long(&mut th, 0.03, &f, &m);
                phases.push(Phase { sched: g.sched(n, true), threads: th, repeat: 0 });
            }
            "C06" => {
                let im = Mix { conv: 0.1, fmt: 0.1, sink: 0.1, w: [6.0, 3.0, 1.0, 0.5, 0.5, 0.5], ..Default::default() };
                let k = g.r.range(1, 3);
                let mut f = g.focus(&z.from, k);
                if g.r.p(0.5) {
                    let k = *g.r.pick(&[SITE_CONV, SITE_NEW, SITE_DEF, SITE_PAT]);
                    if let Some(p) = z.with_site.get(&k) {
                        let x = *g.r.pick(p);
                        f.push(x)
                    }
                }
                let ni = g.r.range(1, 4);
                for _ in 0..ni {
                    let mut o = g.op(&f, &im, 0);
                    if let Op::Show { sink, .. } | Op::JShow { sink, .. } = &mut o {
                        if sink.kind == 2 {
                            sink.kind = 0
                        }
                    }
                    inner_ops.push(o);
                }
                let m = Mix {
                    stall: 0.55,
                    sleep: 0.1,
                    reenter: 0.75,
                    conv: 0.05,
                    w: [8.0, 3.0, 0.7, 0.5, 0.5, 0.2],
                    ..Default::default()
                };
                let n = *g.r.pick(&[1, 2, 2, 3, 3, 4]);
                let mut th = g.threads(n, (1, 4), &f, &m, ni);
                g.long(&mut th, 0.01, &f, &m);
                phases.push(Phase { sched: g.sched(n, true), threads: th, repeat: 0 });
            }
            "C07" => {
                let m = Mix { conv: 0.7, conv_panic: 0.1, new: 0.35, def: 0.08, sleep: 0.03, w: [10.0, 0.3, 0.0, 0.0, 1.0, 0.0], ..Default::default() };
                let f = g.focus(&z.from, 4);
                let n = g.r.range(1, 3);
                let mut th = g.threads(n, (2, 8), &f, &m, 0);
                g.follow_ups(&mut th, 0.15);
                g.long(&mut th, 0.03, &f, &m);
                phases.push(Phase { sched: g.sched(n, false), threads: th, repeat: 0 });
            }
            "C08" => {
                let m = Mix {
                    conv: 0.12,
                    conv_panic: 0.05,
                    new: 0.08,
                    def: 0.04,
                    pat: 0.12,
                    fmt: 0.12,
                    sink: 0.12,
                    sleep: 0.03,
                    refuse: 0.05,
                    w: [9.0, 3.0, 1.5, 0.5, 0.5, 0.2],
                    ..Default::default()
                };
                let k = g.r.range(1, 4);
                let en = z.tag("enum").to_vec();
                let exact = z.tag("exact").to_vec();
                let odd = z.tag("odd").to_vec();
                let same = z.tag("same").to_vec();
                let pool = if g.r.p(0.08) { &same } else if g.r.p(0.5) { &en } else if g.r.p(0.2) { &exact } else if g.r.p(0.15) { &odd } else { &z.from };
                let f = g.focus(pool, k);
                let wide = g.r.p(0.01);
                for _ in 0..g.r.range(1, 3) {
                    let n = g.r.range(1, 3);
                    let mut th = g.threads(n, (1, 6), &f, &m, 0);
                    if wide {
                        let o = g.wide(&z.from, &m);
                        th[0].ops.extend(o);
                    }
                    for t in &mut th {
                        if g.r.p(0.3) {
                            for _ in 0..g.r.range(1, 3) {
                                let o = g.op(&f, &m, 0);
                                if g.r.p(0.5) { t.late_a.push(o) } else { t.late_b.push(o) }
                            }
                        }
                    }
                    g.long(&mut th, 0.03, &f, &m);
                    phases.push(Phase { sched: g.sched(n, false), threads: th, repeat: 0 });
                }
            }
            "C09" => {
                let m = Mix { conv: 0.08, pat: 0.05, fmt: 0.03, sleep: 0.03, w: [8.0, 2.5, 2.0, 0.0, 0.0, 0.0], ..Default::default() };
                let gs: Vec<&Vec<usize>> = z.groups.values().filter(|v| v.len() > 1).collect();
                let mut f = vec![];
                if gs.is_empty() {
                    f = g.focus(&z.from, 2);
                } else {
                    for _ in 0..*g.r.pick(&[1, 1, 2]) {
                        f.extend(g.r.pick(&gs).iter());
                    }
                }
                let np = g.r.range(1, 2);
                for _ in 0..np {
                    let n = *g.r.pick(&[1, 2, 2, 3, 4]);
                    let mut th = g.threads(n, (2, 5), &f, &m, 0);
                    g.long(&mut th, 0.03, &f, &m);
                    phases.push(Phase { sched: g.sched(n, true), threads: th, repeat: 0 });
                }
            }
            "C10" => {
                let pool: Vec<usize> = z.from.iter().copied().filter(|t| z.disp.contains(t)).collect();
                let n = g.r.range(2, 5);
                let mut th: Vec<Thr> = (0..n).map(|_| Thr::default()).collect();
                for _ in 0..g.r.range(2, 9) {
                    let ty = *g.r.pick(&pool);
                    BIG.set(g.r.p(0.002));
                    let mut v = z.model.gen_val(ty, &mut g.r);
                    for _ in 0..6 {
                        if z.model.one_reading(ty, &z.model.display_text(ty, &v), &v) {
                            break;
                        }
                        v = z.model.gen_val(ty, &mut g.r);
                    }
                    let full = z.model.display_text(ty, &v).len();
                    let mut tx = vec![];
                    for _ in 0..g.r.below(3) {
                        let lost = g.r.p(0.4);
                        tx.push(Tx {
                            delay: if g.r.p(0.3) { 10_000 } else { 0 },
                            fail: if lost || full == 0 { None } else { Some(g.r.below(full)) },
                            lost,
                        });
                    }
                    let copies = if g.r.p(0.3) { 2 } else { 1 };
                    for _ in 0..copies {
                        tx.push(Tx { delay: if g.r.p(0.3) { 10_000 } else { 0 }, fail: None, lost: false });
                    }
                    // senders before receivers on each thread's order of channels, so that a
                    // thread never waits for something it would itself send later
                    let a = g.r.below(n);
                    let b = (a + 1 + g.r.below(n - 1)) % n;
                    th[a].ops.push(Op::Send { ty, v: v.clone(), chan: chans, tx });
                    th[b].ops.push(Op::Recv { ty, v, chan: chans, copies });
                    chans += 1;
                }
                phases.push(Phase { sched: g.sched(n, true), threads: th, repeat: 0 });
            }
            "C11" => {
                let m = Mix {
                    conv: 0.6,
                    conv_panic: 0.1,
                    fmt: 0.45,
                    sink: 0.35,
                    sleep: 0.03,
                    w: [1.5, 1.0, 0.0, 4.0, 6.0, 0.0],
                    ..Default::default()
                };
                let pool = z.tag("join").to_vec();
                let f = g.focus(&pool, 3);
                let n = g.r.range(1, 3);
                let mut th = g.threads(n, (2, 8), &f, &m, 0);
                g.follow_ups(&mut th, 0.15);
                g.long(&mut th, 0.03, &f, &m);
                phases.push(Phase { sched: g.sched(n, false), threads: th, repeat: 0 });
            }
            "C12" => {
                let m = Mix { pat: 0.08, conv: 0.05, sleep: 0.03, w: [4.0, 0.3, 10.0, 0.0, 0.0, 0.0], ..Default::default() };
                let pool = if g.r.p(0.06) { z.tag("same") } else if g.r.p(0.4) { z.tag("infer") } else if g.r.p(0.1) { z.tag("exact") } else if g.r.p(0.15) { z.tag("odd") } else { &z.from }.to_vec();
                let k = g.r.range(1, 4);
                let mut f = g.focus(&pool, k);
                if g.r.p(0.25) {
                    let i = g.r.below(z.tag("patonly").len());
                    f.extend(z.tag("patonly").iter().cycle().skip(i).take(3));
                }
                let n = *g.r.pick(&[1, 2, 2, 3]);
                let mut th = g.threads(n, (2, 6), &f, &m, 0);
                g.long(&mut th, 0.03, &f, &m);
                phases.push(Phase { sched: g.sched(n, true), threads: th, repeat: 0 });
            }
            "C16" => {
                let m = Mix {
                    conv: 0.15,
                    new: 0.1,
                    def: 0.1,
                    pat: 0.1,
                    fmt: 0.15,
                    sink: 0.2,
                    w: [9.0, 3.0, 1.5, 1.0, 1.0, 1.0],
                    ..Default::default()
                };
                let pool = match g.r.below(6) {
                    0 => z.tag("join"),
                    1 => z.tag("generic"),
                    2 => z.with_site.get(&SITE_PAT).map_or(&z.from[..], |v| &v[..]),
                    _ => &z.from,
                }
                .to_vec();
                let k = g.r.range(1, 3);
                let f = g.focus(&pool, k);
                if g.r.p(0.4) {
                    let n = g.r.range(1, 3);
                    let th = g.threads(n, (1, 4), &f, &m, 0);
                    phases.push(Phase { sched: g.sched(n, true), threads: th, repeat: 0 });
                }
                let fresh = g.r.p(0.3);
                let mut th = g.threads(1, (0, 3), &f, &m, 0);
                if g.r.p(0.015) {
                    let m = Mix { w: [9.0, 1.0, 0.3, 0.0, 0.0, 0.0], ..Default::default() };
                    let body = g.wide(&z.from, &m);
                    let n = (VOLUME / volume(&body)).clamp(2, 24);
                    th[0].ops.push(Op::Loop { n, body, vary: false });
                } else { for _ in 0..g.r.range(1, 2) {
                    let nb = *g.r.pick(&[1, 1, 2, 4]);
                    let mut body: Vec<Op> = (0..nb).map(|_| g.op(&f, &m, 0)).collect();
                    for _ in 0..20 {
                        if volume(&body) <= VOLUME / 24 {
                            break;
                        }
                        body = vec![g.op(&f, &m, 0)];
                    }
                    let n = if fresh { 1 } else { *g.r.pick(&[24, 24, 40, 100, 300]) }.min((VOLUME / volume(&body)).max(1));
                    let vary = !fresh && g.r.p(0.5);
                    for o in &mut body {
                        if let (true, Op::Parse { text, .. } | Op::JParse { text, .. }) = (vary && g.r.p(0.8), o) {
                            let at: Vec<usize> = text.char_indices().map(|x| x.0).chain([text.len()]).collect();
                            text.insert_str(*g.r.pick(&at), MARK);
                        }
                    }
                    th[0].ops.push(Op::Loop { n, body, vary });
                } }
                phases.push(Phase { sched: g.sched(1, false), threads: th, repeat: if fresh { 32 } else { 0 } });
            }
            "C13" => {
                let k = g.r.range(1, 8);
                let mut f: Vec<usize> = (0..k).map(|_| g.r.below(z.decls.len())).collect();
                if g.r.p(0.5) {
                    f.push(z.decls.len() - 1 - g.r.below(86.min(z.decls.len()))); // hand-written ones, rejected ones among them
                }
                if g.r.p(0.6) {
                    // siblings: the same names, other attributes or types
                    for i in 0..f.len() {
                        if g.r.p(0.6) && f[i] ^ 1 < z.decls.len() {
                            f.push(f[i] ^ 1);
                        }
                    }
                }
                for _ in 0..g.r.range(1, 2) {
                    let n = *g.r.pick(&[1, 1, 2, 3, 4]);
                    let mut th: Vec<Thr> = (0..n)
                        .map(|_| {
                            let k = g.r.range(1, 6);
                            Thr { ops: (0..k).map(|_| Op::Expand { d: *g.r.pick(&f), which: g.r.below(z.expansions[0].len()) }).collect(), ..Default::default() }
                        })
                        .collect();
                    if g.r.p(0.02) {
                        let body = th[0].ops.clone();
                        let n = (2.0f64).powf(4.0 + g.r.f() * 5.0) as usize / body.len();
                        th[0].ops.insert(0, Op::Loop { n: n.max(2), body, vary: false });
                    }
                    phases.push(Phase { sched: g.sched(n, true), threads: th, repeat: 0 });
                }
            }
            _ => panic!("unknown property {prop}"),
        }
        Scen { prop: prop.into(), seed, hash_seed, phases, inner: inner_ops, chans }
    }
}
/// Element type, element format and callback sites of a direct list.
pub fn join_model(i: JoinItem) -> (Ty, With, Vec<u32>) {
    match i {
        JoinItem::Fld(id) => (Ty::Fld { id }, With::Fmt, vec![id]),
        JoinItem::Num(id) => (Ty::Num { id }, With::Fmt, vec![id]),
        JoinItem::W(id) => {
            let s = wspec(id);
            (Ty::Fld { id: 90003 }, With::W { id, pre: s.pre.into(), post: s.post.into() }, vec![id])
        }
        JoinItem::List(id) => (
            Ty::Vec { e: Box::new(Ty::Fld { id }) },
            With::Join { item: Box::new(With::Fmt), delim: ",".into() },
            vec![id],
        ),
    }
}
