//! Executes one scenario in this (forked) process and judges it.
use crate::scen::*;
use pdcore::leaf::*;
use pdcore::model::*;
use pdcore::rt::*;
use serde::{Deserialize, Serialize};
use std::fmt::{self, Write as _};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub const MAXPH: usize = 4;
pub const EVCAP: usize = 1 << 15;
pub const VCAP: usize = 1 << 18;
/// Shared with the worker that forked this process.
#[repr(C)]
pub struct Shm {
    pub phase: i64,
    pub cur: [i64; 17],
    pub nev: [i64; MAXPH],
    pub vlen: i64,
    pub verdict: [u8; VCAP],
    pub ev: [[Ev; EVCAP]; MAXPH],
}
#[derive(Serialize, Deserialize, Debug, Clone, Default)]
pub struct Verdict {
    /// (class of violation, description)
    pub viol: Option<(String, String)>,
    pub nviol: usize,
    pub ops: Vec<(String, u64)>,
    pub fired: Vec<(String, u64)>,
    pub checked: u64,
    pub skipped: u64,
    pub digest: u64,
    pub sig: u64,
    pub steps: i64,
    pub switches: i64,
    pub preempts: i64,
    pub sim_ns: i64,
    pub spurious: i64,
    pub eintr: i64,
    pub waits: i64,
    pub hash_keys: i64,
    pub refusals_survived: i64,
    pub stalls: i64,
    pub overlaps: u64,
}

#[derive(Clone, Debug, PartialEq)]
enum Pan {
    Sim(u8, u32),
    Msg(String),
}
#[derive(Clone, Debug, PartialEq)]
enum Out_ {
    Parse(Result<V, String>),
    Show(bool),
    Pat(String),
    JParse(Result<V, LeafErr>),
    Send(Vec<bool>),
    Recv(Vec<Result<V, String>>),
    Text(String),
    None,
}
struct Res {
    out: Out_,
    pan: Option<Pan>,
    buf: Vec<u8>,
    refused: i64,
    log: Vec<LogE>,
    fired: Vec<(u8, u32, &'static str)>,
    start: i64,
    end: i64,
    inner: Vec<(usize, Res)>,
    /// bytes held by the code under test afterwards
    live: i64,
    /// bytes requested by this operation
    total: i64,
}
struct POp<'a> {
    op: &'a Op,
    val: Option<Box<dyn AnyVal>>,
    list: Option<Box<dyn AnyList>>,
}
struct PThr<'a> {
    lists: [Vec<POp<'a>>; 3],
    res: [Vec<Res>; 3],
}
#[derive(Default)]
struct Chan {
    /// complete transmissions not yet taken
    ready: Vec<String>,
    part: String,
    fragments: u64,
}
struct Run<'a> {
    zoo: &'a Zoo,
    scen: &'a Scen,
    cases: Vec<Case>,
    inner: Vec<POp<'a>>,
    phases: Vec<Vec<PThr<'a>>>,
    chans: Vec<Chan>,
    phase: usize,
    shm: *mut Shm,
    inner_depth: [u32; 17],
    inner_count: [u32; 17],
    fatal_done: bool,
    extra: Option<(String, String)>,
}
static mut RUN: *mut Run<'static> = std::ptr::null_mut();
#[allow(static_mut_refs)]
fn run() -> &'static mut Run<'static> {
    unsafe { &mut *RUN }
}
static mut PANIC_MSG: [Option<String>; 17] = [const { None }; 17];
#[allow(static_mut_refs)]
fn panic_msg() -> &'static mut Option<String> {
    unsafe { &mut PANIC_MSG[(rt_tid() + 1) as usize] }
}

fn prep<'a>(op: &'a Op) -> POp<'a> {
    let mut p = POp { op, val: None, list: None };
    match op {
        Op::Show { ty, v, .. } | Op::Send { ty, v, .. } => p.val = Some((zoo::GEN[*ty].mk)(v)),
        Op::JShow { j, v, .. } => p.list = Some((zoo::JOINS[*j].prep)(v)),
        _ => {}
    }
    p
}

// ---- streams ------------------------------------------------------------------
struct SinkState {
    s: Sink,
    buf: Vec<u8>,
    failed: bool,
    calls: u32,
}
impl SinkState {
    fn new(s: &Sink) -> Self {
        SinkState { s: s.clone(), buf: Vec::with_capacity(4096), failed: false, calls: 0 }
    }
}
impl fmt::Write for SinkState {
    fn write_str(&mut self, p: &str) -> fmt::Result {
        match cb(SITE_SINK, 0, "") {
            Some(Act::Panic(_)) => throw(SITE_SINK, 0),
            Some(_) => {
                self.failed = true;
                return Err(fmt::Error);
            }
            None => {}
        }
        let _n = NoPreempt::new();
        if self.failed && self.s.sticky {
            return Err(fmt::Error);
        }
        if let Some(l) = self.s.limit {
            if !self.failed && self.buf.len() + p.len() > l {
                self.failed = true;
                if self.s.torn {
                    let k = l - self.buf.len();
                    self.buf.extend_from_slice(&p.as_bytes()[..k]);
                }
                return Err(fmt::Error);
            }
        }
        self.buf.extend_from_slice(p.as_bytes());
        Ok(())
    }
}
impl std::io::Write for SinkState {
    fn write(&mut self, p: &[u8]) -> std::io::Result<usize> {
        use std::io::{Error, ErrorKind};
        match cb(SITE_SINK, 0, "") {
            Some(Act::Panic(_)) => throw(SITE_SINK, 0),
            Some(_) => {
                self.failed = true;
                return Err(Error::from(ErrorKind::Other));
            }
            None => {}
        }
        let _n = NoPreempt::new();
        self.calls += 1;
        if self.failed && self.s.sticky {
            return Err(Error::from(ErrorKind::BrokenPipe));
        }
        if self.s.intr > 0 && self.calls % self.s.intr == 0 {
            return Err(Error::from(ErrorKind::Interrupted));
        }
        let mut n = p.len();
        if self.s.short > 0 {
            n = n.min(self.s.short);
        }
        if let Some(l) = self.s.limit {
            if !self.failed {
                if self.buf.len() >= l && n > 0 {
                    self.failed = true;
                    return match self.s.mode {
                        1 => Ok(0),
                        2 => Err(Error::from(ErrorKind::WouldBlock)),
                        _ => Err(Error::from(ErrorKind::Other)),
                    };
                }
                n = n.min(l - self.buf.len());
            }
        }
        self.buf.extend_from_slice(&p[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
struct ListShown<'a>(&'a dyn AnyList, &'a str);
impl fmt::Display for ListShown<'_> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        self.0.show(self.1, f)
    }
}
struct ChanSink<'a> {
    chan: usize,
    tx: &'a Tx,
    got: usize,
}
impl fmt::Write for ChanSink<'_> {
    fn write_str(&mut self, p: &str) -> fmt::Result {
        unsafe { rt_cb_point() };
        if self.tx.delay > 0 {
            unsafe { rt_sleep_ns(self.tx.delay) };
        }
        let _n = NoPreempt::new();
        let c = &mut run().chans[self.chan];
        let mut k = p.len();
        if let Some(l) = self.tx.fail {
            k = k.min(l - self.got.min(l));
            while !p.is_char_boundary(k) {
                k -= 1;
            }
        }
        c.part.push_str(&p[..k]);
        c.fragments += 1;
        self.got += p.len();
        if self.tx.fail.is_some_and(|l| self.got > l) {
            return Err(fmt::Error);
        }
        Ok(())
    }
}

// ---- running operations ------------------------------------------------------------
/// What a caller may ask for beside the text; the declared format leaves no room for it.
pub const SPECS: &[&str] = &["", ":>9", ":<40", ":*^7", ":.2", ":#", ":+", ":05", ":-^6.1"];
macro_rules! with_spec {
    ($k:expr, $d:expr, $plain:expr, |$a:ident| $e:expr) => {{
        match $k {
            1 => { let $a = format_args!("{:>9}", $d); $e }
            2 => { let $a = format_args!("{:<40}", $d); $e }
            3 => { let $a = format_args!("{:*^7}", $d); $e }
            4 => { let $a = format_args!("{:.2}", $d); $e }
            5 => { let $a = format_args!("{:#}", $d); $e }
            6 => { let $a = format_args!("{:+}", $d); $e }
            7 => { let $a = format_args!("{:05}", $d); $e }
            8 => { let $a = format_args!("{:-^6.1}", $d); $e }
            _ => $plain,
        }
    }};
}
fn show_to<D: fmt::Display>(d: &D, sink: &Sink, refuse: bool, st: &mut SinkState) -> bool {
    match sink.kind {
        2 => {
            let s = {
                let _p = Preempt::new();
                with_spec!(sink.spec, d, d.to_string(), |a| std::fmt::format(a))
            };
            st.buf.extend_from_slice(s.as_bytes());
            true
        }
        1 => {
            let _p = Preempt::new();
            if refuse {
                unsafe { rt_refuse(1) }
            }
            let r = with_spec!(sink.spec, d, std::io::Write::write_fmt(st, format_args!("{}", d)), |a| std::io::Write::write_fmt(st, a)).is_ok();
            unsafe { rt_refuse(0) };
            r
        }
        _ => {
            let _p = Preempt::new();
            if refuse {
                unsafe { rt_refuse(1) }
            }
            let r = with_spec!(sink.spec, d, write!(st, "{}", d), |a| fmt::Write::write_fmt(st, a)).is_ok();
            unsafe { rt_refuse(0) };
            r
        }
    }
}
fn exec(p: &POp, st: &mut Option<SinkState>) -> Out_ {
    match p.op {
        Op::Parse { ty, text, .. } => {
            let f = zoo::GEN[*ty].parse.unwrap();
            let _p = Preempt::new();
            let r = f(text);
            let _n = NoPreempt::new();
            Out_::Parse(r)
        }
        Op::Show { sink, refuse, .. } => {
            *st = Some(SinkState::new(sink));
            Out_::Show(show_to(&Shown(&**p.val.as_ref().unwrap()), sink, *refuse, st.as_mut().unwrap()))
        }
        Op::Case { i, sink, refuse } => {
            *st = Some(SinkState::new(sink));
            Out_::Show(show_to(&Shown(&*run().cases[*i].val), sink, *refuse, st.as_mut().unwrap()))
        }
        Op::JShow { delim, sink, refuse, .. } => {
            *st = Some(SinkState::new(sink));
            Out_::Show(show_to(&ListShown(&**p.list.as_ref().unwrap(), delim), sink, *refuse, st.as_mut().unwrap()))
        }
        Op::Pat { ty, .. } => {
            let f = zoo::GEN[*ty].pattern.unwrap();
            let _p = Preempt::new();
            let r = f();
            let _n = NoPreempt::new();
            Out_::Pat(r.clone()) // what is kept is the simulator's
        }
        Op::JParse { j, text, delim, .. } => {
            let f = zoo::JOINS[*j].parse.unwrap();
            let _p = Preempt::new();
            let r = f(delim, text);
            let _n = NoPreempt::new();
            Out_::JParse(r.clone())
        }
        Op::Send { chan, tx, .. } => {
            let val = p.val.as_ref().unwrap();
            let mut rs = vec![];
            for t in tx {
                run().chans[*chan].part.clear();
                let r = {
                    let mut s = ChanSink { chan: *chan, tx: t, got: 0 };
                    let _p = Preempt::new();
                    write!(s, "{}", Shown(&**val)).is_ok()
                };
                rs.push(r);
                let c = &mut run().chans[*chan];
                let fr = ctx().stack.last_mut().unwrap();
                if t.fail.is_some() {
                    fr.fired.push((b't', 0, "transmission_failed"));
                } else if t.lost {
                    fr.fired.push((b't', 0, "transmission_lost"));
                }
                if t.delay > 0 {
                    fr.fired.push((b't', 0, "transmission_delayed"));
                }
                if r && !t.lost {
                    let s = std::mem::take(&mut c.part);
                    c.ready.push(s);
                    unsafe { rt_wake_all(c as *const Chan as *const u8) };
                }
            }
            if tx.iter().filter(|t| t.fail.is_none() && !t.lost).count() > 1 {
                ctx().stack.last_mut().unwrap().fired.push((b't', 0, "transmission_repeated"));
            }
            Out_::Send(rs)
        }
        Op::Recv { ty, chan, copies, .. } => {
            let f = zoo::GEN[*ty].parse.unwrap();
            let mut rs = vec![];
            for _ in 0..*copies {
                let c = &mut run().chans[*chan];
                while c.ready.is_empty() {
                    if unsafe { rt_is_active() } == 0 {
                        return Out_::Recv(rs);
                    }
                    ctx().cur = 1; // waiting for a peer, not for the code under test
                    unsafe { rt_block_on(c as *const Chan as *const u8) };
                    ctx().cur = 0;
                }
                let s = c.ready.remove(0);
                let r = {
                    let _p = Preempt::new();
                    f(&s)
                };
                rs.push(r);
            }
            Out_::Recv(rs)
        }
        Op::Expand { d, which } => {
            let text = &run().zoo.decls[*d];
            let _p = Preempt::new();
            let r = expand(text, *which);
            let _n = NoPreempt::new();
            Out_::Text(r)
        }
        Op::Loop { .. } => unreachable!(),
    }
}
#[cfg(feature = "expand")]
pub fn expand(text: &str, which: usize) -> String {
    let ts: pdderive::PdTokens = text.parse().expect("tokens");
    (pdderive::PD_DERIVES[which].1)(ts).to_string()
}
#[cfg(feature = "expand")]
pub fn nderives() -> usize {
    pdderive::PD_DERIVES.len()
}
#[cfg(not(feature = "expand"))]
pub fn expand(_: &str, _: usize) -> String {
    String::new()
}
#[cfg(not(feature = "expand"))]
pub fn nderives() -> usize {
    0
}
fn run_op(p: &POp) -> Res {
    let _n = NoPreempt::new();
    let t = (unsafe { rt_tid() } + 1) as usize;
    let start = unsafe { rt_steps() };
    let total0 = unsafe { rt_total() };
    let refused0 = unsafe { rt_refused() };
    ctx().stack.push(Frame { plan: p.op.plan().to_vec(), ..Default::default() });
    let depth = ctx().stack.len();
    let saved: Vec<(usize, Res)> = std::mem::take(inner_of(t));
    let mut st = None;
    let r = catch_unwind(AssertUnwindSafe(|| exec(p, &mut st)));
    unsafe {
        rt_nopreempt_set(1);
        rt_refuse(0);
    }
    let fr = ctx().stack.pop().unwrap();
    if ctx().stack.len() + 1 != depth {
        run().extra = Some(("harness".into(), "frame stack out of step".into()));
    }
    let inner = std::mem::replace(inner_of(t), saved);
    let (out, pan) = match r {
        Ok(o) => (o, None),
        Err(e) => {
            let pan = match e.downcast::<SimPanic>() {
                Ok(s) => Pan::Sim(s.kind, s.id),
                Err(e) => Pan::Msg(match e.downcast_ref::<&str>() {
                    Some(s) => s.to_string(),
                    None => match e.downcast_ref::<String>() {
                        Some(s) => s.clone(),
                        None => panic_msg().clone().unwrap_or_else(|| "?".into()),
                    },
                }),
            };
            (Out_::None, Some(pan))
        }
    };
    Res {
        out,
        pan,
        buf: st.map_or(vec![], |s| s.buf),
        refused: unsafe { rt_refused() } - refused0,
        log: fr.log,
        fired: fr.fired,
        start,
        end: unsafe { rt_steps() },
        inner,
        live: unsafe { rt_live() },
        total: unsafe { rt_total() } - total0,
    }
}
static mut INNER: [Vec<(usize, Res)>; 17] = [const { vec![] }; 17];
#[allow(static_mut_refs)]
fn inner_of(t: usize) -> &'static mut Vec<(usize, Res)> {
    unsafe { &mut INNER[t] }
}
/// A callback asked for a nested operation.
fn run_inner(i: usize) {
    let _n = NoPreempt::new();
    let t = (unsafe { rt_tid() } + 1) as usize;
    let r = run();
    if r.inner_depth[t] >= 2 || r.inner_count[t] >= 12 || i >= r.inner.len() {
        return;
    }
    r.inner_depth[t] += 1;
    r.inner_count[t] += 1;
    let res = run_op(&run().inner[i]);
    inner_of(t).push((i, res));
    run().inner_depth[t] -= 1;
}
fn run_list(t: usize, l: usize) {
    let _n = NoPreempt::new();
    let r = run();
    let ph = r.phase;
    let n = r.phases[ph][t].lists[l].len();
    for i in 0..n {
        unsafe { (*r.shm).cur[t] = ((ph as i64) << 40) | ((l as i64) << 32) | i as i64 };
        r.inner_count[t + 1] = 0;
        let res = run_op(&run().phases[ph][t].lists[l][i]);
        run().phases[ph][t].res[l].push(res);
    }
}
struct Late(std::cell::Cell<i64>);
impl Drop for Late {
    fn drop(&mut self) {
        let x = self.0.get();
        if x >= 0 {
            run_list((x & 0xff) as usize, (x >> 8) as usize);
        }
    }
}
thread_local! {
    static LATE_A: Late = const { Late(std::cell::Cell::new(-1)) };
    static LATE_B: Late = const { Late(std::cell::Cell::new(-1)) };
}
fn body(t: usize) {
    unsafe {
        rt_enter(t as i32);
        rt_nopreempt_set(1);
    }
    let r = run();
    let p = &r.phases[r.phase][t];
    if !p.lists[1].is_empty() {
        LATE_A.with(|l| l.0.set(t as i64 | 1 << 8));
    }
    run_list(t, 0);
    if !p.lists[2].is_empty() {
        LATE_B.with(|l| l.0.set(t as i64 | 2 << 8));
    }
    unsafe {
        rt_nopreempt_set(0);
        rt_finish();
        rt_nopreempt_set(1);
    }
}

// ---- hooks called by the scheduler ----------------------------------------------------
fn touched(op: &Op, r: &Run) -> Vec<usize> {
    fn add(op: &Op, r: &Run, depth: usize, out: &mut Vec<usize>) {
        if let Some(t) = op.ty() {
            out.extend(r.zoo.model.touches(t));
        }
        for f in op.plan() {
            if let (Act::Reenter(i), true) = (&f.act, depth < 3) {
                if let Some(p) = r.inner.get(*i) {
                    add(p.op, r, depth + 1, out);
                }
            }
        }
    }
    let mut out = vec![];
    add(op, r, 0, &mut out);
    out
}
fn cur_op(t: usize) -> Option<&'static Op> {
    let r = run();
    let c = unsafe { (*r.shm).cur[t] };
    let (l, i) = (((c >> 32) & 0xff) as usize, (c & 0xffff_ffff) as usize);
    r.phases[r.phase][t].lists[l].get(i).map(|p| p.op)
}
#[no_mangle]
extern "C" fn pd_on_stall_block(stalled: u32, blocked: u32) {
    let _n = NoPreempt::new();
    let r = run();
    let bits = |m: u32| (0..16usize).filter(move |i| m >> i & 1 == 1);
    // everything a stalled pattern provider legitimately holds up
    let mut held: Vec<usize> = vec![];
    for s in bits(stalled) {
        if ctx_of(s + 1).stall_site.is_some_and(|x| x.0 == SITE_PAT) {
            if let Some(o) = cur_op(s) {
                held.extend(touched(o, r));
            }
        }
    }
    let mut left: Vec<usize> = bits(blocked).filter(|b| ctx_of(b + 1).cur != 1).collect();
    loop {
        let n = left.len();
        let mut more = vec![];
        left.retain(|b| {
            let t = cur_op(*b).map_or(vec![], |o| touched(o, r));
            let ok = t.iter().any(|g| held.contains(g));
            if ok {
                more.extend(t);
            }
            !ok
        });
        held.extend(more);
        if left.len() == n {
            break;
        }
    }
    if let Some(b) = left.first() {
        if r.extra.is_none() {
            let s = bits(stalled).map(|s| format!("{}:{:?}", s, ctx_of(s + 1).stall_site.map(|x| x.0 as char))).collect::<Vec<_>>().join(",");
            r.extra = Some((
                "blocked-by-stall".into(),
                format!("thread {b} ({}) is blocked while user code is stalled on thread {s}", cur_op(*b).map_or("-".into(), describe)),
            ));
        }
    }
}
#[no_mangle]
extern "C" fn pd_on_fatal(kind: i32) {
    unsafe {
        rt_snapshot_stat();
        rt_nopreempt_set(1);
    }
    let r = run();
    let what = if kind == 1 { "deadlock: no thread can run and none is stalled" } else { "no progress: step limit reached" };
    let ops = (0..r.phases[r.phase].len()).map(|t| format!("thread {t} in {}", cur_op(t).map_or("-".into(), describe))).collect::<Vec<_>>();
    let extra = (if kind == 1 { "deadlock" } else { "livelock" }.to_string(), format!("{what}; {}", ops.join("; ")));
    let mut v = Verdict { viol: Some(extra), nviol: 1, ..Default::default() };
    unsafe { stat_into(&mut v) };
    put(r.shm, &v);
    unsafe { libc::_exit(0) }
}
#[allow(static_mut_refs)]
unsafe fn stat_into(v: &mut Verdict) {
    let s = &rt_stat;
    v.steps += s.steps;
    v.switches += s.switches;
    v.preempts += s.preempts;
    v.sim_ns += s.sim_ns;
    v.spurious += s.spurious;
    v.eintr += s.eintr;
    v.waits += s.futex_waits;
    v.hash_keys += s.hash_keys;
    v.stalls += s.stalls;
    v.sig = mix(v.sig ^ s.sig);
}
fn put(shm: *mut Shm, v: &Verdict) {
    let s = serde_json::to_vec(v).unwrap();
    unsafe {
        let n = s.len().min(VCAP);
        (&mut (*shm).verdict)[..n].copy_from_slice(&s[..n]);
        std::ptr::write_volatile(&mut (*shm).vlen, n as i64);
    }
}
pub fn describe(o: &Op) -> String {
    let name = |t: usize| zoo::GEN[t].name;
    let plan = |p: &[Fault]| {
        if p.is_empty() {
            String::new()
        } else {
            format!(
                " with faults [{}]",
                p.iter().map(|f| format!("{}{}#{}:{:?}", f.kind as char, f.id, f.nth, f.act)).collect::<Vec<_>>().join(", ")
            )
        }
    };
    match o {
        Op::Parse { ty, text, plan: p } => format!("parse {:?} as {}{}", text, name(*ty), plan(p)),
        Op::Show { ty, v, sink, plan: p, refuse } => {
            format!("display {} {:?} into {:?}{}{}", name(*ty), v, sink, plan(p), if *refuse { " without memory" } else { "" })
        }
        Op::Case { i, sink, refuse } => {
            format!("display case {} into {:?}{}", zoo::cases()[*i].name, sink, if *refuse { " without memory" } else { "" })
        }
        Op::Pat { ty, plan: p, .. } => format!("pattern of {}{}", name(*ty), plan(p)),
        Op::JShow { j, v, delim, sink, plan: p, .. } => {
            format!("display list {:?} with {} delimiter {:?} into {:?}{}", v, zoo::JOINS[*j].name, delim, sink, plan(p))
        }
        Op::JParse { j, text, delim, plan: p } => format!("parse list {:?} with {} delimiter {:?}{}", text, zoo::JOINS[*j].name, delim, plan(p)),
        Op::Send { ty, v, tx, .. } => format!("send {} {:?} transmissions {:?}", name(*ty), v, tx),
        Op::Expand { d, which } => format!("expand derive {which} on {:?}", run_zoo_decl(*d)),
        Op::Recv { ty, v, .. } => format!("receive {} expecting {:?}", name(*ty), v),
        Op::Loop { n, body, .. } => format!("{n} times [{}]", body.iter().map(describe).collect::<Vec<_>>().join("; ")),
    }
}

pub static mut DECLS: Vec<String> = vec![];
#[allow(static_mut_refs)]
fn run_zoo_decl(d: usize) -> &'static str {
    unsafe { DECLS.get(d).map_or("", |s| &s[..]) }
}

// ---- judging -------------------------------------------------------------------------
struct Judge<'a> {
    z: &'a Zoo,
    cases: &'a [Case],
    v: Verdict,
}
type Bad = Option<(&'static str, String)>;
impl Judge<'_> {
    fn fired(&self, r: &Res, kind: u8, panic: bool) -> bool {
        r.log.iter().any(|e| e.kind == kind && matches!((&e.act, panic), (Some(Act::Panic(_)), true) | (Some(Act::Err(_)), false)))
    }
    fn op(&mut self, place: &str, p: &POp, r: &Res) {
        let bad = self.judge(p.op, r);
        let k = p.op.kind();
        match self.v.ops.iter_mut().find(|x| x.0 == k) {
            Some(x) => x.1 += 1,
            None => self.v.ops.push((k.into(), 1)),
        }
        let mut more: Vec<&'static str> = r.fired.iter().map(|f| f.2).collect();
        match p.op {
            Op::Show { sink, refuse, .. } | Op::Case { sink, refuse, .. } | Op::JShow { sink, refuse, .. } => {
                if sink.limit.is_some_and(|l| r.buf.len() >= l.min(r.buf.len()) && matches!(r.out, Out_::Show(false))) {
                    more.push(match (sink.kind, sink.torn) {
                        (1, _) => "stream_write_failure",
                        (_, true) => "stream_torn_write",
                        _ => "stream_rejected_write",
                    });
                }
                if sink.short > 0 {
                    more.push("stream_short_writes");
                }
                if sink.intr > 0 {
                    more.push("stream_interrupted_writes");
                }
                if *refuse {
                    more.push("allocator_refuses");
                }
            }
            _ => {}
        }
        if let (Op::Expand { .. }, true) = (p.op, matches!(&r.out, Out_::Text(s) if s.contains("compile_error")) || r.pan.is_some()) {
            more.push("rejected_or_panicking_expansion");
        }
        for f in more {
            match self.v.fired.iter_mut().find(|x| x.0 == f) {
                Some(x) => x.1 += 1,
                None => self.v.fired.push((f.into(), 1)),
            }
        }
        let d = format!("{:?}|{:?}|{:?}|{:?}|{}|{}", r.out, r.pan, r.buf, r.log, r.start, r.end);
        self.v.digest = mix(self.v.digest ^ fnv(d.as_bytes()));
        self.v.checked += 1;
        if let Some((class, why)) = bad {
            self.v.nviol += 1;
            if self.v.viol.is_none() {
                self.v.viol = Some((class.into(), format!("{place}: {}: {why}", describe(p.op))));
            }
        }
        for (i, r) in &r.inner {
            let place = format!("{place}/nested");
            let pi = &run().inner[*i];
            self.op(&place, pi, r);
        }
    }
    fn pat_faults(&self, r: &Res) -> (bool, bool, Vec<u32>) {
        let mut ids = vec![];
        let (mut pan, mut bad) = (false, false);
        for e in r.log.iter().filter(|e| e.kind == SITE_PAT) {
            match e.act {
                Some(Act::Bad(_)) => bad = true,
                Some(_) => {
                    pan = true;
                    ids.push(e.id)
                }
                None => {}
            }
        }
        (pan, bad, ids)
    }
    fn judge(&mut self, op: &Op, r: &Res) -> Bad {
        match op {
            Op::Loop { .. } => None,
            Op::Parse { ty, text, plan } => {
                let (pp, pb, ids) = self.pat_faults(r);
                if pp {
                    return match &r.pan {
                        Some(Pan::Sim(SITE_PAT, id)) if ids.contains(id) => None,
                        Some(Pan::Msg(_)) if pb => None,
                        x => Some(("pattern-panic-lost", format!("the pattern provider panicked but the parse gave {:?} {x:?}", r.out))),
                    };
                }
                if pb && r.pan.is_some() {
                    return None;
                }
                let env = Env::new(plan, &r.log);
                let exp = self.z.model.parse(*ty, text, &env);
                if env.unknown.get() {
                    self.v.skipped += 1;
                    return None;
                }
                self.cmp_parse(&exp, r)
            }
            Op::Recv { ty, v, copies, .. } => {
                if let Some(p) = &r.pan {
                    return Some(("unexpected-panic", format!("{p:?}")));
                }
                let Out_::Recv(rs) = &r.out else { return Some(("harness", "receive".into())) };
                if rs.len() != *copies {
                    return Some(("lost-transmission", format!("{} of {copies} transmissions arrived", rs.len())));
                }
                let text = self.z.model.display_text(*ty, v);
                let env = Env::new(&[], &[]);
                let one = self.z.model.one_reading(*ty, &text, v);
                if !one {
                    self.v.skipped += 1;
                }
                let exp = self.z.model.parse(*ty, &text, &env);
                if env.unknown.get() {
                    return None;
                }
                for x in rs {
                    if one && x.as_ref().ok() != Some(v) {
                        return Some(("roundtrip", format!("{text:?} has one reading but came back as {x:?}")));
                    }
                    let got = match x {
                        Ok(v) => Out::Ok(v.clone()),
                        Err(_) => Out::Err,
                    };
                    if !exp.contains(&got) {
                        return Some(("wrong-parse", format!("got {x:?}, the format prescribes {exp:?}")));
                    }
                }
                None
            }
            Op::Expand { d, which } => {
                let got = match (&r.out, &r.pan) {
                    (Out_::Text(s), None) => s.clone(),
                    (_, Some(Pan::Msg(m))) => format!("panic: {m}"),
                    x => format!("{x:?}"),
                };
                let want = &self.z.expansions[*d][*which];
                if got == *want {
                    return None;
                }
                let k = got.bytes().zip(want.bytes()).take_while(|(a, b)| a == b).count();
                let cut = |s: &str| String::from_utf8_lossy(&s.as_bytes()[k.saturating_sub(60)..(k + 120).min(s.len())]).into_owned();
                Some(("expansion-differs", format!("at byte {k}: ...{}... here, ...{}... in a process of its own", cut(&got), cut(want))))
            }
            Op::Send { ty, v, tx, .. } => {
                if let Some(p) = &r.pan {
                    return Some(("unexpected-panic", format!("{p:?}")));
                }
                let Out_::Send(rs) = &r.out else { return Some(("harness", "send".into())) };
                let full = self.z.model.display_text(*ty, v).len();
                for (t, ok) in tx.iter().zip(rs) {
                    let want = t.fail.is_none_or(|l| l >= full);
                    if *ok != want {
                        return Some(("stream-failure-lost", format!("transmission {t:?} reported {ok}")));
                    }
                }
                None
            }
            Op::Pat { ty, probes, .. } => {
                let (pp, pb, ids) = self.pat_faults(r);
                if pp {
                    return match &r.pan {
                        Some(Pan::Sim(SITE_PAT, id)) if ids.contains(id) => None,
                        Some(Pan::Msg(_)) if pb => None,
                        x => Some(("pattern-panic-lost", format!("the pattern provider panicked but the query gave {:?} {x:?}", r.out))),
                    };
                }
                if pb && r.pan.is_some() {
                    return None;
                }
                if let Some(p) = &r.pan {
                    return Some(("unexpected-panic", format!("{p:?}")));
                }
                let Out_::Pat(s) = &r.out else { return Some(("harness", "pattern".into())) };
                if let Some(want) = self.z.patterns.get(*ty) {
                    if s != want {
                        return Some(("pattern-unstable", format!("pattern {s:?}, elsewhere {want:?}")));
                    }
                }
                let re = match regex::Regex::new(&format!(r"\A(?:{s})\z")) {
                    Ok(re) => re,
                    Err(e) => return Some(("pattern-invalid", format!("{s:?}: {e}"))),
                };
                for p in probes {
                    match self.z.model.matches(*ty, p) {
                        None => self.v.skipped += 1,
                        Some(m) => {
                            if re.is_match(p) != m {
                                return Some(("pattern-wrong", format!("pattern {s:?} {} {p:?}, the format {}", if m { "rejects" } else { "matches" }, if m { "matches it" } else { "does not" })));
                            }
                        }
                    }
                }
                None
            }
            Op::Show { ty, v, sink, plan, refuse } => {
                let mut d = Disp::new(plan);
                let stop = self.z.model.display(*ty, v, &mut d).err();
                self.show(&d.text, stop, sink, *refuse, r)
            }
            Op::Case { i, sink, refuse } => self.show(&self.cases[*i].expect.clone(), None, sink, *refuse, r),
            Op::JShow { j, v, delim, sink, plan, refuse } => {
                let (e, w, _) = join_model(zoo::JOINS[*j].item);
                let mut d = Disp::new(plan);
                let stop = self
                    .z
                    .model
                    .disp_with(&Ty::Vec { e: Box::new(e) }, v, &Some(With::Join { item: Box::new(w), delim: delim.clone() }), &mut d)
                    .err();
                self.show(&d.text, stop, sink, *refuse, r)
            }
            Op::JParse { j, text, delim, plan } => {
                let item = zoo::JOINS[*j].item;
                let mut m = SeqConv { plan, counts: vec![], log: vec![] };
                let mut vals = vec![];
                let mut end: Option<Result<LeafErr, (u8, u32)>> = None;
                for piece in text.split(delim.as_str()) {
                    match m.conv(item, piece) {
                        Ok(v) => vals.push(v),
                        Err(e) => {
                            end = Some(e);
                            break;
                        }
                    }
                }
                let got: Vec<(u32, &str)> = r.log.iter().filter(|e| e.kind == SITE_CONV).map(|e| (e.id, e.text.as_str())).collect();
                let want: Vec<(u32, &str)> = m.log.iter().map(|e| (e.0, e.1.as_str())).collect();
                match (&end, &r.out, &r.pan) {
                    (None, Out_::JParse(Ok(v)), None) if *v == V::Q(vals.clone()) => {}
                    (Some(Ok(e)), Out_::JParse(Err(g)), None) if e == g => {}
                    (Some(Err(p)), _, Some(Pan::Sim(k, i))) if *p == (*k, *i) => {}
                    _ => {
                        return Some(("list-parse", format!("got {:?} {:?}, expected {:?}", r.out, r.pan, end.as_ref().map_or(format!("{:?}", vals), |e| format!("{e:?}")))));
                    }
                }
                if got != want {
                    return Some(("list-order", format!("converted {got:?}, expected {want:?}")));
                }
                None
            }
        }
    }
    fn cmp_parse(&self, exp: &[Out], r: &Res) -> Bad {
        let got = match (&r.out, &r.pan) {
            (_, Some(Pan::Sim(k, id))) => {
                if !r.log.iter().any(|e| e.kind == *k && e.id == *id && e.act.is_some()) {
                    return Some(("foreign-panic", format!("a panic of {}{id} that did not happen in this operation", *k as char)));
                }
                Out::Panic
            }
            (_, Some(Pan::Msg(m))) => return Some(("unexpected-panic", format!("panicked: {m}; the format prescribes {exp:?}"))),
            (Out_::Parse(Ok(v)), _) => Out::Ok(v.clone()),
            (Out_::Parse(Err(_)), _) => Out::Err,
            _ => return Some(("harness", "parse".into())),
        };
        if exp.contains(&got) {
            None
        } else {
            Some(("wrong-parse", format!("got {got:?}, the format prescribes {exp:?}")))
        }
    }
    fn show(&self, full: &str, stop: Option<Stop>, sink: &Sink, refuse: bool, r: &Res) -> Bad {
        let full = full.as_bytes();
        let got = &r.buf[..];
        let s = |b: &[u8]| String::from_utf8_lossy(b).into_owned();
        if refuse && r.refused > 0 {
            return Some(("allocated", format!("{} allocations were requested while formatting", r.refused)));
        }
        let res = match (&r.out, &r.pan) {
            (_, Some(Pan::Sim(k, id))) => Err(Some((*k, *id))),
            (_, Some(Pan::Msg(m))) => return Some(("unexpected-panic", m.clone())),
            (Out_::Show(true), _) => Ok(()),
            (Out_::Show(false), _) => Err(None),
            _ => return Some(("harness", "show".into())),
        };
        if self.fired(r, SITE_SINK, true) {
            return if res != Err(Some((SITE_SINK, 0))) {
                Some(("stream-panic-lost", format!("{res:?}")))
            } else if !full.starts_with(got) {
                Some(("wrong-prefix", format!("stream holds {:?}, not a prefix of {:?}", s(got), s(full))))
            } else {
                None
            };
        }
        let sink_failed = self.fired(r, SITE_SINK, false);
        let limit = sink.limit.filter(|l| *l < full.len());
        if sink_failed || limit.is_some() {
            if res == Ok(()) {
                return Some(("stream-failure-lost", format!("the stream failed but formatting returned Ok; stream holds {:?}", s(got))));
            }
            if let Err(Some(p)) = res {
                return Some(("unexpected-panic", format!("{p:?}")));
            }
            if !full.starts_with(got) {
                return Some(("wrong-prefix", format!("stream holds {:?}, not a prefix of {:?}", s(got), s(full))));
            }
            if let (Some(l), false) = (limit, sink_failed) {
                let exact = sink.kind == 1 || sink.torn;
                if got.len() > l || exact && got.len() != l {
                    return Some(("wrong-prefix", format!("stream holds {} bytes, it accepts {l}", got.len())));
                }
            }
            return None;
        }
        let want = match stop {
            None => Ok(()),
            Some(Stop::Err) => Err(None),
            Some(Stop::Panic(k, id)) => Err(Some((k, id))),
        };
        if res != want {
            return Some(("formatter-failure-lost", format!("formatting gave {res:?}, expected {want:?}; stream holds {:?}", s(got))));
        }
        if got != full {
            return Some(("wrong-text", format!("stream holds {:?}, expected {:?}", s(got), s(full))));
        }
        None
    }
}
struct SeqConv<'a> {
    plan: &'a [Fault],
    counts: Vec<(u32, u32)>,
    log: Vec<(u32, String)>,
}
impl SeqConv<'_> {
    fn gate(&mut self, id: u32, s: &str) -> Result<(), Result<LeafErr, (u8, u32)>> {
        self.log.push((id, s.to_string()));
        let n = match self.counts.iter_mut().find(|x| x.0 == id) {
            Some(x) => {
                x.1 += 1;
                x.1
            }
            None => {
                self.counts.push((id, 1));
                1
            }
        };
        for f in self.plan.iter().filter(|f| f.kind == SITE_CONV && f.id == id && (f.nth == 0 || f.nth == n) && f.act.terminal()) {
            return Err(match f.act {
                Act::Panic(_) => Err((SITE_CONV, id)),
                _ => Ok(LeafErr(id, s.to_string())),
            });
        }
        Ok(())
    }
    fn conv(&mut self, item: JoinItem, s: &str) -> Result<V, Result<LeafErr, (u8, u32)>> {
        match item {
            JoinItem::Fld(id) => {
                self.gate(id, s)?;
                Ok(V::l(s))
            }
            JoinItem::Num(id) => {
                self.gate(id, s)?;
                if num_ok(s) {
                    Ok(V::l(s))
                } else {
                    Err(Ok(LeafErr(id, s.to_string())))
                }
            }
            JoinItem::W(id) => {
                self.gate(id, s)?;
                let w = wspec(id);
                match s.strip_prefix(w.pre).and_then(|s| s.strip_suffix(w.post)) {
                    Some(x) => Ok(V::l(x)),
                    None => Err(Ok(LeafErr(id, s.to_string()))),
                }
            }
            JoinItem::List(id) => {
                let mut v = vec![];
                for p in s.split(',') {
                    v.push(self.conv(JoinItem::Fld(id), p)?);
                }
                Ok(V::Q(v))
            }
        }
    }
}

// ---- the whole scenario ----------------------------------------------------------------
pub fn child(z: &Zoo, scen: &Scen, replay: Option<&[Vec<Ev>]>, shm: *mut Shm) {
    unsafe {
        rt_hash_seed(scen.hash_seed);
        RUN_INNER = Some(run_inner);
    }
    let pthr = |t| -> PThr {
        let t: &Thr = t;
        PThr {
            lists: [unrolled(&t.ops).into_iter().map(prep).collect(), flat(&t.late_a).map(prep).collect(), flat(&t.late_b).map(prep).collect()],
            res: [Vec::with_capacity(flat(&t.ops).count() + 1), Vec::with_capacity(t.late_a.len() + 1), Vec::with_capacity(t.late_b.len() + 1)],
        }
    };
    let r = Run {
        zoo: z,
        scen,
        cases: zoo::cases(),
        inner: scen.inner.iter().map(prep).collect(),
        phases: scen.phases.iter().flat_map(|p| (0..p.repeat.max(1)).map(|_| p.threads.iter().map(pthr).collect())).collect(),
        chans: (0..scen.chans).map(|_| Chan::default()).collect(),
        phase: 0,
        shm,
        inner_depth: [0; 17],
        inner_count: [0; 17],
        fatal_done: false,
        extra: None,
    };
    let b = Box::leak(Box::new(r));
    unsafe { RUN = b as *mut Run as *mut Run<'static> };
    let mut total = Verdict::default();
    let order: Vec<usize> = scen.phases.iter().enumerate().flat_map(|(i, p)| (0..p.repeat.max(1)).map(move |_| i)).collect();
    let mut held = vec![];
    for (pj, pi) in order.iter().copied().enumerate() {
        let ph = &scen.phases[pi];
        run().phase = pj;
        unsafe { (*shm).phase = pi as i64 };
        let s = &ph.sched;
        let rp = replay.and_then(|r| r.get(pi));
        let cfg = Cfg {
            policy: if replay.is_some() { POL_REPLAY } else { s.policy },
            count_alloc: s.count_alloc as i32,
            count_mem: s.count_mem as i32,
            npct: s.npct,
            seed: s.seed,
            hash_seed: scen.hash_seed,
            mean: s.mean,
            cb_p: s.cb_p,
            spur_p: s.spur_p,
            max_preempt: s.max_preempt,
            max_steps: 60_000_000 + ph.threads.iter().map(|t| flat(&t.ops).count() as i64 * 40_000 + volume(&t.ops) as i64 * 2_000).sum::<i64>(),
            max_slice: 2_000_000,
            pct_len: s.pct_len,
            rnd_base: (pj as u64 + 1) << 32,
            replay: rp.map_or(std::ptr::null(), |r| r.as_ptr()),
            nreplay: rp.map_or(0, |r| r.len() as i64),
        };
        let n = ph.threads.len();
        unsafe {
            rt_setup(n as i32, &cfg, (*shm).ev[pi].as_mut_ptr(), EVCAP as i64, &mut (*shm).nev[pi]);
        }
        let mut hs = Vec::with_capacity(n);
        for t in 0..n {
            let h = std::thread::Builder::new().stack_size(1 << 20).spawn(move || body(t)).expect("spawn");
            hs.push(h);
            unsafe { rt_wait_entered(t as u32 + 1) };
        }
        unsafe {
            rt_go();
            stat_into(&mut total);
        }
        for (t, h) in hs.into_iter().enumerate() {
            unsafe { rt_release(t as i32) };
            let _ = h.join();
        }
        held.push(unsafe { rt_live() });
    }
    let r = run();
    let mut j = Judge { z, cases: &r.cases, v: total };
    if let Some(e) = r.extra.take() {
        j.v.viol = Some(e);
        j.v.nviol += 1;
    }
    for (pj, ph) in r.phases.iter().enumerate() {
        let pi = order[pj];
        if scen.prop == "C16" && ph.len() == 1 {
            let bad = accumulation(&scen.phases[pi], &ph[0].res[0], if order.get(pj + 1) == Some(&pi) { &[] } else { &held[pj + 1 - scen.phases[pi].repeat.max(1)..=pj] });
            if let Some((class, why)) = bad {
                j.v.nviol += 1;
                if j.v.viol.is_none() {
                    j.v.viol = Some((class.into(), format!("phase {pi}: {why}")));
                }
            }
        }
        let mut spans = vec![];
        for (t, th) in ph.iter().enumerate() {
            for l in 0..3 {
                if th.res[l].len() != th.lists[l].len() {
                    j.v.nviol += 1;
                    if j.v.viol.is_none() {
                        j.v.viol = Some(("thread-died".into(), format!("thread {t} finished {} of {} operations", th.res[l].len(), th.lists[l].len())));
                    }
                }
                for (i, (p, r)) in th.lists[l].iter().zip(&th.res[l]).enumerate() {
                    let place = format!("phase {pj} thread {t} {} {i}", ["op", "teardown-op(first)", "teardown-op(last)"][l]);
                    j.op(&place, p, r);
                    if l == 0 {
                        spans.push((t, r.start, r.end));
                    }
                }
            }
        }
        for a in spans.iter().take(500) {
            if spans.iter().any(|b| a.0 != b.0 && a.1 < b.2 && b.1 < a.2) {
                j.v.overlaps += 1;
            }
        }
    }
    let mut v = j.v;
    v.digest = mix(v.digest ^ v.sig ^ v.steps as u64 ^ ((v.sim_ns as u64) << 20));
    put(shm, &v);
}
/// Does doing the same again leave more behind, or take longer, than it did before?
/// Only once the first half of the repetitions has filled whatever caches there are.
fn accumulation(ph: &Phase, res: &[Res], held: &[i64]) -> Option<(&'static str, String)> {
    let mut at = 0;
    for o in &ph.threads[0].ops {
        let Op::Loop { n, body, .. } = o else {
            at += 1;
            continue;
        };
        let (n, b, o0) = (*n, body.len(), at);
        at += n * b;
        if n < REPEATS || res.len() < at {
            continue;
        }
        let live = |i: usize| res[o0 + i * b + b - 1].live;
        let work = |i: usize| res[o0 + i * b..o0 + i * b + b].iter().map(|r| r.end - r.start).sum::<i64>();
        let what = || body.iter().map(describe).collect::<Vec<_>>().join("; ");
        if live(n - 1) > live(n / 2) {
            return Some(("memory-accumulates", format!("{} bytes are held after {} repetitions and {} after {n} of: {}", live(n / 2), n / 2 + 1, live(n - 1), what())));
        }
        for (k, o) in body.iter().enumerate() {
            if let Some(t) = prepared(o, &res[o0 + n / 2 * b + k]) {
                return Some(("parser-prepared-again", format!("repetition {} requests {t} bytes of memory: {}", n / 2 + 1, describe(o))));
            }
        }
        let (a, z) = (work(n / 2), work(n - 1));
        if z > a + a / 50 + 30 {
            return Some(("work-accumulates", format!("repetition {} takes {a} steps, repetition {n} takes {z}: {}", n / 2 + 1, what())));
        }
    }
    if held.len() >= REPEATS {
        // a thread that comes after many others
        for (o, r) in flat(&ph.threads[0].ops).zip(res) {
            if let Some(t) = prepared(o, r) {
                return Some(("parser-prepared-again", format!("a new thread requests {t} bytes of memory: {}", describe(o))));
            }
        }
    }
    if held.len() >= REPEATS && held[held.len() - 1] > held[held.len() / 2] {
        return Some(("memory-accumulates", format!("{} bytes are held after {} threads have come and gone, {} after {}", held[held.len() / 2], held.len() / 2 + 1, held[held.len() - 1], held.len())));
    }
    None
}
/// Preparing a parser takes up to hundreds of kilobytes, parsing with it a few captures.  A
/// program with debug assertions asks the fields for their patterns again in every parse.
fn prepared(o: &Op, r: &Res) -> Option<i64> {
    let Op::Parse { text, plan, .. } = o else { return None };
    (!cfg!(debug_assertions) && plan.is_empty() && r.total > 2500 + 100 * text.len() as i64).then_some(r.total)
}
const REPEATS: usize = 24;
pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let _n = NoPreempt::new();
        let m = match i.payload().downcast_ref::<&str>() {
            Some(s) => s.to_string(),
            None => i.payload().downcast_ref::<String>().cloned().unwrap_or_default(),
        };
        *panic_msg() = Some(format!("{m} at {}", i.location().map_or(String::new(), |l| l.to_string())));
        if std::env::var_os("PDSIM_TRACE").is_some() {
            eprintln!("panic: {}", panic_msg().as_ref().unwrap());
        }
    }));
}
