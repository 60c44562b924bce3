//! Runs many simulations, each in a forked process, and reports.
use crate::exec::*;
use crate::scen::*;
use pdcore::leaf::*;
use pdcore::rt::*;
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::collections::{BTreeMap, HashSet};
use std::time::{Duration, Instant};

const COV: usize = 1 << 20;
const PAIRS: usize = 1 << 21;

fn shared(n: usize) -> *mut u8 {
    unsafe {
        let p = libc::mmap(std::ptr::null_mut(), n, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
        assert!(p != libc::MAP_FAILED);
        p as *mut u8
    }
}
fn no_aslr() {
    unsafe {
        let old = libc::personality(0xffff_ffff);
        if old == -1 || old & libc::ADDR_NO_RANDOMIZE != 0 || std::env::var_os("PDSIM_ASLR").is_some() {
            return;
        }
        if libc::personality((old | libc::ADDR_NO_RANDOMIZE) as libc::c_ulong) == -1 {
            return;
        }
    }
    use std::os::unix::process::CommandExt;
    std::env::set_var("PDSIM_ASLR", "tried");
    let e = std::env::current_exe().unwrap();
    let _ = std::process::Command::new(e).args(std::env::args_os().skip(1)).exec();
}

static mut LIMIT: i64 = 0;
static mut TICKS: i64 = 0;
/// A busy machine is no hang: what counts is processor time, or that none is used.
extern "C" fn on_alarm(_: libc::c_int) {
    unsafe {
        TICKS += 1;
        let mut t: libc::timespec = std::mem::zeroed();
        libc::syscall(libc::SYS_clock_gettime, libc::CLOCK_PROCESS_CPUTIME_ID, &mut t);
        if t.tv_sec * 10 >= LIMIT * 9 || t.tv_sec * 20 < LIMIT * TICKS || TICKS >= 5 {
            libc::signal(libc::SIGALRM, libc::SIG_DFL);
            libc::kill(libc::getpid(), libc::SIGALRM);
        } else {
            libc::alarm(LIMIT as u32);
        }
    }
}

#[derive(Clone)]
pub struct RunOut {
    pub v: Verdict,
    pub ev: Vec<Vec<Ev>>,
}
/// One simulation in a process of its own.
fn fork_run(z: &Zoo, scen: &Scen, replay: Option<&[Vec<Ev>]>, shm: *mut Shm) -> RunOut {
    for limit in [20u32, 60] {
        unsafe {
            (*shm).phase = 0;
            (*shm).vlen = 0;
            (*shm).nev = [0; MAXPH];
            (*shm).cur = [-1; 17];
            let pid = libc::fork();
            assert!(pid >= 0, "fork failed");
            if pid == 0 {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                LIMIT = limit as i64;
                libc::signal(libc::SIGALRM, on_alarm as *const () as usize);
                libc::alarm(limit);
                if std::env::var_os("PDSIM_TRACE").is_none() {
                    let nul = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
                    libc::dup2(nul, 2);
                }
                let z0 = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
                libc::setrlimit(libc::RLIMIT_CORE, &z0);
                child(z, scen, replay, shm);
                libc::_exit(0);
            }
            let mut st = 0;
            while libc::waitpid(pid, &mut st, 0) < 0 {}
            let n = (*shm).vlen as usize;
            let mut v: Verdict = if n > 0 {
                serde_json::from_slice(&(&(*shm).verdict)[..n]).unwrap_or_else(|e| Verdict {
                    viol: Some(("harness".into(), format!("verdict unreadable: {e}"))),
                    ..Default::default()
                })
            } else {
                Verdict::default()
            };
            if libc::WIFSIGNALED(st) && n == 0 {
                let sig = libc::WTERMSIG(st);
                if sig == libc::SIGKILL {
                    continue; // ended from outside
                }
                let ph = (*shm).phase as usize;
                let mut ops = vec![];
                for (t, th) in scen.phases[ph].threads.iter().enumerate() {
                    let c = (*shm).cur[t];
                    if c >= 0 {
                        let l = [&th.ops, &th.late_a, &th.late_b][((c >> 32) & 3) as usize];
                        if let Some(o) = flat(l).nth((c & 0xffff_ffff) as usize) {
                            ops.push(format!("thread {t} in {}", describe(o)));
                        }
                    }
                }
                if sig == libc::SIGALRM {
                    if limit == 20 {
                        continue;
                    }
                    v.viol = Some(("hang".into(), format!("no end within {limit} s; {}", ops.join("; "))));
                } else {
                    v.viol = Some((format!("crash-signal-{sig}"), format!("the process died of signal {sig}; {}", ops.join("; "))));
                }
                v.nviol = 1;
            } else if n == 0 {
                v.viol = Some(("crash-exit".into(), format!("the process ended early with status {st:#x}")));
                v.nviol = 1;
            }
            let ev = (0..scen.phases.len()).map(|p| (&(*shm).ev)[p][..(*shm).nev[p] as usize].to_vec()).collect();
            return RunOut { v, ev };
        }
    }
    RunOut { v: Verdict { viol: Some(("harness".into(), "the simulation was killed from outside".into())), ..Default::default() }, ev: vec![] }
}

/// Patterns every type publishes in a process that has done nothing else.
fn reference_patterns(z: &Zoo) -> Vec<String> {
    let n = 1 << 22;
    let p = shared(n);
    unsafe {
        let pid = libc::fork();
        if pid == 0 {
            rt_hash_seed(1);
            let mut v = vec![];
            for t in zoo::GEN {
                v.push(match t.pattern {
                    Some(f) => std::panic::catch_unwind(f).unwrap_or_else(|_| "\u{0}panicked".into()),
                    None => String::new(),
                });
            }
            let s = serde_json::to_vec(&v).unwrap();
            let l = s.len() as u64;
            std::ptr::copy_nonoverlapping(l.to_le_bytes().as_ptr(), p, 8);
            std::ptr::copy_nonoverlapping(s.as_ptr(), p.add(8), s.len());
            libc::_exit(0);
        }
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 {}
        let l = *(p as *const u64) as usize;
        let v = serde_json::from_slice(std::slice::from_raw_parts(p.add(8), l)).unwrap_or_default();
        libc::munmap(p as *mut _, n);
        let _ = z;
        v
    }
}

/// What each derive gives for each declaration, each in a process of its own.
fn reference_expansions(z: &Zoo) -> Vec<Vec<String>> {
    let n = 1 << 20;
    let p = shared(n);
    let mut all = vec![];
    for d in &z.decls {
        let mut v = vec![];
        for which in 0..nderives() {
            unsafe {
                let pid = libc::fork();
                if pid == 0 {
                    let nul = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
                    libc::dup2(nul, 2);
                    rt_hash_seed(1);
                    let s = match std::panic::catch_unwind(|| expand(d, which)) {
                        Ok(s) => s,
                        Err(e) => format!(
                            "panic: {}",
                            e.downcast_ref::<&str>().map(|s| s.to_string()).or(e.downcast_ref::<String>().cloned()).unwrap_or_default()
                        ),
                    };
                    let l = s.len().min(n - 8);
                    std::ptr::copy_nonoverlapping((l as u64).to_le_bytes().as_ptr(), p, 8);
                    std::ptr::copy_nonoverlapping(s.as_ptr(), p.add(8), l);
                    libc::_exit(0);
                }
                let mut st = 0;
                while libc::waitpid(pid, &mut st, 0) < 0 {}
                let l = *(p as *const u64) as usize;
                v.push(String::from_utf8_lossy(std::slice::from_raw_parts(p.add(8), l)).into_owned());
            }
        }
        all.push(v);
    }
    unsafe { libc::munmap(p as *mut _, n) };
    all
}

#[derive(Serialize, Deserialize, Default, Clone)]
struct Tally {
    runs: u64,
    multi: u64,
    ops: BTreeMap<String, u64>,
    fired: BTreeMap<String, u64>,
    checked: u64,
    skipped: u64,
    steps: i64,
    switches: i64,
    preempts: i64,
    sim_ns: i64,
    spurious: i64,
    eintr: i64,
    waits: i64,
    hash_keys: i64,
    overlaps: u64,
    serial_events: u64,
    policies: BTreeMap<String, u64>,
    nontrivial: u64,
    threads: BTreeMap<usize, u64>,
    found: Option<(u64, String, String)>,
    harness: Option<(u64, String)>,
}
fn pol(p: i32) -> &'static str {
    match p {
        POL_SERIAL => "serial",
        POL_GEOM => "random-walk",
        POL_PCT => "priority-change-points",
        POL_CB => "callback-boundaries",
        _ => "replay",
    }
}
impl Tally {
    fn add(&mut self, s: &Scen, v: &Verdict) {
        self.runs += 1;
        for (k, n) in &v.ops {
            *self.ops.entry(k.clone()).or_default() += n;
        }
        for (k, n) in &v.fired {
            *self.fired.entry(k.clone()).or_default() += n;
        }
        if s.phases.iter().any(|p| p.threads.len() > 1) {
            self.multi += 1;
        }
        for p in &s.phases {
            *self.policies.entry(pol(p.sched.policy).into()).or_default() += 1;
            *self.threads.entry(p.threads.len()).or_default() += 1;
        }
        self.checked += v.checked;
        self.skipped += v.skipped;
        self.steps += v.steps;
        self.switches += v.switches;
        self.preempts += v.preempts;
        self.sim_ns += v.sim_ns;
        self.spurious += v.spurious;
        self.eintr += v.eintr;
        self.waits += v.waits;
        self.hash_keys += v.hash_keys;
        self.overlaps += v.overlaps;
        if !v.fired.is_empty() || v.overlaps > 0 {
            self.nontrivial += 1;
        }
    }
    fn merge(&mut self, o: &Tally) {
        fn m<K: Ord + Clone>(a: &mut BTreeMap<K, u64>, b: &BTreeMap<K, u64>) {
            for (k, n) in b {
                *a.entry(k.clone()).or_default() += n;
            }
        }
        m(&mut self.ops, &o.ops);
        m(&mut self.fired, &o.fired);
        m(&mut self.policies, &o.policies);
        m(&mut self.threads, &o.threads);
        self.runs += o.runs;
        self.multi += o.multi;
        self.checked += o.checked;
        self.skipped += o.skipped;
        self.steps += o.steps;
        self.switches += o.switches;
        self.preempts += o.preempts;
        self.sim_ns += o.sim_ns;
        self.spurious += o.spurious;
        self.eintr += o.eintr;
        self.waits += o.waits;
        self.hash_keys += o.hash_keys;
        self.overlaps += o.overlaps;
        self.nontrivial += o.nontrivial;
        if let Some(f) = &o.found {
            if self.found.as_ref().is_none_or(|g| f.0 < g.0) {
                self.found = Some(f.clone());
            }
        }
        if self.harness.is_none() {
            self.harness = o.harness.clone();
        }
    }
}

struct Args {
    m: BTreeMap<String, String>,
}
impl Args {
    fn s(&self, k: &str, d: &str) -> String {
        self.m.get(k).cloned().unwrap_or_else(|| d.into())
    }
    fn n(&self, k: &str, d: u64) -> u64 {
        self.m.get(k).map_or(d, |s| s.parse().expect("number"))
    }
}
fn scen_seed(base: u64, i: u64) -> u64 {
    mix(mix(base) ^ i) >> 1
}

#[derive(Serialize, Deserialize)]
pub struct Replay {
    pub property: String,
    pub class: String,
    pub why: String,
    pub found_with_seed: u64,
    pub zoo: serde_json::Value,
    pub profile: String,
    pub describe: Vec<String>,
    pub scen: Scen,
    /// per phase: the scheduling decisions that differ from the default
    pub events: Vec<Vec<Ev>>,
    pub note: String,
}

fn worker(z: &Zoo, prop: &str, base: u64, w: u64, nw: u64, end: Instant, max: u64, stop: *mut u32, out: &str) {
    unsafe {
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        let mut cur: libc::cpu_set_t = std::mem::zeroed();
        libc::sched_getaffinity(0, std::mem::size_of_val(&cur), &mut cur);
        let cpus: Vec<usize> = (0..1024).filter(|i| libc::CPU_ISSET(*i, &cur)).collect();
        if !cpus.is_empty() {
            libc::CPU_SET(cpus[w as usize % cpus.len()], &mut set);
            libc::sched_setaffinity(0, std::mem::size_of_val(&set), &set);
        }
    }
    let shm = shared(std::mem::size_of::<Shm>()) as *mut Shm;
    let mut t = Tally::default();
    let mut sigs: HashSet<u64> = HashSet::new();
    let mut digs: HashSet<u64> = HashSet::new();
    let mut i = w;
    while i < max && Instant::now() < end && unsafe { std::ptr::read_volatile(stop) } == 0 {
        let seed = scen_seed(base, i);
        let s = Gen::scen(z, prop, seed);
        let r = fork_run(z, &s, None, shm);
        t.add(&s, &r.v);
        if sigs.len() < 4_000_000 {
            sigs.insert(r.v.sig);
            if !r.v.fired.is_empty() || r.v.overlaps > 0 {
                digs.insert(r.v.digest);
            }
        }
        if let Some((c, why)) = &r.v.viol {
            if c == "harness" {
                t.harness = Some((seed, why.clone()));
            } else {
                t.found = Some((seed, c.clone(), why.clone()));
            }
            unsafe { std::ptr::write_volatile(stop, 1) };
            break;
        }
        i += nw;
    }
    let bin: Vec<u8> = sigs.iter().flat_map(|x| x.to_le_bytes()).collect();
    std::fs::write(format!("{out}/w{w}.sig"), bin).unwrap();
    let bin: Vec<u8> = digs.iter().flat_map(|x| x.to_le_bytes()).collect();
    std::fs::write(format!("{out}/w{w}.dig"), bin).unwrap();
    std::fs::write(format!("{out}/w{w}.json"), serde_json::to_vec(&t).unwrap()).unwrap();
}
fn load_set(out: &str, nw: u64, ext: &str) -> HashSet<u64> {
    let mut s = HashSet::new();
    for w in 0..nw {
        if let Ok(b) = std::fs::read(format!("{out}/w{w}.{ext}")) {
            s.extend(b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
        }
    }
    s
}
fn ones(p: *const u8, n: usize) -> usize {
    unsafe { std::slice::from_raw_parts(p, n) }.iter().filter(|x| **x != 0).count()
}

// ---- minimising ----------------------------------------------------------------------------
struct Min<'a> {
    z: &'a Zoo,
    class: String,
    shm: *mut Shm,
    end: Instant,
    tried: u64,
}
impl Min<'_> {
    fn fails(&mut self, s: &Scen, ev: Option<&[Vec<Ev>]>) -> Option<RunOut> {
        self.tried += 1;
        let r = fork_run(self.z, s, ev, self.shm);
        r.v.viol.as_ref().is_some_and(|v| v.0 == self.class).then_some(r)
    }
    /// Does the smaller scenario still fail, under the current schedule, the serial one, or another?
    fn accept(&mut self, s: &Scen, ev: &[Vec<Ev>], search: u32) -> Option<Vec<Vec<Ev>>> {
        let none: Vec<Vec<Ev>> = s.phases.iter().map(|_| vec![]).collect();
        if self.fails(s, Some(&none)).is_some() {
            return Some(none);
        }
        if ev.len() == s.phases.len() && ev.iter().any(|e| !e.is_empty()) && self.fails(s, Some(ev)).is_some() {
            return Some(ev.to_vec());
        }
        for k in 0..search {
            if Instant::now() > self.end {
                break;
            }
            let mut s2 = s.clone();
            for (i, p) in s2.phases.iter_mut().enumerate() {
                p.sched.seed = mix(p.sched.seed ^ (k as u64 + 1) << 8 ^ i as u64);
            }
            if let Some(r) = self.fails(&s2, None) {
                if self.fails(s, Some(&r.ev)).is_some() {
                    return Some(r.ev);
                }
            }
        }
        None
    }
    fn go(&mut self, mut s: Scen, mut ev: Vec<Vec<Ev>>) -> (Scen, Vec<Vec<Ev>>) {
        let search = if ev.iter().all(|e| e.is_empty()) { 0 } else { 12 };
        loop {
            let mut changed = false;
            fn weight(o: &Op) -> usize {
                match o {
                    Op::Loop { n, body, .. } => n + 1 + body.iter().map(weight).sum::<usize>(),
                    o => 1 + o.plan().len(),
                }
            }
            let size = |s: &Scen| s.ops().map(weight).sum::<usize>() + s.phases.len();
            let before = size(&s);
            for c in candidates(&s) {
                if Instant::now() > self.end {
                    return (s, ev);
                }
                if size(&c) >= size(&s) && c.phases.iter().map(|p| p.threads.len()).sum::<usize>() >= s.phases.iter().map(|p| p.threads.len()).sum::<usize>() {
                    continue;
                }
                if let Some(e) = self.accept(&c, &ev, search) {
                    s = c;
                    ev = e;
                    changed = true;
                    break;
                }
            }
            if !changed || size(&s) > before {
                break;
            }
        }
        // schedule: drop decisions, in halves, then one at a time
        for p in 0..ev.len() {
            let mut chunk = ev[p].len().div_ceil(2);
            while chunk > 0 {
                let mut i = 0;
                while i < ev[p].len() {
                    if Instant::now() > self.end {
                        return (s, ev);
                    }
                    let mut c = ev.clone();
                    let e = (i + chunk).min(c[p].len());
                    c[p].drain(i..e);
                    if self.fails(&s, Some(&c)).is_some() {
                        ev = c;
                    } else {
                        i += chunk;
                    }
                }
                chunk = if chunk == 1 { 0 } else { chunk.div_ceil(2) };
            }
        }
        // what an event-free scheduler adds on its own is part of the trace already
        (s, ev)
    }
}
fn candidates(s: &Scen) -> Vec<Scen> {
    let mut out = vec![];
    if s.phases.len() > 1 {
        for i in 0..s.phases.len() {
            let mut c = s.clone();
            c.phases.remove(i);
            out.push(c);
        }
    }
    for p in 0..s.phases.len() {
        for t in 0..s.phases[p].threads.len() {
            if s.phases[p].threads.len() > 1 && s.chans == 0 {
                let mut c = s.clone();
                c.phases[p].threads.remove(t);
                out.push(c);
            }
        }
    }
    if s.chans > 0 {
        for k in 0..s.chans {
            let mut c = s.clone();
            c.each_list_mut(|l| l.retain(|o| !matches!(o, Op::Send { chan, .. } | Op::Recv { chan, .. } if *chan == k)));
            out.push(c);
        }
    } else {
        for p in 0..s.phases.len() {
            for t in 0..s.phases[p].threads.len() {
                for l in 0..3 {
                    let n = [&s.phases[p].threads[t].ops, &s.phases[p].threads[t].late_a, &s.phases[p].threads[t].late_b][l].len();
                    for i in (0..n).rev() {
                        let mut c = s.clone();
                        let th = &mut c.phases[p].threads[t];
                        [&mut th.ops, &mut th.late_a, &mut th.late_b][l].remove(i);
                        out.push(c);
                    }
                }
            }
        }
    }
    // shorter loops
    for p in 0..s.phases.len() {
        for t in 0..s.phases[p].threads.len() {
            for (i, o) in s.phases[p].threads[t].ops.iter().enumerate() {
                let Op::Loop { n, body, vary } = o else { continue };
                let mut put = |ops: Vec<Op>| {
                    let mut c = s.clone();
                    c.phases[p].threads[t].ops.splice(i..i + 1, ops);
                    out.push(c);
                };
                put(body.clone());
                for k in [2, 4, 8, 16, 64, 256, 1024, 4096] {
                    if n / k > 0 {
                        put(vec![Op::Loop { n: n - n / k, body: body.clone(), vary: *vary }]);
                    }
                }
                put(vec![Op::Loop { n: n - 1, body: body.clone(), vary: *vary }]);
                for b in 0..body.len() {
                    let mut x = body.clone();
                    if x.len() > 1 {
                        x.remove(b);
                        put(vec![Op::Loop { n: *n, body: x, vary: *vary }]);
                    }
                    for f in 0..body[b].plan().len() {
                        let mut x = body.clone();
                        x[b].plan_mut().unwrap().remove(f);
                        put(vec![Op::Loop { n: *n, body: x, vary: *vary }]);
                    }
                }
            }
        }
    }
    // one fault fewer
    let nops = {
        let mut c = s.clone();
        let mut n = 0;
        c.each_list_mut(|l| n += l.len());
        n
    };
    for k in 0..nops {
        let mut j = 0;
        loop {
            let mut c = s.clone();
            let mut n = 0;
            let mut done = false;
            c.each_list_mut(|l| {
                for o in l.iter_mut() {
                    if n == k {
                        if let Some(p) = o.plan_mut() {
                            if j < p.len() {
                                p.remove(j);
                                done = true;
                            }
                        }
                    }
                    n += 1;
                }
            });
            if !done {
                break;
            }
            out.push(c);
            j += 1;
        }
    }
    out
}

fn write_replay(a: &Args, z: &Zoo, prop: &str, seed: u64, class: &str, why: &str, min_secs: u64) -> String {
    let shm = shared(std::mem::size_of::<Shm>()) as *mut Shm;
    let s = Gen::scen(z, prop, seed);
    let first = fork_run(z, &s, None, shm);
    let mut note = String::new();
    let (mut cls, mut w) = (class.to_string(), why.to_string());
    match &first.v.viol {
        Some((c, y)) => {
            cls = c.clone();
            w = y.clone();
        }
        None => note += "the violation did not show again with the same seed; ",
    }
    let mut m = Min { z, class: cls.clone(), shm, end: Instant::now() + Duration::from_secs(min_secs), tried: 0 };
    let (mut ms, mut mev) = (s.clone(), first.ev.clone());
    if m.fails(&s, Some(&first.ev)).is_some() {
        let none: Vec<Vec<Ev>> = s.phases.iter().map(|_| vec![]).collect();
        if m.fails(&s, Some(&none)).is_some() {
            mev = none;
            note += "does not depend on the schedule; ";
        }
        let (a, b) = m.go(ms, mev);
        ms = a;
        mev = b;
    } else {
        note += "not minimised: replaying the recorded schedule did not fail; ";
    }
    let last = m.fails(&ms, Some(&mev));
    if let Some(r) = &last {
        w = r.v.viol.clone().unwrap().1;
    }
    note += &format!("{} executions while minimising", m.tried);
    let mut desc = vec![];
    for (pi, p) in ms.phases.iter().enumerate() {
        for (t, th) in p.threads.iter().enumerate() {
            for (l, n) in [(&th.ops, ""), (&th.late_a, "teardown(first) "), (&th.late_b, "teardown(last) ")] {
                for o in l {
                    desc.push(format!("phase {pi} thread {t}: {n}{}", describe(o)));
                }
            }
        }
    }
    for (i, o) in ms.inner.iter().enumerate() {
        desc.push(format!("nested operation {i}: {}", describe(o)));
    }
    let rp = Replay {
        property: prop.into(),
        class: cls.clone(),
        why: w.clone(),
        found_with_seed: seed,
        zoo: serde_json::from_str(&a.s("zoo", "null")).unwrap_or(serde_json::Value::Null),
        profile: a.s("profile", "dev"),
        describe: desc,
        scen: ms,
        events: mev,
        note,
    };
    let dir = a.s("replays", "/verif/out/replays");
    std::fs::create_dir_all(&dir).unwrap();
    let path = format!("{dir}/{prop}-{seed:x}.json");
    std::fs::write(&path, serde_json::to_vec_pretty(&rp).unwrap()).unwrap();
    println!("{}: {}", rp.class, printable(&rp.why));
    for d in &rp.describe {
        println!("  {}", printable(d));
    }
    println!("  {} scheduling decisions; {}", rp.events.iter().map(|e| e.len()).sum::<usize>(), rp.note);
    path
}

/// Control characters escaped, so that a report is plain text whatever the failing input was.
fn printable(s: &str) -> String {
    let mut r = String::new();
    for c in s.chars() {
        if c.is_control() && c != '\n' {
            r.extend(c.escape_default());
        } else {
            r.push(c);
        }
    }
    r
}

pub fn main() {
    no_aslr();
    let mut argv = std::env::args().skip(1);
    let cmd = argv.next().unwrap_or_default();
    let mut a = Args { m: BTreeMap::new() };
    let mut pos = vec![];
    while let Some(k) = argv.next() {
        match k.strip_prefix("--") {
            Some(k) => {
                a.m.insert(k.into(), argv.next().unwrap_or_default());
            }
            None => pos.push(k),
        }
    }
    set_wtab(zoo::WTAB);
    install_hook();
    let mut z = Zoo::load();
    z.patterns = reference_patterns(&z);
    if let Some(f) = a.m.get("decls") {
        z.decls = serde_json::from_slice(&std::fs::read(f).expect("declarations")).expect("declarations");
        unsafe { DECLS = z.decls.clone() };
        z.expansions = reference_expansions(&z);
    }
    match cmd.as_str() {
        "check" => std::process::exit(check(&a, &z)),
        "replay" => std::process::exit(replay(&z, &pos[0])),
        "one" => { let shm = shared(std::mem::size_of::<Shm>()) as *mut Shm; let s=Gen::scen(&z,&a.s("prop","C04"),a.n("seed",1)); let x=fork_run(&z,&s,None,shm); eprintln!("-----"); let y=fork_run(&z,&s,Some(&x.ev),shm); println!("{} {}",x.v.steps,y.v.steps);}
        "selfcheck" => std::process::exit(selfcheck(&a, &z)),
        "show" => {
            let s = Gen::scen(&z, &a.s("prop", "C04"), a.n("seed", 1));
            println!("{}", serde_json::to_string_pretty(&s).unwrap());
            let shm = shared(std::mem::size_of::<Shm>()) as *mut Shm;
            let r = fork_run(&z, &s, None, shm);
            println!("{:#?}", r.v);
        }
        _ => {
            eprintln!("usage: pdsim check|replay|selfcheck|show");
            std::process::exit(2)
        }
    }
}
fn check(a: &Args, z: &Zoo) -> i32 {
    let prop = a.s("prop", "");
    let base = a.n("seed", 1);
    let secs = a.n("secs", 20);
    let nw = a.n("workers", 8);
    let max = a.n("runs", u64::MAX);
    let out = a.s("work", "/tmp");
    let start = Instant::now();
    let end = start + Duration::from_secs(secs);
    let cov = shared(COV);
    let pairs = shared(PAIRS);
    let stop = shared(4096) as *mut u32;
    unsafe { rt_share(cov, pairs) };
    let mut pids = vec![];
    for w in 0..nw {
        let pid = unsafe { libc::fork() };
        if pid == 0 {
            unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL) };
            worker(z, &prop, base, w, nw, end, max, stop, &out);
            unsafe { libc::_exit(0) };
        }
        pids.push(pid);
    }
    for p in pids {
        let mut st = 0;
        while unsafe { libc::waitpid(p, &mut st, 0) } < 0 {}
    }
    let wall = start.elapsed().as_secs_f64();
    let mut t = Tally::default();
    let mut lost = 0;
    for w in 0..nw {
        match std::fs::read(format!("{out}/w{w}.json")).ok().and_then(|b| serde_json::from_slice::<Tally>(&b).ok()) {
            Some(x) => t.merge(&x),
            None => lost += 1,
        }
    }
    if lost > 0 {
        eprintln!("{lost} of {nw} workers did not report");
        if lost == nw {
            return 2;
        }
    }
    if let (Some((s, w)), None) = (&t.harness, &t.found) {
        eprintln!("harness failure with seed {s}: {w}");
        return 2;
    }
    let sigs = load_set(&out, nw, "sig").len();
    let digs = load_set(&out, nw, "dig").len();
    let mut rep = None;
    if let Some((seed, c, why)) = &t.found {
        let p = write_replay(a, z, &prop, *seed, c, why, a.n("minsecs", 60));
        println!("VIOLATION property={prop} replay={p}");
        rep = Some(p);
    }
    let mut samples = vec![];
    for i in 0..3u64 {
        let seed = scen_seed(base, i);
        let s = Gen::scen(z, &prop, seed);
        samples.push(json!({"seed": seed, "phases": s.phases.iter().map(|p| json!({
            "schedule": {"policy": pol(p.sched.policy), "seed": p.sched.seed},
            "threads": p.threads.iter().map(|t| t.ops.iter().chain(&t.late_a).chain(&t.late_b).map(|o| describe(o).chars().take(300).collect::<String>()).collect::<Vec<_>>()).collect::<Vec<_>>()
        })).collect::<Vec<_>>()}));
    }
    let ev = json!({
        "evaluations": t.runs,
        "distinct_nontrivial": digs,
        "rule": "one evaluation = one simulated run from one seed; non-trivial = at least one injected fault fired in it or two threads' operations overlapped; distinct = different recorded history (results, callback log, switch sequence, step counts)",
        "samples": samples,
        "runs_per_hour": (t.runs as f64 / wall * 3600.0) as u64,
        "simulated_seconds": t.sim_ns as f64 / 1e9,
        "scheduling_points": t.steps,
        "context_switches": t.switches,
        "involuntary_switches": t.preempts,
        "declarations": z.decls.len(),
        "declarations_rejected": z.expansions.iter().flatten().filter(|s| s.contains("compile_error") || s.starts_with("panic")).count(),
        "distinct_switch_sequences": sigs,
        "distinct_switch_edge_pairs": ones(pairs, PAIRS),
        "edges_executed": ones(cov, COV),
        "edges_instrumented": unsafe { rt_nguards() },
        "operations": t.ops,
        "operations_checked": t.checked,
        "checks_left_open": t.skipped,
        "operations_overlapping_in_time": t.overlaps,
        "faults_injected": t.fired,
        "scheduler_faults": {"spurious_wakeups": t.spurious, "interrupted_waits": t.eintr, "blocking_waits": t.waits},
        "hash_keys_drawn": t.hash_keys,
        "scheduling_policies": t.policies,
        "threads_per_phase": t.threads,
        "multi_threaded_runs": t.multi,
        "types_in_zoo": z.model.types.len(),
        "violation": t.found.as_ref().map(|f| json!({"seed": f.0, "class": f.1, "why": f.2, "replay": rep})),
    });
    std::fs::write(a.s("result", "/dev/stdout"), serde_json::to_vec_pretty(&ev).unwrap()).unwrap();
    println!("{} runs in {:.1} s, {} operations checked, {} distinct non-trivial histories", t.runs, wall, t.checked, digs);
    (t.found.is_some()) as i32
}
fn replay(z: &Zoo, path: &str) -> i32 {
    let r: Replay = serde_json::from_slice(&std::fs::read(path).expect("replay file")).expect("replay file");
    let shm = shared(std::mem::size_of::<Shm>()) as *mut Shm;
    let mut seen = vec![];
    for _ in 0..3 {
        let o = fork_run(z, &r.scen, Some(&r.events), shm);
        seen.push((o.v.viol.clone(), o.v.digest));
    }
    if seen.iter().any(|s| *s != seen[0]) {
        println!("replay is not deterministic: {seen:?}");
        return 2;
    }
    match &seen[0].0 {
        Some((c, w)) => {
            println!("{c}: {}", printable(w));
            if *c == r.class {
                println!("VIOLATION property={} replay={path}", r.property);
                1
            } else {
                println!("a different failure than the recorded {}", r.class);
                println!("VIOLATION property={} replay={path}", r.property);
                1
            }
        }
        None => {
            println!("the recorded violation ({}) does not occur; {} steps", r.class, fork_run(z, &r.scen, Some(&r.events), shm).v.steps);
            0
        }
    }
}
/// The same seed twice, and its own trace replayed, must give the same history.
fn selfcheck(a: &Args, z: &Zoo) -> i32 {
    let n = a.n("runs", 50);
    let base = a.n("seed", 1);
    let shm = shared(std::mem::size_of::<Shm>()) as *mut Shm;
    let (mut bad, mut viol, mut overflow) = (0, 0, 0);
    let (mut keys, mut waits) = (0, 0);
    let props = a.s("prop", "C01,C02,C03,C04,C05,C06,C07,C08,C09,C10,C11,C12,C16");
    for p in props.split(',') {
        let t0 = Instant::now();
        let mut ops = 0;
        for i in 0..n {
            let seed = scen_seed(base, i);
            let s = Gen::scen(z, p, seed);
            let x = fork_run(z, &s, None, shm);
            let y = fork_run(z, &s, None, shm);
            keys += x.v.hash_keys;
            waits += x.v.waits;
            ops += x.v.checked;
            if x.ev.iter().any(|e| e.len() >= EVCAP) {
                overflow += 1;
                continue;
            }
            let r = fork_run(z, &s, Some(&x.ev), shm);
            if x.v.digest != y.v.digest || x.ev != y.ev {
                bad += 1;
                println!("{p} seed {seed}: two runs differ: {:?} {:?} steps {} {}", x.v.digest, y.v.digest, x.v.steps, y.v.steps);
            } else if x.v.digest != r.v.digest {
                bad += 1;
                if std::env::var_os("PDSIM_EV").is_some() {
                    println!("{:?}", s.phases.iter().map(|p| &p.sched).collect::<Vec<_>>());
                    for (a, b) in x.ev.iter().zip(&r.ev) {
                        let k = a.iter().zip(b).take_while(|(a, b)| a == b).count();
                        println!("common {k} of {} {}: {:?} vs {:?}", a.len(), b.len(), &a[k.saturating_sub(3)..(k + 4).min(a.len())], &b[k.saturating_sub(3)..(k + 4).min(b.len())]);
                    }
                }
                println!("{p} seed {seed}: replay differs: steps {} {} switches {} {}", x.v.steps, r.v.steps, x.v.switches, r.v.switches);
            }
            if let Some(v) = &x.v.viol {
                viol += 1;
                if viol < 40 {
                    println!("{p} seed {seed}: {}: {}", v.0, v.1);
                }
            }
        }
        println!("{p}: {n} seeds, {ops} operations, {:.2} s", t0.elapsed().as_secs_f64());
    }
    println!("{bad} not deterministic, {viol} violations, {overflow} traces too long, {keys} hash keys drawn, {waits} blocking waits");
    (bad > 0) as i32
}
