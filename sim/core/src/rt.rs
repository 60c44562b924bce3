//! FFI to the scheduler runtime (rt/rt.c).
use std::alloc::{GlobalAlloc, Layout};

#[repr(C)]
#[derive(Clone, Copy, Debug, Default, PartialEq, serde::Serialize, serde::Deserialize)]
pub struct Ev {
    pub step: i64,
    pub kind: i32,
    pub val: i32,
}

#[repr(C)]
#[derive(Clone, Copy)]
pub struct Cfg {
    pub policy: i32,
    pub count_alloc: i32,
    pub count_mem: i32,
    pub npct: i32,
    pub seed: u64,
    pub hash_seed: u64,
    pub mean: f64,
    pub cb_p: f64,
    pub spur_p: f64,
    pub max_preempt: i64,
    pub max_steps: i64,
    pub max_slice: i64,
    pub pct_len: i64,
    pub rnd_base: u64,
    pub replay: *const Ev,
    pub nreplay: i64,
}

#[repr(C)]
#[derive(Clone, Copy, Debug, Default)]
pub struct Stat {
    pub steps: i64,
    pub switches: i64,
    pub preempts: i64,
    pub futex_waits: i64,
    pub futex_wakes: i64,
    pub spurious: i64,
    pub eintr: i64,
    pub timeouts: i64,
    pub sim_ns: i64,
    pub allocs: i64,
    pub refused: i64,
    pub hash_keys: i64,
    pub yields: i64,
    pub sleeps: i64,
    pub stalls: i64,
    pub sig: u64,
    pub nev: i64,
    pub ev_overflow: i64,
}

pub const POL_SERIAL: i32 = 0;
pub const POL_GEOM: i32 = 1;
pub const POL_PCT: i32 = 2;
pub const POL_CB: i32 = 3;
pub const POL_REPLAY: i32 = 4;

extern "C" {
    pub static mut rt_stat: Stat;
    pub fn rt_setup(n: i32, c: *const Cfg, buf: *mut Ev, cap: i64, nev: *mut i64);
    pub fn rt_share(cov: *mut u8, pairs: *mut u8);
    pub fn rt_nguards() -> u32;
    pub fn rt_refused() -> i64;
    pub fn rt_live() -> i64;
    pub fn rt_total() -> i64;
    pub fn rt_hash_seed(s: u64);
    pub fn rt_enter(id: i32);
    pub fn rt_wait_entered(n: u32);
    pub fn rt_go();
    pub fn rt_finish();
    pub fn rt_release(id: i32);
    pub fn rt_tid() -> i32;
    pub fn rt_is_active() -> i32;
    pub fn rt_nopreempt_set(d: i32) -> i32;
    pub fn rt_refuse(on: i32);
    pub fn rt_cb_point();
    pub fn rt_stall();
    pub fn rt_sleep_ns(ns: i64);
    pub fn rt_block_on(key: *const u8);
    pub fn rt_wake_all(key: *const u8);
    pub fn rt_steps() -> i64;
    pub fn rt_snapshot_stat();
    fn rt_alloc(n: usize, align: usize) -> *mut u8;
    fn rt_free(p: *mut u8, n: usize, align: usize);
}

pub struct SimAlloc;
unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        rt_alloc(l.size(), l.align())
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        rt_free(p, l.size(), l.align())
    }
}

/// Runs simulator code: no scheduling point inside.
pub struct NoPreempt(i32);
impl NoPreempt {
    #[inline]
    pub fn new() -> Self {
        NoPreempt(unsafe { rt_nopreempt_set(1) })
    }
}
impl Drop for NoPreempt {
    #[inline]
    fn drop(&mut self) {
        unsafe { rt_nopreempt_set(self.0) };
    }
}
/// Runs code under test from inside simulator code.
pub struct Preempt(i32);
impl Preempt {
    pub fn new() -> Self {
        Preempt(unsafe { rt_nopreempt_set(0) })
    }
}
impl Drop for Preempt {
    fn drop(&mut self) {
        unsafe { rt_nopreempt_set(self.0) };
    }
}

#[derive(Clone)]
pub struct Rng(pub u64);
pub fn mix(z: u64) -> u64 {
    let mut z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
impl Rng {
    pub fn new(s: u64) -> Self {
        Rng(mix(s))
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        mix(self.0)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            return 0;
        }
        (self.u64() % n as u64) as usize
    }
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    pub fn f(&mut self) -> f64 {
        (self.u64() >> 11) as f64 / 9007199254740992.0
    }
    pub fn p(&mut self, x: f64) -> bool {
        self.f() < x
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
}
pub fn fnv(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for &x in b {
        h = (h ^ x as u64).wrapping_mul(0x100000001b3);
    }
    mix(h)
}
