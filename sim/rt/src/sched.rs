//! Cooperative scheduler for real threads: exactly one simulated thread holds the baton. All
//! scheduling state is only touched by the baton holder.

use crate::rng::Rng;
use crate::{raw_syscall, ARMED, TID};
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, Ordering::*};

pub const MAX_THREADS: usize = 8;
const MAX_LOG: usize = 1 << 15;

#[derive(Clone, Debug)]
pub enum Mode {
    /// pre-empt at each point with probability 1/2^k
    Random { seed: u64, log2: u32 },
    /// the same, and the threads running at these steps, or doing these accesses to global memory, stall until everybody else is done (or waits for them)
    Stall { seed: u64, log2: u32, at: Vec<u64>, at_global: Vec<u64> },
    /// pre-empt at exactly these (global step, target thread)
    Explicit(Vec<(u64, u8)>),
}

struct Sched {
    n: usize,
    active: bool,
    alive: [bool; MAX_THREADS],
    cur: usize,
    step: u64,
    random: bool,
    rng: Rng,
    mask: u64,
    at: Vec<u64>,
    at_global: Vec<u64>,
    globals: u64,
    stalled: usize,
    list: Vec<(u64, u8)>,
    pos: usize,
    log: Vec<(u64, u8)>,
    blocked_streak: u64,
    solo: u64,
    blocked_total: u64,
}

static mut S: Sched = Sched {
    n: 0, active: false, alive: [false; MAX_THREADS], cur: 0, step: 0, random: false,
    rng: Rng::new(0), mask: 0, at: Vec::new(), at_global: Vec::new(), globals: 0, stalled: usize::MAX, list: Vec::new(), pos: 0, log: Vec::new(), blocked_streak: 0, solo: 0, blocked_total: 0,
};
static ACTIVE: AtomicBool = AtomicBool::new(false);
static BATON: [AtomicU32; MAX_THREADS] = [const { AtomicU32::new(0) }; MAX_THREADS];
static ON_DEADLOCK: AtomicU64 = AtomicU64::new(0);

fn wait_for_baton(t: usize) {
    while BATON[t].load(SeqCst) == 0 {
        unsafe { raw_syscall(libc::SYS_futex, BATON[t].as_ptr() as usize, libc::FUTEX_WAIT as usize, 0, 0, 0, 0) };
    }
    BATON[t].store(0, SeqCst);
}
fn pass_baton(t: usize) {
    BATON[t].store(1, SeqCst);
    unsafe { raw_syscall(libc::SYS_futex, BATON[t].as_ptr() as usize, libc::FUTEX_WAKE as usize, 1, 0, 0, 0) };
}

#[allow(static_mut_refs)]
fn st() -> &'static mut Sched {
    unsafe { &mut S }
}

fn next_alive(s: &Sched, from: usize) -> Option<usize> {
    (1..=s.n).map(|d| (from + d) % s.n).find(|t| s.alive[*t])
}
/// The next one that does not stall, if there is one.
fn next_running(s: &Sched, from: usize) -> Option<usize> {
    (1..=s.n).map(|d| (from + d) % s.n).find(|t| s.alive[*t] && *t != s.stalled).or(next_alive(s, from))
}
/// A switch that is due at this very step.
fn due(s: &mut Sched) -> Option<usize> {
    while s.pos < s.list.len() && s.list[s.pos].0 < s.step {
        s.pos += 1;
    }
    if s.pos < s.list.len() && s.list[s.pos].0 == s.step {
        let k = s.list[s.pos].1 as usize;
        s.pos += 1;
        return Some(k).filter(|k| *k < s.n && s.alive[*k]);
    }
    None
}

/// Called by instrumented code, the allocator and the futex seam.
#[inline]
pub fn yield_point() {
    yield_at(false)
}
/// `global`: the access is to memory that is shared by all threads.
#[inline]
pub fn yield_at(global: bool) {
    if ACTIVE.load(Relaxed) {
        let t = TID.get();
        if t != usize::MAX {
            slow_yield(t, global);
        }
    }
}

#[inline(never)]
fn slow_yield(t: usize, global: bool) {
    let s = st();
    s.step += 1;
    s.blocked_streak = 0;
    let mut target = None;
    if s.random {
        s.globals += global as u64;
        let stall = global && s.at_global.last().is_some_and(|a| *a <= s.globals);
        if stall || s.at.last().is_some_and(|a| *a <= s.step) {
            if stall { s.at_global.pop(); } else { s.at.pop(); }
            s.stalled = t;
            target = next_running(s, t).filter(|k| *k != t);
        } else if s.rng.next() & if global { s.mask & 7 } else { s.mask } == 0 {
            let k = s.rng.idx(s.n);
            if k != t && s.alive[k] && k != s.stalled {
                target = Some(k);
            }
        }
    } else {
        target = due(s).filter(|k| *k != t);
    }
    // fairness: a thread spinning on another one's progress must not run for ever
    s.solo += 1;
    if target.is_none() && s.solo > 3_000_000 {
        s.solo = 0;
        target = next_alive(s, t).filter(|k| *k != t);
    }
    if let Some(k) = target {
        if s.log.len() < MAX_LOG {
            s.log.push((s.step, k as u8)); // capacity is reserved, never allocates
        }
        switch(t, k);
    }
}

fn switch(from: usize, to: usize) {
    let armed = ARMED.replace(false);
    let s = st();
    s.cur = to;
    s.solo = 0;
    pass_baton(to);
    wait_for_baton(from);
    ARMED.set(armed);
}

/// The current thread waits for a lock: somebody else has to run.
pub fn blocked() {
    let t = TID.get();
    let s = st();
    s.step += 1;
    s.blocked_streak += 1;
    s.blocked_total += 1;
    s.stalled = usize::MAX;
    match next_alive(s, t) {
        Some(k) if k != t && s.blocked_streak < 10_000 => switch(t, k),
        _ => {
            let f = ON_DEADLOCK.load(SeqCst);
            if f != 0 {
                let f: fn() = unsafe { std::mem::transmute(f as usize) };
                f();
            }
            unsafe { libc::_exit(96) }
        }
    }
}

pub struct Result {
    pub steps: u64,
    pub switches: Vec<(u64, u8)>,
    pub blocked: u64,
    pub globals: u64,
}

/// Runs the given bodies as simulated threads under one schedule. Each body gets its thread id.
pub fn run<F: FnOnce(usize)>(mode: Mode, hash_seeds: &[u64], on_deadlock: fn(), bodies: Vec<F>) -> Result {
    let n = bodies.len();
    assert!(n <= MAX_THREADS && n > 0);
    {
        let s = st();
        *s = Sched {
            n, active: true, alive: [false; MAX_THREADS], cur: 0, step: 0, random: false, rng: Rng::new(0), mask: 0,
            at: Vec::new(), at_global: Vec::new(), globals: 0, stalled: usize::MAX, list: Vec::new(), pos: 0, log: Vec::with_capacity(MAX_LOG), blocked_streak: 0, solo: 0, blocked_total: 0,
        };
        for t in 0..n {
            s.alive[t] = true;
            BATON[t].store(0, SeqCst);
        }
        match mode {
            Mode::Random { seed, log2 } => {
                s.random = true;
                s.rng = Rng::new(seed);
                s.mask = (1u64 << log2) - 1;
            }
            Mode::Stall { seed, log2, mut at, mut at_global } => {
                s.random = true;
                s.rng = Rng::new(seed);
                s.mask = (1u64 << log2) - 1;
                at.sort_by(|a, b| b.cmp(a));
                at.dedup();
                s.at = at;
                at_global.sort_by(|a, b| b.cmp(a));
                s.at_global = at_global;
            }
            Mode::Explicit(l) => s.list = l,
        }
    }
    ON_DEADLOCK.store(on_deadlock as usize as u64, SeqCst);
    ACTIVE.store(true, SeqCst);
    std::thread::scope(|sc| {
        for (t, body) in bodies.into_iter().enumerate() {
            let hs = hash_seeds[t % hash_seeds.len()];
            let body = crate::Force(body);
            sc.spawn(move || {
                let body = body.take();
                crate::set_hash_seed(hs);
                wait_for_baton(t);
                TID.set(t);
                body(t);
                TID.set(usize::MAX);
                let s = st();
                s.alive[t] = false;
                s.step += 1;
                while s.at.last().is_some_and(|a| *a <= s.step) {
                    s.at.pop();
                }
                let usual = next_alive(s, t);
                let k = if s.random { next_running(s, t) } else { due(s).or(usual) };
                if k != usual && s.log.len() < MAX_LOG {
                    s.log.push((s.step, k.unwrap() as u8));
                }
                if let Some(k) = k {
                    s.cur = k;
                    s.solo = 0;
                    s.blocked_streak = 0;
                    pass_baton(k);
                }
            });
        }
        pass_baton(0);
    });
    ACTIVE.store(false, SeqCst);
    let s = st();
    let _ = (s.active, s.cur);
    Result { steps: s.step, switches: std::mem::take(&mut s.log), blocked: s.blocked_total, globals: s.globals }
}
