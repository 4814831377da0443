//! Simulation runtime: everything nondeterministic that the library under test can touch goes
//! through here. This crate is never instrumented.
//!
//! * memory: `SimAlloc` is the global allocator (fault plan, budget, ledger, memory poisoning)
//! * hash seeds: `getrandom` is interposed; std's `RandomState` takes its keys from `HASH_SEED`
//! * threads: baton-passing scheduler; compiler-inserted callbacks (every basic-block edge, load
//!   and store of instrumented crates) and allocator calls are pre-emption points
//! * blocking: futex system calls of simulated threads are turned into scheduling decisions
//! * clock: `clock_gettime` inside a simulated call reads a simulated clock
#![feature(alloc_error_hook)]

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::sync::atomic::{AtomicI64, AtomicU32, AtomicU64, AtomicUsize, Ordering::*};

pub mod rng;
pub mod sched;

thread_local! {
    /// true while code of the library under test runs on this thread
    static ARMED: Cell<bool> = const { Cell::new(false) };
    static ALLOCS: Cell<u64> = const { Cell::new(0) };
    static FAIL_AT: Cell<u64> = const { Cell::new(u64::MAX) };
    static STICKY: Cell<bool> = const { Cell::new(false) };
    static FIRED: Cell<bool> = const { Cell::new(false) };
    static IN_CALL: Cell<bool> = const { Cell::new(false) };
    static FILL: Cell<u8> = const { Cell::new(0xa5) };
    static HASH_SEED: Cell<u64> = const { Cell::new(0x5EED) };
    static HASH_CTR: Cell<u64> = const { Cell::new(0) };
    static PANIC_MSG: RefCell<String> = const { RefCell::new(String::new()) };
    pub(crate) static TID: Cell<usize> = const { Cell::new(usize::MAX) };
}

// ------------------------------------------------------------------------------------ allocator

const MAGIC: u32 = 0x51AB_A110;
const DEAD: u32 = 0xDEAD_F8EE;
const HDR: usize = 16;

pub static LIVE_BYTES: AtomicI64 = AtomicI64::new(0);
pub static LIVE_BLOCKS: AtomicI64 = AtomicI64::new(0);
/// deallocations with a wrong size/align or of something that is not a live block
pub static BAD_FREES: AtomicU64 = AtomicU64::new(0);
pub static BUDGET: AtomicUsize = AtomicUsize::new(64 << 20);
pub static CLOCK_READS: AtomicU64 = AtomicU64::new(0);
pub static RANDOM_READS: AtomicU64 = AtomicU64::new(0);

pub struct SimAlloc;

#[repr(C)]
struct Header {
    magic: u32,
    tag: u32,
    size: u32,
    align: u32,
}

impl SimAlloc {
    #[inline]
    unsafe fn do_alloc(&self, l: Layout, zero: bool) -> *mut u8 {
        let armed = ARMED.try_with(|a| a.get()).unwrap_or(false);
        if armed {
            sched::yield_point();
            let n = ALLOCS.get();
            ALLOCS.set(n + 1);
            if l.size() > BUDGET.load(Relaxed) {
                FIRED.set(true);
                return std::ptr::null_mut();
            }
            let at = FAIL_AT.get();
            // (the message of a panic is formatted with allocations that cannot be let fail)
            if (n == at || (n > at && STICKY.get())) && !std::thread::panicking() {
                FIRED.set(true);
                return std::ptr::null_mut();
            }
        }
        let pad = l.align().max(HDR);
        let full = match Layout::from_size_align(l.size() + pad, pad) {
            Ok(f) => f,
            Err(_) => return std::ptr::null_mut(),
        };
        let base = if zero { System.alloc_zeroed(full) } else { System.alloc(full) };
        if base.is_null() {
            return base;
        }
        let p = base.add(pad);
        let h = p.sub(HDR) as *mut Header;
        // sizes above 4 GiB never get past the budget in armed code and are not used elsewhere
        h.write(Header { magic: MAGIC, tag: armed as u32, size: l.size() as u32, align: l.align() as u32 });
        if armed {
            LIVE_BYTES.fetch_add(l.size() as i64, Relaxed);
            LIVE_BLOCKS.fetch_add(1, Relaxed);
            if !zero {
                std::ptr::write_bytes(p, FILL.get(), l.size());
            }
        }
        p
    }
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        self.do_alloc(l, false)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        self.do_alloc(l, true)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let h = p.sub(HDR) as *mut Header;
        let hd = h.read();
        if hd.magic != MAGIC || hd.size as usize != l.size() & 0xffff_ffff || hd.align as usize != l.align() {
            // keep the block: the run reports it, nothing is corrupted further
            BAD_FREES.fetch_add(1, Relaxed);
            return;
        }
        if ARMED.try_with(|a| a.get()).unwrap_or(false) {
            sched::yield_point();
        }
        if hd.tag == 1 {
            LIVE_BYTES.fetch_sub(l.size() as i64, Relaxed);
            LIVE_BLOCKS.fetch_sub(1, Relaxed);
            std::ptr::write_bytes(p, 0xdd, l.size());
        }
        (*h).magic = DEAD;
        let pad = l.align().max(HDR);
        System.dealloc(p.sub(pad), Layout::from_size_align_unchecked(l.size() + pad, pad));
    }
    // every growth moves the block, so stale pointers into it are always visible
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        let nl = Layout::from_size_align_unchecked(new, l.align());
        let q = self.do_alloc(nl, false);
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(new));
            self.dealloc(p, l);
        }
        q
    }
}

// ------------------------------------------------------------------------------- simulated calls

/// Payload of the unwinding caused by an injected allocation failure.
pub struct InjectedOom;
/// Payload of a panic raised by a caller-supplied callback of the harness.
pub struct InjectedPanic;

#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct Plan {
    /// fail the n-th allocation of the call
    pub fail_at: Option<u64>,
    /// and all later ones until the call ends
    pub sticky: bool,
}

#[derive(Debug)]
pub enum Outcome<T> {
    Done(T),
    /// an allocation was refused and the operation unwound
    Oom,
    /// a harness callback panicked and the operation unwound
    Callback,
    Panic(String),
}

impl<T> Outcome<T> {
    pub fn done(self) -> Option<T> {
        match self {
            Outcome::Done(t) => Some(t),
            _ => None,
        }
    }
    pub fn kind(&self) -> &'static str {
        match self {
            Outcome::Done(_) => "done",
            Outcome::Oom => "oom",
            Outcome::Callback => "callback",
            Outcome::Panic(_) => "panic",
        }
    }
}

#[derive(Clone, Copy, Debug, Default)]
pub struct CallStats {
    pub allocs: u64,
    pub fired: bool,
}

/// Install once per process, before the first simulated call.
pub fn init() {
    std::panic::set_hook(Box::new(|info| {
        let was = ARMED.replace(false);
        if was || TID.get() != usize::MAX {
            let mut m = if let Some(s) = info.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "?".to_string()
            };
            if let Some(l) = info.location() {
                let f = l.file();
                let f = f.rsplit("/src/").next().unwrap_or(f);
                m.push_str(&format!(" @{}", f));
            }
            PANIC_MSG.with(|p| *p.borrow_mut() = m);
        } else {
            eprintln!("harness panic: {info}");
        }
    }));
    std::alloc::set_alloc_error_hook(|_| {
        let was = ARMED.replace(false);
        if !was {
            eprintln!("real allocation failure in the harness");
            unsafe { libc::_exit(97) }
        }
        std::panic::resume_unwind(Box::new(InjectedOom));
    });
}

/// Exit status of a process that was aborted because an allocation was refused.
pub const ABORTED: i32 = 93;

/// Without an error hook, a refused allocation ends the process. Code that does so although it could
/// unwind is within its rights: such an end is told apart from crashes and from other aborts.
pub fn tell_aborts() {
    extern "C" fn on_abort(sig: libc::c_int) {
        unsafe {
            if IN_CALL.get() && FIRED.get() {
                libc::_exit(ABORTED);
            }
            libc::signal(sig, libc::SIG_DFL);
            libc::raise(sig);
        }
    }
    for s in [libc::SIGILL, libc::SIGABRT, libc::SIGTRAP] {
        unsafe {
            libc::signal(s, on_abort as extern "C" fn(libc::c_int) as libc::sighandler_t);
        }
    }
}

/// Panic from a harness callback (a caller-supplied conversion).
pub fn callback_panic() -> ! {
    ARMED.set(false);
    std::panic::resume_unwind(Box::new(InjectedPanic))
}

/// Runs `f`, which calls the library under test, under the given fault plan.
pub fn call<T>(plan: Plan, f: impl FnOnce() -> T) -> (Outcome<T>, CallStats) {
    ALLOCS.set(0);
    FIRED.set(false);
    FAIL_AT.set(plan.fail_at.unwrap_or(u64::MAX));
    STICKY.set(plan.sticky);
    IN_CALL.set(true);
    ARMED.set(true);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    ARMED.set(false);
    IN_CALL.set(false);
    FAIL_AT.set(u64::MAX);
    let st = CallStats { allocs: ALLOCS.get(), fired: FIRED.get() };
    let out = match r {
        Ok(v) => Outcome::Done(v),
        Err(p) => {
            if p.is::<InjectedOom>() {
                Outcome::Oom
            } else if p.is::<InjectedPanic>() {
                Outcome::Callback
            } else {
                Outcome::Panic(PANIC_MSG.with(|m| std::mem::take(&mut *m.borrow_mut())))
            }
        }
    };
    (out, st)
}

/// Lets harness code inside a simulated call run unobserved (no faults, no pre-emption).
pub fn unarmed<T>(f: impl FnOnce() -> T) -> T {
    let was = ARMED.replace(false);
    let r = f();
    ARMED.set(was);
    r
}

/// The library's types are moved between threads even if a change makes them not `Send`: whether
/// they are is a property of its own (C10), and everything else still has to be decided.
pub(crate) struct Force<T>(pub T);
unsafe impl<T> Send for Force<T> {}
impl<T> Force<T> {
    pub fn take(self) -> T {
        self.0
    }
}

pub fn set_fill(b: u8) {
    FILL.set(b);
}

/// Must be called on a thread before its first hash table is created.
pub fn set_hash_seed(s: u64) {
    HASH_SEED.set(s);
    HASH_CTR.set(0);
}

/// Runs `f` as if in a process (or thread) with its own hash keys.
pub fn with_hash_seed<T>(seed: u64, f: impl FnOnce() -> T) -> T {
    let fill = FILL.get();
    let f = Force(f);
    std::thread::scope(|s| {
        s.spawn(move || {
            set_hash_seed(seed);
            set_fill(fill);
            Force(f.take()())
        })
        .join()
        .map(|r| r.take())
        .unwrap_or_else(|_| unsafe {
            eprintln!("harness panic on a simulated thread");
            libc::_exit(98)
        })
    })
}

// ------------------------------------------------------------------------------ interposed symbols

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut libc::c_void, len: usize, _flags: u32) -> isize {
    RANDOM_READS.fetch_add(1, Relaxed);
    let c = HASH_CTR.get();
    HASH_CTR.set(c + 1);
    let mut r = rng::Rng::new(HASH_SEED.get() ^ c.wrapping_mul(0x9E37_79B9_7F4A_7C15));
    let p = buf as *mut u8;
    for i in 0..len {
        *p.add(i) = r.next() as u8;
    }
    len as isize
}

pub static SIM_NANOS: AtomicU64 = AtomicU64::new(1_700_000_000_000_000_000);

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: i32, ts: *mut libc::timespec) -> i32 {
    if ARMED.try_with(|a| a.get()).unwrap_or(false) {
        CLOCK_READS.fetch_add(1, Relaxed);
        let n = SIM_NANOS.fetch_add(1_000_003, Relaxed);
        (*ts).tv_sec = (n / 1_000_000_000) as _;
        (*ts).tv_nsec = (n % 1_000_000_000) as _;
        return 0;
    }
    raw_syscall(libc::SYS_clock_gettime, clk as usize, ts as usize, 0, 0, 0, 0) as i32
}

pub(crate) unsafe fn raw_syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let ret: isize;
    std::arch::asm!("syscall", inlateout("rax") n as isize => ret,
        in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        lateout("rcx") _, lateout("r11") _, options(nostack));
    ret
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    if n == libc::SYS_futex && TID.try_with(|t| t.get()).unwrap_or(usize::MAX) != usize::MAX {
        let op = (b as i32) & 0x7f;
        if op == libc::FUTEX_WAIT || op == libc::FUTEX_WAIT_BITSET {
            if (*(a as *const AtomicU32)).load(SeqCst) != c as u32 {
                *libc::__errno_location() = libc::EAGAIN;
                return -1;
            }
            sched::blocked();
            return 0; // a spurious wake-up, which every futex user must tolerate
        }
        if op == libc::FUTEX_WAKE || op == libc::FUTEX_WAKE_BITSET {
            return 0;
        }
    }
    let r = raw_syscall(n, a, b, c, d, e, f);
    if (-4095..0).contains(&r) {
        *libc::__errno_location() = -r as i32;
        return -1;
    }
    r as i64
}

// -------------------------------------------------------------------- compiler-inserted callbacks

pub const MAX_EDGES: usize = 1 << 16;
static mut EDGE_HITS: [u8; MAX_EDGES] = [0; MAX_EDGES];
static EDGES: AtomicU32 = AtomicU32::new(0);

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(s: *mut u32, e: *mut u32) {
    let mut p = s;
    if p == e || *p != 0 {
        return;
    }
    while p < e {
        *p = EDGES.fetch_add(1, Relaxed) + 1;
        p = p.add(1);
    }
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    if ARMED.try_with(|a| a.get()).unwrap_or(false) {
        let i = *g as usize;
        if i < MAX_EDGES {
            EDGE_HITS[i] = 1;
        }
        sched::yield_point();
    }
}
extern "C" {
    static __data_start: u8;
    static _end: u8;
}
/// Is this writable memory that lives as long as the process?
#[inline]
fn is_global(p: *mut u8) -> bool {
    unsafe { (p as usize) >= (&raw const __data_start) as usize && (p as usize) < (&raw const _end) as usize }
}
macro_rules! cb {
    ($($n:ident),*) => { $(
        #[no_mangle]
        pub extern "C" fn $n(p: *mut u8) {
            if ARMED.try_with(|a| a.get()).unwrap_or(false) { sched::yield_at(is_global(p)); }
        }
    )* }
}
cb!(__sanitizer_cov_load1, __sanitizer_cov_load2, __sanitizer_cov_load4, __sanitizer_cov_load8, __sanitizer_cov_load16,
    __sanitizer_cov_store1, __sanitizer_cov_store2, __sanitizer_cov_store4, __sanitizer_cov_store8, __sanitizer_cov_store16);

pub fn reset_edges() {
    #[allow(static_mut_refs)]
    unsafe { EDGE_HITS.fill(0) }
}
/// Indices of the instrumented edges executed inside simulated calls so far in this process.
pub fn edges_hit() -> Vec<u32> {
    let mut v = vec![];
    for i in 0..MAX_EDGES {
        #[allow(static_mut_refs)]
        if unsafe { EDGE_HITS[i] } != 0 {
            v.push(i as u32);
        }
    }
    v
}
pub fn edges_total() -> u32 {
    EDGES.load(Relaxed)
}
