//! Fault plans attached to single operations.
use serde::{Deserialize, Serialize};
use simrt::{rng::Rng, Outcome, Plan};

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq, Default)]
pub enum Fault {
    #[default]
    None,
    /// refuse the n-th allocation of the operation, then retry without a fault
    Alloc(u64),
    /// refuse the n-th and all later allocations, then retry without a fault
    Exhausted(u64),
    /// refuse the first allocation, retry refusing the second, and so on until nothing is refused
    EveryAlloc,
    /// the conversion of the first (index) argument panics
    Arg1Panics,
    /// the conversion of the second (data) argument panics
    Arg2Panics,
    /// first argument one bit too wide (debug builds reject it)
    Arg1Wide,
    Arg2Wide,
}

pub fn gen_fault(r: &mut Rng, den: u64) -> Fault {
    if den == 0 || !r.chance(1, den) {
        return Fault::None;
    }
    match r.below(10) {
        0..=2 => Fault::Alloc(r.below(3)),
        3 => Fault::Exhausted(r.below(2)),
        4..=6 => Fault::EveryAlloc,
        7 => Fault::Arg1Panics,
        8 => Fault::Arg2Panics,
        _ => {
            if r.chance(1, 2) {
                Fault::Arg1Wide
            } else {
                Fault::Arg2Wide
            }
        }
    }
}

/// The attempts of one operation. The last one has no fault.
pub struct Attempts {
    f: Fault,
    n: u64,
    last: bool,
}

pub struct Try {
    pub plan: Plan,
    pub arg1: Spoil,
    pub arg2: Spoil,
    pub clean: bool,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Spoil {
    No,
    Panic,
    Wide,
}

impl Attempts {
    pub fn new(f: Fault) -> Attempts {
        Attempts { f, n: 0, last: false }
    }
    /// `fired`: whether the fault of the previous attempt took effect
    pub fn next(&mut self, fired: bool) -> Option<Try> {
        if self.last {
            return None;
        }
        let mut t = Try { plan: Plan::default(), arg1: Spoil::No, arg2: Spoil::No, clean: false };
        let first = self.n == 0;
        match self.f {
            Fault::Alloc(n) if first => t.plan = Plan { fail_at: Some(n), sticky: false },
            Fault::Exhausted(n) if first => t.plan = Plan { fail_at: Some(n), sticky: true },
            Fault::EveryAlloc if first || (fired && self.n < 40) => t.plan = Plan { fail_at: Some(self.n), sticky: false },
            Fault::Arg1Panics if first => t.arg1 = Spoil::Panic,
            Fault::Arg2Panics if first => t.arg2 = Spoil::Panic,
            Fault::Arg1Wide if first && cfg!(debug_assertions) => t.arg1 = Spoil::Wide,
            Fault::Arg2Wide if first && cfg!(debug_assertions) => t.arg2 = Spoil::Wide,
            _ => {
                t.clean = true;
                self.last = true;
            }
        }
        self.n += 1;
        Some(t)
    }
    pub fn retried(&self) -> bool {
        self.n > 1
    }
    /// no further attempt
    pub fn stop(&mut self) {
        self.last = true;
    }
}

/// Runs a library call, in a "process" with hash keys of its own if `h` is given.
pub fn go<T>(h: Option<u64>, plan: Plan, f: impl FnOnce() -> T) -> (Outcome<T>, bool, u64) {
    let (o, st) = match h {
        None => simrt::call(plan, f),
        Some(s) => simrt::with_hash_seed(s, || simrt::call(plan, f)),
    };
    (o, st.fired, st.allocs)
}

/// Argument of a library call: an owned or borrowed value, or a conversion that panics.
pub enum Arg<'a> {
    Own(&'a baa::BitVecValue),
    Ref(baa::BitVecValueRef<'a>),
    Panics,
}
impl<'a> From<Arg<'a>> for baa::BitVecValueRef<'a> {
    fn from(a: Arg<'a>) -> Self {
        match a {
            Arg::Own(v) => v.into(),
            Arg::Ref(r) => r,
            Arg::Panics => simrt::callback_panic(),
        }
    }
}
