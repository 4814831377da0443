//! C13: everything is given back to the simulated allocator, and sparse arrays stay small.
use crate::bv::{self, V};
use crate::iso::{self, Call, Operands, Shared};
use crate::rep::{fold, Rep};
use baa::*;
use serde::{Deserialize, Serialize};
use simrt::rng::Rng;
use simrt::{Outcome, Plan};
use std::collections::BTreeSet;
use std::sync::atomic::Ordering::Relaxed;

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Scn {
    pub hash: u64,
    pub fill: u8,
    pub parts: Vec<Part>,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Part {
    /// histories of the other worlds, run for their effect on memory
    Arr(crate::arr::Scn),
    Int(crate::int::Scn),
    Store(crate::store::Scn),
    Snap(crate::snap::Scn),
    /// operations on shared operands; results are kept and dropped in another order
    Ops { ops: Operands, calls: Vec<(Call, u8)> },
    /// one sparse array under many stores
    Churn { iw: u32, d: V, steps: Vec<Churn> },
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Churn {
    pub kind: u8,
    pub i: V,
    pub d: V,
    pub n: u32,
    pub stride: u64,
    /// refuse this allocation of every 8th operation
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub f: Option<u64>,
}

fn live() -> (i64, i64) {
    (simrt::LIVE_BYTES.load(Relaxed), simrt::LIVE_BLOCKS.load(Relaxed))
}
fn bad() -> u64 {
    simrt::BAD_FREES.load(Relaxed)
}

pub fn gen(_p: &str, r: &mut Rng, long: bool) -> Scn {
    let n = if long { r.range(2, 8) } else { r.range(1, 4) };
    let parts = (0..n)
        .map(|_| match r.below(10) {
            0 | 1 => Part::Arr(crate::arr::gen(if r.chance(1, 3) { "C01" } else { "C04" }, r, false)),
            2 => Part::Int(crate::int::gen("C06", r, false)),
            3 => Part::Store(crate::store::gen("C08", r, false)),
            4 => Part::Snap(crate::snap::gen("C09", r, false)),
            5 | 6 | 7 => {
                let ops = iso::gen_operands(r);
                let fden = *r.pick(&[0u64, 2, 4]);
                let calls = (0..r.range(3, 60)).map(|_| (iso::gen_call(r, &ops, fden), r.below(6) as u8)).collect();
                Part::Ops { ops, calls }
            }
            _ => gen_churn(r, long),
        })
        .collect();
    Scn { hash: r.next() >> 16, fill: *r.pick(&[0, 0xa5, 0xff]), parts }
}

fn gen_churn(r: &mut Rng, long: bool) -> Part {
    let iw = *r.pick(&[8u32, 10, 16, 31, 32, 33, 63, 64, 65, 70, 128, 129, 200]);
    let dw = *r.pick(&[1u32, 2, 8, 16, 64, 65, 128, 129, 256]);
    let d = bv::gen(r, dw, &[]);
    let fden = *r.pick(&[0u64, 0, 3]);
    let steps = (0..r.range(2, 8))
        .map(|_| {
            let mut e = bv::gen(r, dw, &[]);
            if e == d || r.chance(1, 8) {
                e = e.not();
            }
            Churn {
                kind: r.below(11) as u8,
                i: bv::gen(r, iw, &[]),
                d: e,
                n: {
                    let m = match r.below(600) {
                        0 => 70_000,
                        1..=9 => 6_000,
                        _ => *r.pick::<u64>(if long { &[60u64, 3000] } else { &[60u64, 60, 1500] }),
                    };
                    r.range(1, m) as u32
                },
                stride: *r.pick(&[1u64, 1, 2, 3, 64, 255, 1 << 20]),
                f: if fden > 0 && r.chance(1, fden) { Some(r.below(3)) } else { None },
            }
        })
        .collect();
    Part::Churn { iw, d, steps }
}

/// Touches every kind of operation once, so that whatever a process sets up only once is set up.
fn warm_up() {
    let mut r = Rng::new(0xba5e);
    let mut rep = Rep::default();
    let ops = iso::gen_operands(&mut r);
    let calls = (0..iso::NOPS as u8)
        .map(|k| {
            let mut c = iso::gen_call(&mut r, &ops, 3);
            c.op = k % iso::NOPS as u8;
            (c, 0)
        })
        .collect();
    let parts = vec![
        Part::Arr(crate::arr::gen("C04", &mut r, false)),
        Part::Int(crate::int::gen("C06", &mut r, false)),
        Part::Store(crate::store::gen("C08", &mut r, false)),
        Part::Ops { ops, calls },
    ];
    for p in &parts {
        part(p, &mut rep, 0);
    }
}

pub fn run(_p: &str, scn: &Scn, rep: &mut Rep) {
    simrt::set_fill(scn.fill);
    let bad0 = bad();
    warm_up();
    for (n, p) in scn.parts.iter().enumerate() {
        let before = live();
        part(p, rep, n);
        if rep.over() {
            return;
        }
        let after = live();
        rep.see((n, after.0 - before.0));
        if after != before {
            rep.fail(
                n,
                "leak",
                format!(
                    "{} bytes in {} blocks allocated by the library were not returned after everything produced by {} was dropped",
                    after.0 - before.0,
                    after.1 - before.1,
                    name(p)
                ),
            );
            return;
        }
        if bad() != bad0 {
            rep.fail(n, "bad-free", format!("memory was returned with a size or alignment it was not requested with, or twice ({})", name(p)));
            return;
        }
    }
}

fn name(p: &Part) -> &'static str {
    match p {
        Part::Arr(_) => "a history of array operations",
        Part::Int(_) => "a history of interning",
        Part::Store(_) => "a history of in-place updates",
        Part::Snap(_) => "a history of snapshots",
        Part::Ops { .. } => "operations on values",
        Part::Churn { .. } => "stores to a sparse array",
    }
}

fn part(p: &Part, rep: &mut Rep, n: usize) {
    // what these worlds decide is not decided here
    let sub = |f: &mut dyn FnMut(&mut Rep), rep: &mut Rep| {
        let mut q = Rep::default();
        f(&mut q);
        rep.ops += q.ops;
        rep.fired += q.fired;
        for (k, v) in &q.counts {
            if k.starts_with("fault:") {
                rep.add(k, *v);
            }
        }
        rep.sig((n, q.sig));
        rep.see(q.trace);
        if q.viol.is_some() {
            rep.count("probe:history cut short by a violation of another property");
        }
    };
    rep.count(&format!("part:{}", name(p)));
    match p {
        Part::Arr(s) => sub(&mut |q| simrt::with_hash_seed(s.hash, || crate::arr::run("C04", s, q)), rep),
        Part::Int(s) => sub(&mut |q| simrt::with_hash_seed(s.hash, || crate::int::run("C06", s, q)), rep),
        Part::Store(s) => sub(&mut |q| simrt::with_hash_seed(s.hash, || crate::store::run("C08", s, q)), rep),
        Part::Snap(s) => sub(&mut |q| simrt::with_hash_seed(s.hash, || crate::snap::run("C09", s, q)), rep),
        Part::Ops { ops, calls } => run_ops(ops, calls, rep, n),
        Part::Churn { iw, d, steps } => run_churn(*iw, d, steps, rep, n),
    }
}

fn run_ops(ops: &Operands, calls: &[(Call, u8)], rep: &mut Rep, n: usize) {
    let (o, _) = simrt::call(Plan::default(), || Shared::build(ops, None));
    let Outcome::Done(Some(sh)) = o else { return };
    let mut kept = vec![];
    for (c, keep) in calls {
        let before = live();
        let plan = Plan { fail_at: c.f, sticky: false };
        let (o, st) = simrt::call(plan, || iso::exec(&sh, c, &mut iso::Own::default()));
        rep.ops += 1;
        if st.fired {
            rep.fault("allocation refused");
        } else if matches!(o, Outcome::Panic(_) | Outcome::Callback) {
            rep.fault("operation unwound");
        }
        rep.sig((c.op, o.kind()));
        if *keep > 2 {
            kept.push(o);
            if *keep == 5 && kept.len() > 1 {
                kept.swap_remove(c.i as usize % 2);
            }
        } else {
            drop(o);
            let after = live();
            if after != before {
                rep.fail(
                    n,
                    "leak",
                    format!("{} bytes in {} blocks were not returned after the result of {} was dropped", after.0 - before.0, after.1 - before.1, iso::name(c)),
                );
                return;
            }
        }
    }
    rep.see(fold(kept.len() as u64, live()));
}

fn run_churn(iw: u32, d: &V, steps: &[Churn], rep: &mut Rep, n: usize) {
    let iw = iw.clamp(1, 300);
    let dw = d.w.clamp(1, 400);
    let d = d.fit(dw);
    let base = live().0;
    let (o, _) = simrt::call(Plan::default(), || ArrayValue::new_sparse(iw, d.r()));
    let Outcome::Done(mut a) = o else { return };
    let mut default = d;
    let mut set: BTreeSet<V> = BTreeSet::new();
    let mut peak = 0usize;
    let mut stores = 0u64;
    // generous: a table of twice the size needed, kept at 1/8 load, with all words of both values
    let entry = 80 + 8 * (bv::nwords(iw) + bv::nwords(dw));
    for (sn, s) in steps.iter().enumerate() {
        let mut idx = s.i.fit(iw);
        let v = s.d.fit(dw);
        let cnt = s.n.min(80_000);
        let mut tick = 0u64;
        let mut store = |a: &mut ArrayValue, i: &V, x: &V, set: &mut BTreeSet<V>, default: &V, rep: &mut Rep, stores: &mut u64| {
            tick += 1;
            let plan = Plan { fail_at: s.f.filter(|_| tick % 8 == 3), sticky: false };
            let (o, st) = simrt::call(plan, || a.store(i.r(), x.r()));
            rep.ops += 1;
            *stores += 1;
            if st.fired {
                rep.fault("allocation refused");
            }
            let done = matches!(o, Outcome::Done(_));
            drop(o);
            if !done {
                let (_, _) = simrt::call(Plan::default(), || a.store(i.r(), x.r()));
            }
            if x == default {
                set.remove(i);
            } else {
                set.insert(i.clone());
            }
        };
        match s.kind {
            // the default, everywhere
            0 => {
                let x = default.clone();
                for _ in 0..cnt {
                    store(&mut a, &idx, &x, &mut set, &default, rep, &mut stores);
                    peak = peak.max(set.len());
                    idx = idx.add(&V::u(s.stride, iw));
                }
            }
            // a value that is taken back at once
            1 | 2 => {
                let x = default.clone();
                for _ in 0..cnt {
                    store(&mut a, &idx, &v, &mut set, &default, rep, &mut stores);
                    peak = peak.max(set.len());
                    store(&mut a, &idx, &x, &mut set, &default, rep, &mut stores);
                    idx = idx.add(&V::u(s.stride, iw));
                }
            }
            // some elements, several times
            3 | 4 => {
                let m = cnt.min(40);
                for k in 0..cnt {
                    let i = idx.add(&V::u(s.stride.wrapping_mul((k % m) as u64), iw));
                    let x = if k / m % 2 == 0 { v.clone() } else { v.not() };
                    store(&mut a, &i, &x, &mut set, &default, rep, &mut stores);
                    peak = peak.max(set.len());
                }
            }
            // a window of a few elements that moves
            5 => {
                let x = default.clone();
                let mut q = std::collections::VecDeque::new();
                for _ in 0..cnt {
                    store(&mut a, &idx, &v, &mut set, &default, rep, &mut stores);
                    peak = peak.max(set.len());
                    q.push_back(idx.clone());
                    if q.len() > 5 {
                        let o = q.pop_front().unwrap();
                        store(&mut a, &o, &x, &mut set, &default, rep, &mut stores);
                    }
                    idx = idx.add(&V::u(s.stride, iw));
                }
            }
            6 => {
                // fill and clear, over and over
                for _ in 0..cnt.min(30) {
                    for _ in 0..10 {
                        store(&mut a, &idx, &v, &mut set, &default, rep, &mut stores);
                        idx = idx.add(&V::u(s.stride, iw));
                    }
                    peak = peak.max(set.len());
                    let (o, _) = simrt::call(Plan::default(), || a.clear());
                    if !matches!(o, Outcome::Done(_)) {
                        return;
                    }
                    default = V::zero(dw);
                    set.clear();
                }
            }
            // elements that stay
            8 => {
                for k in 0..cnt as u64 {
                    let x = v.add(&V::u(k, dw));
                    store(&mut a, &idx, &x, &mut set, &default, rep, &mut stores);
                    idx = idx.add(&V::u(s.stride, iw));
                }
                peak = peak.max(set.len());
            }
            // elements that stay for a while, and give way in another order
            9 | 10 => {
                let x = default.clone();
                for round in 0..3 {
                    let mut at = vec![];
                    for _ in 0..cnt / 3 {
                        store(&mut a, &idx, &v, &mut set, &default, rep, &mut stores);
                        at.push(idx.clone());
                        idx = idx.add(&V::u(s.stride, iw));
                    }
                    peak = peak.max(set.len());
                    if s.kind == 10 {
                        at.reverse();
                    }
                    let keep = if round == 2 { 0 } else { at.len() / 10 };
                    for i in at.iter().skip(keep) {
                        store(&mut a, i, &x, &mut set, &default, rep, &mut stores);
                    }
                }
            }
            _ => {
                // replaced by its clone, through the other types
                let (o, _) = simrt::call(Plan::default(), || ArrayValue::try_from(Value::Array(a.clone())).unwrap());
                match o {
                    Outcome::Done(b) => a = b,
                    _ => return,
                }
                // reading and comparing leaves nothing behind
                for _ in 0..cnt.min(50) {
                    let (o, _) = simrt::call(Plan::default(), || (a.select(idx.r()), a.is_equal(&a)));
                    drop(o);
                    idx = idx.add(&V::u(s.stride, iw));
                }
            }
        }
        let held = live().0 - base;
        let bound = (16 * entry * (peak.min(256) + 4) + 5 * entry * peak + 4096) as i64;
        rep.sig((s.kind, iw, dw, peak.next_power_of_two(), s.f));
        rep.see(held);
        if held > bound {
            rep.fail(
                n,
                "sparse-growth",
                format!("step {sn}: after {stores} stores a sparse {iw} -> {dw} bit array that never held more than {peak} non-default elements holds {held} bytes"),
            );
            return;
        }
    }
    rep.count("probe:sparse array measured");
}
