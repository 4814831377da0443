//! C01-C04: histories of array operations by several clients, against a reference model.
use crate::bv::{self, rd, V};
use crate::plan::*;
use crate::rep::Rep;
use baa::*;
use serde::{Deserialize, Serialize};
use simrt::rng::Rng;
use simrt::Outcome;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Scn {
    /// hash keys of the process
    pub hash: u64,
    /// contents of fresh memory
    pub fill: u8,
    pub steps: Vec<Step>,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Step {
    /// client that issues the operation
    pub c: u8,
    pub op: Op,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub h: Option<u64>,
    #[serde(default, skip_serializing_if = "is_none")]
    pub f: Fault,
}
fn is_none(f: &Fault) -> bool {
    *f == Fault::None
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Op {
    NewDense { s: usize, iw: u32, d: V },
    NewSparse { s: usize, iw: u32, d: V },
    /// SparseArrayValue::new
    NewBare { s: usize, iw: u32, d: V },
    FromBool { s: usize, v: String },
    FromU8 { s: usize, v: Vec<u8> },
    FromU64 { s: usize, v: Vec<u64> },
    Store { s: usize, i: V, d: V },
    /// stores the data at `n` consecutive indices from `i`, adding `inc` to the data each time
    StoreMany { s: usize, i: V, d: V, n: u32, inc: u64 },
    /// very many stores: at i, i+stride, ... the data d + ((k + rot) mod m) * inc
    Bulk {
        s: usize,
        i: V,
        d: V,
        n: u32,
        stride: u64,
        m: u32,
        inc: u64,
        /// the data take turns from here
        #[serde(default)]
        rot: u32,
    },
    Select { s: usize, i: V },
    Clear { s: usize },
    Clone { s: usize, t: usize },
    /// copies element by element (indices permuted by xor), if the types agree and are small
    CopyElems { s: usize, t: usize, x: u64 },
    MakeDense { s: usize },
    /// SparseArrayValue::from(array)
    ToBare { s: usize, t: usize },
    /// through Value and back
    Wrap { s: usize, t: usize },
    Compare { s: usize, t: usize },
    Entries { s: usize },
    Drop { s: usize },
    /// an array with more distinct elements than the default search keeps
    Huge { n: u32, mul: u64, wide: bool },
    /// a dense array of many megabytes, still within the documented limit of 1 GiB
    Big { iw: u32, d: V, ix: Vec<u64> },
}

const SLOTS: usize = 6;
const IW: &[u32] = &[0, 1, 1, 2, 2, 2, 3, 3, 3, 4, 5, 6, 7, 8, 9, 10, 12, 14, 16, 31, 32, 33, 40, 63, 64, 65, 66, 70, 100, 127, 128, 129, 130, 192, 200];
const DW: &[u32] = &[1, 1, 1, 2, 3, 4, 7, 8, 8, 9, 12, 16, 31, 32, 33, 63, 64, 64, 65, 66, 72, 127, 128, 129, 130, 191, 192, 193, 256, 300];

fn gen_val_array(r: &mut Rng, s: usize) -> Op {
    match r.below(3) {
        0 => {
            let n = *r.pick(&[0usize, 1, 2, 3, 4, 5, 7, 8, 9, 16, 31, 33, 64, 65, 100, 129, 200]);
            let p = r.below(4);
            Op::FromBool { s, v: (0..n).map(|_| if r.below(4) <= p { '1' } else { '0' }).collect() }
        }
        1 => {
            let n = *r.pick(&[0usize, 1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 31, 64, 100, 256, 300]);
            let m = *r.pick(&[1u64, 2, 7, 9, 255, 256]);
            let b = r.below(256);
            Op::FromU8 { s, v: (0..n).map(|_| (b + r.below(m)) as u8).collect() }
        }
        _ => {
            let n = *r.pick(&[0usize, 1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 31, 64, 100]);
            let a = [0, 1, 2, 255, 256, u64::MAX, u64::MAX - 1, 1 << 63, r.next(), r.next()];
            let m = r.range(1, a.len() as u64) as usize;
            let o = r.idx(a.len());
            Op::FromU64 { s, v: (0..n).map(|_| a[(o + r.idx(m)) % a.len()]).collect() }
        }
    }
}

/// Few steps, but hundreds to tens of thousands of elements.
fn gen_bulk(prop: &str, r: &mut Rng) -> Scn {
    let large = r.chance(1, 8);
    let n = if large {
        *r.pick(&[8_192, 8_200, 16_384, 17_000, 33_000, 65_536, 66_000, 70_000])
    } else {
        *r.pick(&[255, 256, 257, 300, 511, 513, 600, 1_000, 1_023, 1_024, 1_025, 1_100, 2_047, 2_050, 3_000, 4_096, 4_100, 5_000])
    } as u32;
    let mut log = 0;
    while (1u32 << log) < n {
        log += 1;
    }
    let iw = *r.pick(&[log, log, log + 1, log + 1, log + 3, 16, 20, 32, 63, 64, 65, 100, 130]).max(&log);
    let dw = *r.pick(&[1u32, 2, 8, 8, 9, 16, 33, 64, 64, 65, 130]);
    let dense_ok = iw <= 16 || large && iw <= 17;
    if prop == "C03" && r.chance(1, 8) {
        // very many different elements, and behind them many equal ones
        let iw = *r.pick(&[17u32, 17, 18]);
        let dw = *r.pick(&[17u32, 20, 33, 64, 65, 130]);
        let d = bv::gen(r, dw, &[]);
        let n = *r.pick(&[65_530u32, 65_537, 66_000, 80_000, 99_000]);
        let inc = if r.chance(1, 2) { 1 } else { r.next() | 1 };
        let steps = vec![
            Op::NewDense { s: 0, iw, d: d.clone() },
            Op::Bulk { s: 0, i: V::zero(iw), d: d.add(&V::u(1, dw)), n, stride: 1, m: n, inc, rot: 0 },
            Op::ToBare { s: 0, t: 2 },
        ];
        let steps = steps.into_iter().map(|op| Step { c: 0, op, f: Fault::None, h: None }).collect();
        return Scn { hash: r.next() >> 16, fill: 0xa5, steps };
    }
    let ds: Vec<V> = (0..r.range(1, 3)).map(|_| bv::gen(r, dw, &[])).collect();
    let is: Vec<V> = (0..3).map(|_| bv::gen(r, iw, &[])).collect();
    let strides = [1u64, 1, 1, r.next() | 1, 3, 1 << (iw / 2).min(63), (1u64 << 32) + 1];
    let mut steps = vec![];
    let mk = |r: &mut Rng, s: usize| {
        let d = r.pick(&ds).clone();
        match r.below(4) {
            0 | 1 if dense_ok => Op::NewDense { s, iw, d },
            2 => Op::NewBare { s, iw, d },
            _ => Op::NewSparse { s, iw, d },
        }
    };
    let kinds = [(0, 9), (1, 4), (2, 2), (3, 2), (4, 3), (5, 3), (6, 1), (7, if prop == "C02" { 5 } else { 1 }), (8, if prop == "C03" { 5 } else { 1 }), (9, if matches!(prop, "C01" | "C04") { 3 } else { 1 })];
    for s in 0..2 {
        steps.push(mk(r, s));
    }
    if dense_ok && r.chance(1, if prop == "C03" { 3 } else { 12 }) {
        // many different elements first, behind them many equal ones
        let d = r.pick(&ds).clone();
        let inc = if r.chance(1, 2) { 1 } else { r.next() | 1 };
        steps.push(Op::NewDense { s: 0, iw, d: d.clone() });
        steps.push(Op::Bulk { s: 0, i: V::zero(iw), d, n, stride: 1, m: if r.chance(2, 3) { n } else { n / 2 }, inc, rot: 0 });
        steps.push(Op::ToBare { s: 0, t: 2 });
    }
    for _ in 0..r.range(3, if large { 7 } else { 14 }) {
        let (s, t) = (r.idx(3), r.idx(3));
        let mut x = r.below(kinds.iter().map(|k| k.1).sum());
        let k = kinds.iter().find(|k| if x < k.1 { true } else { x -= k.1; false }).unwrap().0;
        if k == 0 && r.chance(1, 3) {
            // the same once more, elsewhere
            if let Some(Op::Bulk { i, d, n, stride, m, inc, rot, .. }) = steps.iter().rev().find(|o| matches!(o, Op::Bulk { .. })).cloned() {
                // or the same elements in another order
                let rot = if r.chance(1, 3) { r.below(m as u64) as u32 } else { rot };
                steps.push(Op::Bulk { s, i, d, n, stride, m, inc, rot });
                continue;
            }
        }
        if k == 7 && r.chance(1, 3) {
            // the same elements in another order
            if let Some(Op::Bulk { s, i, d, n, stride, m, inc, .. }) = steps.iter().rev().find(|o| matches!(o, Op::Bulk { .. })).cloned() {
                let t = 3;
                let n = (n - n % m).max(1);
                let rot = r.below(m as u64) as u32;
                steps.push(Op::Bulk { s, i: i.clone(), d: d.clone(), n, stride, m, inc, rot: 0 });
                steps.push(Op::Clone { s, t });
                steps.push(Op::Bulk { s: t, i, d, n, stride, m, inc, rot });
                steps.push(Op::Compare { s, t });
                continue;
            }
        }
        if k == 7 && dense_ok && r.chance(1, 2) {
            // the same contents in both representations, perhaps up to one element
            let t = 3;
            steps.push(Op::Clone { s, t });
            if r.chance(1, 3) {
                steps.push(Op::MakeDense { s: t });
            }
            if r.chance(1, 2) {
                steps.push(Op::Store { s: t, i: if r.chance(1, 2) { r.pick(&is).clone() } else { bv::gen(r, iw, &is) }, d: r.pick(&ds).clone() });
            }
            // elements of either changed a little, one after the other
            if let Some(Op::Bulk { i, d, n, stride, m, inc, .. }) = steps.iter().rev().find(|o| matches!(o, Op::Bulk { .. })).cloned() {
                for _ in 0..r.below(5) {
                    steps.push(Op::MakeDense { s: t });
                    let k = if r.chance(1, 2) { r.below(n as u64) } else { n as u64 - 1 };
                    let mut x = d.add(&V::u((k % m.max(1) as u64).wrapping_mul(inc), d.w));
                    let i = i.add(&V::u(k.wrapping_mul(stride), i.w));
                    let b = if r.chance(1, 2) { d.w - 1 } else { r.below(d.w as u64) as u32 };
                    let old = x.bit(b);
                    x.set(b, !old);
                    steps.push(Op::Store { s: if r.chance(1, 2) { s } else { t }, i, d: x });
                    steps.push(Op::Compare { s, t });
                }
            }
            steps.push(Op::MakeDense { s: t });
            steps.push(Op::Compare { s, t });
            continue;
        }
        steps.push(match k {
            0 => {
                let inc = *r.pick(&[0u64, 1, 1, 3]);
                // sometimes only values already seen, e.g. the default
                let m = *r.pick(&[1u32, 2, 3, 7, 255, 256, 257, n]);
                let n = if r.chance(2, 3) { n } else { r.range(1, n as u64) as u32 };
                let n = if r.chance(1, 3) { (n - n % m).max(1) } else { n };
                Op::Bulk { s, i: r.pick(&is).clone(), d: r.pick(&ds).clone(), n, stride: *r.pick(&strides), m, inc, rot: 0 }
            }
            1 => Op::Store { s, i: if r.chance(1, 2) { r.pick(&is).clone() } else { bv::gen(r, iw, &is) }, d: r.pick(&ds).clone() },
            2 => Op::Clear { s },
            3 => Op::Clone { s, t },
            4 if dense_ok => Op::MakeDense { s },
            5 => Op::ToBare { s, t },
            6 => Op::Wrap { s, t },
            7 => Op::Compare { s, t },
            8 => Op::Entries { s },
            9 => Op::Select { s, i: r.pick(&is).clone() },
            _ => mk(r, s),
        });
    }
    let steps = steps
        .into_iter()
        .map(|op| {
            let k = {
                let bits = r.range(1, 14);
                r.below(1 << bits)
            };
            let f = match r.below(if prop == "C04" { 3 } else { 12 }) {
                0 => Fault::Alloc(k),
                1 if prop == "C04" => Fault::Exhausted(k),
                // (every fault takes a look at the whole array)
                2 if prop == "C04" && n <= 5_000 && matches!(op, Op::Bulk { .. }) || r.chance(1, 10) => Fault::EveryAlloc,
                _ => Fault::None,
            };
            Step { c: 0, op, h: if r.chance(1, 8) { Some(r.next() >> 32) } else { None }, f }
        })
        .collect();
    Scn { hash: r.next() >> 16, fill: *r.pick(&[0u8, 0xa5, 0xff]), steps }
}

pub fn gen(prop: &str, r: &mut Rng, long: bool) -> Scn {
    if prop != "C04" && r.chance(1, 1500) {
        let n = (1 << 20) + 2 + r.below(5000) as u32;
        return Scn {
            hash: r.next(),
            fill: 0,
            steps: vec![Step { c: 0, op: Op::Huge { n, mul: r.next() | 1, wide: r.chance(1, 2) }, h: Some(r.next()), f: Fault::None }],
        };
    }
    if prop != "C03" && r.chance(1, 1500) {
        // up to 16 MiB, once in a while up to 256 MiB
        let dw = *r.pick(&[1u32, 1, 5, 8, 9, 33, 64, 65, 130, 300]);
        let huge = r.chance(1, 6);
        let iw = match dw {
            1 => if huge { 31 } else { r.range(17, 27) as u32 },
            2..=8 => r.range(17, if huge { 27 } else { 24 }) as u32,
            9..=64 => r.range(17, if huge { 24 } else { 21 }) as u32,
            _ => r.range(15, if huge { 20 } else { 18 }) as u32,
        };
        let d = bv::gen(r, dw, &[]);
        let ix = (0..r.range(1, 12)).map(|_| r.next() & ((1 << iw) - 1)).collect();
        return Scn { hash: r.next(), fill: 0, steps: vec![Step { c: 0, op: Op::Big { iw, d, ix }, h: None, f: Fault::None }] };
    }
    if r.chance(1, 100) {
        return gen_bulk(prop, r);
    }
    // the array types of this run
    let ntypes = if r.chance(3, 4) { 1 } else { 2 };
    let types: Vec<(u32, u32)> = (0..ntypes)
        .map(|_| {
            let iw = if prop == "C02" && r.chance(7, 10) { *r.pick(&[0, 1, 1, 2, 2, 3, 3]) } else { *r.pick(IW) };
            (iw, *r.pick(DW))
        })
        .collect();
    let nslots = r.range(1, SLOTS as u64) as usize;
    let clients = r.range(1, 3) as u8;
    let nsteps = if long { r.range(20, 200) } else { r.range(4, 60) };
    let fden = match prop {
        "C04" => *r.pick(&[2, 3, 5]),
        _ => *r.pick(&[0, 0, 8, 25]),
    };
    let hden = *r.pick(&[0u64, 2, 6]);
    let mut ipool: Vec<Vec<V>> = types.iter().map(|t| (0..r.range(1, 6)).map(|_| bv::gen(r, t.0, &[])).collect()).collect();
    for p in ipool.iter_mut() {
        let n = p.len();
        for k in 0..n {
            let mut v = p[k].clone();
            if v.w > 0 {
                let b = r.below(v.w as u64) as u32;
                let o = v.bit(b);
                v.set(b, !o);
                p.push(v)
            }
        }
    }
    let dpool: Vec<Vec<V>> = types
        .iter()
        .map(|t| {
            let mut p: Vec<V> = (0..r.range(1, 4)).map(|_| bv::gen(r, t.1, &[])).collect();
            p.push(V::zero(t.1));
            p
        })
        .collect();
    // weights differ per run, so that some runs dwell on one kind of operation
    let kinds: u64 = 16;
    let weights: Vec<u64> = (0..kinds)
        .map(|k| {
            let base = match (prop, k) {
                (_, 0) => 40, // store
                ("C02", 12) => 30,
                ("C03", 13) => 30,
                ("C03", 10) => 15,
                (_, 12 | 13) => 2,
                (_, 14) => 1,
                _ => 5,
            };
            base * *r.pick(&[0u64, 1, 1, 1, 1, 4]) + if k == 0 { 10 } else { 0 }
        })
        .collect();
    let total: u64 = weights.iter().sum();
    let mut slot_type = vec![usize::MAX; nslots];
    let mut steps = vec![];
    for _ in 0..nsteps {
        let s = r.idx(nslots);
        let t = r.idx(nslots);
        let ty = if slot_type[s] == usize::MAX { r.idx(ntypes) } else { slot_type[s] % ntypes };
        let (iw, dw) = types[ty];
        let mut k = {
            let mut x = r.below(total);
            let mut k = 0;
            while x >= weights[k] {
                x -= weights[k];
                k += 1;
            }
            k as u64
        };
        if slot_type[s] == usize::MAX && k < 13 && r.chance(9, 10) {
            k = 100;
        }
        let ix = |r: &mut Rng| if r.chance(3, 4) { r.pick(&ipool[ty]).clone() } else { bv::gen(r, iw, &ipool[ty]) };
        let dx = |r: &mut Rng| if r.chance(3, 4) { r.pick(&dpool[ty]).clone() } else { bv::gen(r, dw, &dpool[ty]) };
        let op = match k {
            0 => Op::Store { s, i: ix(r), d: dx(r) },
            1 => Op::Select { s, i: ix(r) },
            2 => Op::Clear { s },
            3 => Op::Clone { s, t },
            4 | 5 => {
                let n = if iw <= 6 && r.chance(1, 2) { 1 << iw } else { r.range(1, 20) as u32 };
                Op::StoreMany { s, i: ix(r), d: dx(r), n, inc: if r.chance(1, 2) { 0 } else { r.below(3) } }
            }
            6 => Op::CopyElems { s, t, x: r.next() },
            7 | 8 => Op::MakeDense { s },
            9 | 10 => Op::ToBare { s, t },
            11 => Op::Wrap { s, t },
            12 => Op::Compare { s, t },
            13 => Op::Entries { s },
            14 => {
                slot_type[s] = usize::MAX;
                Op::Drop { s }
            }
            15 => {
                slot_type[s] = usize::MAX;
                gen_val_array(r, s)
            }
            _ => {
                slot_type[s] = ty;
                // a new array; dense ones only where they fit, except for requests that must fail
                let dense_ok = iw <= 16 || r.chance(1, 12);
                match r.below(5) {
                    0 | 1 if dense_ok => Op::NewDense { s, iw, d: dx(r) },
                    2 => Op::NewBare { s, iw, d: dx(r) },
                    3 if dw == 1 || dw == 8 || dw == 64 => gen_val_array(r, s),
                    _ => Op::NewSparse { s, iw, d: dx(r) },
                }
            }
        };
        if let Op::Clone { t, .. } | Op::ToBare { t, .. } | Op::Wrap { t, .. } = op {
            slot_type[t] = slot_type[s];
        }
        // densifying a sparse array with a wide index must fail: keep it rare
        if matches!(op, Op::MakeDense { .. }) && iw > 16 && r.chance(7, 8) {
            continue;
        }
        let h = if hden > 0 && r.chance(1, hden) { Some(r.next() >> 32) } else { None };
        steps.push(Step { c: r.below(clients as u64) as u8, op, h, f: gen_fault(r, fden) });
    }
    Scn { hash: r.next() >> 16, fill: *r.pick(&[0u8, 0xa5, 0xff]), steps }
}

// ------------------------------------------------------------------------------------ reference

#[derive(Clone, Debug)]
pub struct Model {
    pub iw: u32,
    pub dw: u32,
    pub default: V,
    pub map: BTreeMap<V, V>,
    /// storage is dense (None: whatever the conversion chose, until first looked at)
    pub dense: Option<bool>,
}
impl Model {
    fn new(iw: u32, d: &V) -> Model {
        Model { iw, dw: d.w, default: d.clone(), map: BTreeMap::new(), dense: None }
    }
    fn with(mut self, dense: bool) -> Model {
        self.dense = Some(dense);
        self
    }
    fn slice(dw: u32, vals: impl ExactSizeIterator<Item = u64>) -> Model {
        let n = vals.len();
        let mut iw = 0;
        while (1usize << iw) < n {
            iw += 1;
        }
        let mut m = Model::new(iw, &V::zero(dw));
        for (k, v) in vals.enumerate() {
            m.store(V::u(k as u64, iw), V::u(v, dw));
        }
        m
    }
    fn get(&self, i: &V) -> &V {
        self.map.get(i).unwrap_or(&self.default)
    }
    fn store(&mut self, i: V, d: V) {
        self.map.insert(i, d);
    }
    fn clear(&mut self) {
        self.default = V::zero(self.dw);
        self.map.clear();
    }
}

pub enum A {
    Arr(ArrayValue),
    Bare(SparseArrayValue),
}
macro_rules! both {
    ($a:expr, $v:ident => $e:expr) => {
        match $a {
            A::Arr($v) => $e,
            A::Bare($v) => $e,
        }
    };
}

enum Delta {
    Set(Model),
    Store(V, V),
    Clear,
    Dense,
}
impl Delta {
    fn apply(&self, m: &mut Model) {
        match self {
            Delta::Set(n) => *m = n.clone(),
            Delta::Store(i, d) => m.store(i.clone(), d.clone()),
            Delta::Clear => m.clear(),
            Delta::Dense => m.dense = Some(true),
        }
    }
}

struct Slot {
    a: A,
    m: Model,
}

pub struct World<'r> {
    prop: &'r str,
    slots: Vec<Option<Slot>>,
    pool: Vec<V>,
    /// indices that were stored in the array that was cleared last
    ghosts: Vec<V>,
    pub rep: &'r mut Rep,
    step: usize,
}

pub fn run(prop: &str, scn: &Scn, rep: &mut Rep) {
    simrt::set_fill(scn.fill);
    let mut pool = BTreeSet::new();
    for s in &scn.steps {
        match &s.op {
            Op::Store { i, .. } | Op::Select { i, .. } | Op::Bulk { i, .. } => {
                pool.insert(i.clone());
            }
            Op::StoreMany { i, n, .. } => {
                pool.insert(i.clone());
                pool.insert(i.add(&V::u((*n).max(1) as u64 - 1, i.w)));
            }
            _ => {}
        }
    }
    let mut w = World { prop, slots: (0..SLOTS).map(|_| None).collect(), pool: pool.into_iter().take(60).collect(), ghosts: vec![], rep, step: 0 };
    for (n, s) in scn.steps.iter().enumerate() {
        w.step = n;
        w.exec(s);
        if w.rep.over() || w.rep.counts.contains_key("ended") {
            return;
        }
    }
    w.step = scn.steps.len();
    w.check_all("at the end of the history");
    if matches!(prop, "C02") {
        w.compare_all_pairs();
    }
    if matches!(prop, "C03") {
        for s in 0..SLOTS {
            w.entries(s, None, simrt::Plan::default(), "at the end of the history");
        }
    }
}

/// Contents as the library reports them.
fn observe(a: &A, idx: &[V]) -> Outcome<Vec<V>> {
    let args: Vec<BitVecValue> = idx.iter().map(|i| i.own()).collect();
    let (o, _) = simrt::call(simrt::Plan::default(), || {
        let mut out = Vec::with_capacity(args.len());
        for i in &args {
            out.push(both!(a, v => v.select(i)));
        }
        out
    });
    match o {
        Outcome::Done(v) => Outcome::Done(v.iter().map(rd).collect()),
        Outcome::Oom => Outcome::Oom,
        Outcome::Callback => Outcome::Callback,
        Outcome::Panic(m) => Outcome::Panic(m),
    }
}

impl World<'_> {
    fn checks_contents(&self) -> bool {
        matches!(self.prop, "C01" | "C04")
    }
    fn end_quietly(&mut self, why: &str) {
        // the property of this check says nothing about what went wrong here
        self.rep.count(&format!("ended:{why}"));
        self.rep.count("ended");
    }
    fn wrong(&mut self, class: &str, msg: String) {
        self.rep.fail(self.step, class, msg);
    }

    fn indices(&self, m: &Model, full_up_to: u32) -> Vec<V> {
        if m.iw <= full_up_to {
            return (0..1u64 << m.iw).map(|i| V::u(i, m.iw)).collect();
        }
        let mut set: BTreeSet<V> = m.map.keys().cloned().collect();
        for p in &self.pool {
            set.insert(p.fit(m.iw));
        }
        set.insert(V::zero(m.iw));
        set.insert(V::ones(m.iw));
        set.insert(V::u(1, m.iw));
        set.extend(self.ghosts.iter().filter(|g| g.w == m.iw).cloned());
        // an index nothing is stored at
        if m.iw < 32 {
            set.extend((0..1u64 << m.iw).map(|i| V::u(i, m.iw)).find(|i| !m.map.contains_key(i)));
        }
        // indices nobody ever used
        for k in 0..3u64 {
            let x = V { w: m.iw, x: (0..bv::nwords(m.iw) as u64).map(|j| simrt::rng::mix(k + 77, j)).collect() }.canon();
            set.insert(x);
        }
        set.into_iter().collect()
    }

    /// Compares one array with the model. Returns the mismatch.
    fn differs(&self, a: &A, m: &Model, full_up_to: u32) -> Option<String> {
        let (iw, dw) = both!(a, v => (v.index_width(), v.data_width()));
        if (iw, dw) != (m.iw, m.dw) {
            return Some(format!("type is {iw}x{dw}, expected {}x{}", m.iw, m.dw));
        }
        let (n, words) = both!(a, v => (if iw < 64 { v.num_elements() } else { 0 }, v.words_per_element()));
        if n as u128 != (if iw < 64 { 1u128 << iw } else { 0 }) || words != bv::nwords(dw) {
            return Some(format!("{n} elements of {words} words reported for type {iw}x{dw}"));
        }
        if let A::Arr(v) = a {
            if v.is_dense() == v.is_sparse() || m.dense.is_some_and(|d| d != v.is_dense()) {
                return Some(format!("is_dense is {}, is_sparse is {}, expected dense: {:?}", v.is_dense(), v.is_sparse(), m.dense));
            }
        }
        let idx = self.indices(m, full_up_to);
        match observe(a, &idx) {
            Outcome::Done(vals) => {
                for (i, v) in idx.iter().zip(&vals) {
                    if v != m.get(i) {
                        return Some(format!("select({i:?}) is {v:?}, expected {:?}", m.get(i)));
                    }
                }
                None
            }
            o => Some(format!("select ended with {o:?}")),
        }
    }

    fn check_all(&mut self, when: &str) {
        if !self.checks_contents() {
            return;
        }
        for s in 0..SLOTS {
            if let Some(sl) = &self.slots[s] {
                if let Some(d) = self.differs(&sl.a, &sl.m, 10) {
                    let msg = format!("slot {s} ({}) {when}: {d}", kind(&sl.a));
                    return self.wrong("contents", msg);
                }
            }
        }
    }

    /// quick look at one array around an index, and at everybody else's element at that index
    fn check_near(&mut self, s: usize, i: &V, when: &str) {
        if !self.checks_contents() {
            return;
        }
        for t in 0..SLOTS {
            let Some(sl) = &self.slots[t] else { continue };
            let m = &sl.m;
            let mut idx = vec![i.fit(m.iw)];
            if t == s {
                let k = simrt::rng::mix(self.step as u64, s as u64);
                idx.push(V { w: m.iw, x: vec![k; bv::nwords(m.iw)] }.canon());
                if !self.pool.is_empty() {
                    idx.push(self.pool[k as usize % self.pool.len()].fit(m.iw));
                }
                if let Some((j, _)) = m.map.iter().nth(k as usize % m.map.len().max(1)) {
                    idx.push(j.clone());
                }
            }
            match observe(&sl.a, &idx) {
                Outcome::Done(vals) => {
                    for (i, v) in idx.iter().zip(&vals) {
                        if v != m.get(i) {
                            let msg = format!("slot {t} ({}) {when}: select({i:?}) is {v:?}, expected {:?}", kind(&sl.a), m.get(i));
                            return self.wrong("contents", msg);
                        }
                    }
                }
                o => {
                    let msg = format!("slot {t} ({}) {when}: select ended with {o:?}", kind(&sl.a));
                    return self.wrong("select-fails", msg);
                }
            }
        }
    }

    fn model_after(&self, target: usize, post: &Delta) -> Model {
        match post {
            Delta::Set(m) => m.clone(),
            d => {
                let mut m = self.slots[target].as_ref().unwrap().m.clone();
                d.apply(&mut m);
                m
            }
        }
    }

    /// One library operation that produces or changes an array. `act` runs it on the (temporarily
    /// taken) target; `post` is the model after complete success.
    fn mutate(
        &mut self,
        st: &Step,
        name: &str,
        s: usize,
        target: usize,
        post: Delta,
        may_fail: bool,
        mut act: impl FnMut(&mut [Option<Slot>], &Try) -> (Outcome<Option<A>>, bool, u64),
    ) {
        let mut at = Attempts::new(st.f);
        let mut fired = false;
        while let Some(t) = at.next(fired) {
            let (o, f, allocs) = act(&mut self.slots, &t);
            fired = f;
            self.rep.ops += 1;
            self.rep.sig((name, s, o.kind(), t.plan.fail_at, allocs));
            self.rep.see((o.kind(), allocs));
            if f && !t.clean {
                self.rep.fault(if t.plan.sticky { "memory exhausted" } else { "allocation refused" });
            }
            match o {
                Outcome::Done(made) => {
                    if name == "store" && (t.arg1 == Spoil::Wide || t.arg2 == Spoil::Wide) {
                        return self.end_quietly("width mismatch accepted");
                    }
                    if let Some(a) = made {
                        let Delta::Set(m) = &post else { unreachable!() };
                        self.slots[target] = Some(Slot { a, m: m.clone() });
                    } else if matches!(post, Delta::Set(_)) {
                        return self.wrong("lost", format!("{name} on slot {s} returned no array"));
                    } else {
                        post.apply(&mut self.slots[target].as_mut().unwrap().m);
                    }
                    at.stop();
                }
                other => {
                    if t.arg1 == Spoil::Panic || t.arg2 == Spoil::Panic {
                        self.rep.fault("caller's conversion panics");
                    }
                    if t.arg1 == Spoil::Wide || t.arg2 == Spoil::Wide {
                        self.rep.fault("width mismatch");
                    }
                    if may_fail {
                        self.rep.fault("impossible dense array");
                    }
                    let provoked = f || t.arg1 != Spoil::No || t.arg2 != Spoil::No;
                    if !provoked && !may_fail {
                        let msg = format!("{name} on slot {s}{} failed: {}", if at.retried() { " (retry without a fault)" } else { "" }, desc(&other));
                        // (an array that cannot be converted cannot be enumerated either)
                        let mine = self.checks_contents() || self.prop == "C03" && name == "to_sparse";
                        return if mine { self.wrong("op-fails", msg) } else { self.end_quietly("operation failed") };
                    }
                    // nothing but the target may have changed, and the target is as before or after
                    for k in 0..SLOTS {
                        let Some(sl) = &self.slots[k] else { continue };
                        let d = self.differs(&sl.a, &sl.m, 8);
                        if let Some(d) = d {
                            let p = self.model_after(target, &post);
                            if k == target && self.differs(&sl.a, &p, 8).is_none() {
                                self.rep.count("probe:failed operation took full effect");
                                self.slots[k].as_mut().unwrap().m = p;
                                continue;
                            }
                            let msg = format!("slot {k} ({}) after {name} on slot {s} failed ({}): {d}", kind(&sl.a), other.kind());
                            return if self.checks_contents() { self.wrong("failed-op-has-effect", msg) } else { self.end_quietly("contents after failure") };
                        }
                    }
                    if may_fail {
                        at.stop();
                    }
                    self.entries_after_failure(target, name);
                    if self.rep.over() {
                        return;
                    }
                }
            }
        }
    }

    fn exec(&mut self, st: &Step) {
        self.rep.sig((st.c, st.h.is_some()));
        match &st.op {
            Op::NewDense { s, iw, d } => {
                let (s, iw) = (s % SLOTS, *iw);
                let may_fail = iw > 16;
                let m = Model::new(iw, d).with(true);
                let own = d.own();
                self.mutate(st, "new_dense", s, s, Delta::Set(m), may_fail, |_, t| {
                    go(st.h, t.plan, || Some(A::Arr(ArrayValue::new_dense(iw, arg(&own, t.arg2)))))
                });
                self.after_new(s);
            }
            Op::NewSparse { s, iw, d } | Op::NewBare { s, iw, d } => {
                let (s, iw) = (s % SLOTS, *iw);
                let bare = matches!(st.op, Op::NewBare { .. });
                let m = Model::new(iw, d).with(false);
                let own = d.own();
                self.mutate(st, "new_sparse", s, s, Delta::Set(m), false, |_, t| {
                    go(st.h, t.plan, || {
                        Some(if bare {
                            A::Bare(SparseArrayValue::new(iw, arg(&own, t.arg2)))
                        } else {
                            A::Arr(ArrayValue::new_sparse(iw, arg(&own, t.arg2)))
                        })
                    })
                });
                self.after_new(s);
            }
            Op::FromBool { s, v } => {
                let s = s % SLOTS;
                let b: Vec<bool> = v.bytes().map(|c| c == b'1').collect();
                let m = Model::slice(1, b.iter().map(|b| *b as u64).collect::<Vec<_>>().into_iter());
                self.mutate(st, "from_bool", s, s, Delta::Set(m), false, |_, t| go(st.h, t.plan, || Some(A::Arr(b.as_slice().into()))));
                self.after_new(s);
            }
            Op::FromU8 { s, v } => {
                let s = s % SLOTS;
                let m = Model::slice(8, v.iter().map(|b| *b as u64).collect::<Vec<_>>().into_iter());
                self.mutate(st, "from_u8", s, s, Delta::Set(m), false, |_, t| go(st.h, t.plan, || Some(A::Arr(v.as_slice().into()))));
                self.after_new(s);
            }
            Op::FromU64 { s, v } => {
                let s = s % SLOTS;
                let m = Model::slice(64, v.clone().into_iter());
                self.mutate(st, "from_u64", s, s, Delta::Set(m), false, |_, t| go(st.h, t.plan, || Some(A::Arr(v.as_slice().into()))));
                self.after_new(s);
            }
            Op::Store { s, i, d } => {
                let s = s % SLOTS;
                let Some(sl) = &self.slots[s] else { return };
                let (i, d) = (i.fit(sl.m.iw), d.fit(sl.m.dw));
                self.store(st, s, &i, &d);
            }
            Op::StoreMany { s, i, d, n, inc } => {
                let s = s % SLOTS;
                let Some(sl) = &self.slots[s] else { return };
                let (mut i, mut d) = (i.fit(sl.m.iw), d.fit(sl.m.dw));
                let one = V::u(1, i.w);
                let inc = V::u(*inc, d.w);
                for _ in 0..(*n).min(300) {
                    self.store(st, s, &i, &d);
                    if self.rep.over() {
                        return;
                    }
                    i = i.add(&one);
                    d = d.add(&inc);
                }
            }
            Op::Bulk { s, i, d, n, stride, m, inc, rot } => self.bulk(st, s % SLOTS, (i, *stride), (d, (*m).max(1) as u64, *inc, *rot as u64), (*n).min(100_000) as u64),
            Op::CopyElems { s, t, x } => {
                let (s, t) = (s % SLOTS, t % SLOTS);
                let (Some(a), Some(b)) = (&self.slots[s], &self.slots[t]) else { return };
                if s == t || (a.m.iw, a.m.dw) != (b.m.iw, b.m.dw) || a.m.iw > 8 {
                    return;
                }
                let iw = a.m.iw;
                let x = V::u(*x, iw);
                for k in 0..1u64 << iw {
                    let i = V::u(k, iw).xor(&x);
                    let d = self.slots[s].as_ref().unwrap().m.get(&i).clone();
                    self.store(st, t, &i, &d);
                    if self.rep.over() {
                        return;
                    }
                }
            }
            Op::Select { s, i } => {
                let s = s % SLOTS;
                let Some(sl) = &self.slots[s] else { return };
                let i = i.fit(sl.m.iw);
                let own = i.own();
                let wide = i.fit(i.w + 1).own();
                let mut at = Attempts::new(st.f);
                let mut fired = false;
                while let Some(t) = at.next(fired) {
                    let sl = self.slots[s].as_ref().unwrap();
                    let (o, f, n) = go(st.h, t.plan, || {
                        let a = if t.arg1 == Spoil::Wide { Arg::Own(&wide) } else { argr(&own, &i, t.arg1) };
                        both!(&sl.a, v => v.select(a))
                    });
                    fired = f;
                    self.rep.ops += 1;
                    self.rep.sig(("select", s, o.kind(), t.plan.fail_at));
                    self.rep.see(n);
                    if let (Outcome::Done(v), true) = (&o, t.arg1 != Spoil::Wide) {
                        let v = rd(v);
                        self.rep.see(&v);
                        if v != *sl.m.get(&i) && self.checks_contents() {
                            let msg = format!("select({i:?}) on slot {s} ({}) is {v:?}, expected {:?}", kind(&sl.a), sl.m.get(&i));
                            return self.wrong("contents", msg);
                        }
                    } else if t.clean {
                        let msg = format!("select({i:?}) on slot {s} ({}) failed: {}", kind(&sl.a), desc(&o));
                        return if self.checks_contents() { self.wrong("op-fails", msg) } else { self.end_quietly("select failed") };
                    } else if !matches!(o, Outcome::Done(_)) {
                        self.rep.fault("read failed");
                        self.check_all("after a failed select");
                    }
                }
            }
            Op::Clear { s } => {
                let s = s % SLOTS;
                if self.slots[s].is_none() {
                    return;
                }
                let m = &self.slots[s].as_ref().unwrap().m;
                let by = m.map.len() / 2000 + 1;
                self.ghosts = m.map.keys().step_by(by).cloned().collect();
                self.mutate(st, "clear", s, s, Delta::Clear, false, |slots, t| {
                    let a = &mut slots[s].as_mut().unwrap().a;
                    go(st.h, t.plan, || {
                        both!(a, v => v.clear());
                        None
                    })
                });
                if !self.rep.over() {
                    self.check_all("after clear");
                }
            }
            Op::Clone { s, t } => {
                let (s, t) = (s % SLOTS, t % SLOTS);
                let Some(sl) = &self.slots[s] else { return };
                let m = sl.m.clone();
                self.mutate(st, "clone", s, t, Delta::Set(m), false, |slots, tr| {
                    let a = &slots[s].as_ref().unwrap().a;
                    go(st.h, tr.plan, || {
                        Some(match a {
                            A::Arr(v) => A::Arr(v.clone()),
                            A::Bare(v) => A::Bare(v.clone()),
                        })
                    })
                });
                self.after_new(t);
            }
            Op::MakeDense { s } => {
                let s = s % SLOTS;
                let Some(sl) = &self.slots[s] else { return };
                if !matches!(sl.a, A::Arr(_)) {
                    return;
                }
                let may_fail = sl.m.iw > 16;
                self.mutate(st, "make_dense", s, s, Delta::Dense, may_fail, |slots, t| {
                    let A::Arr(a) = &mut slots[s].as_mut().unwrap().a else { unreachable!() };
                    go(st.h, t.plan, || {
                        a.make_dense();
                        None
                    })
                });
                if !self.rep.over() {
                    self.check_all("after make_dense");
                }
            }
            Op::ToBare { s, t } => {
                let (s, t) = (s % SLOTS, t % SLOTS);
                let Some(sl) = &self.slots[s] else { return };
                if !matches!(sl.a, A::Arr(_)) {
                    return;
                }
                let m = sl.m.clone();
                let was_dense = kind(&sl.a) == "dense";
                self.mutate(st, "to_sparse", s, t, Delta::Set(m), false, |slots, tr| {
                    let A::Arr(a) = &slots[s].as_ref().unwrap().a else { unreachable!() };
                    go(st.h, tr.plan, || Some(A::Bare(SparseArrayValue::from(a.clone()))))
                });
                self.after_new(t);
                if self.prop == "C03" && !self.rep.over() {
                    self.entries(t, None, simrt::Plan::default(), "right after the conversion");
                    if was_dense && !self.rep.over() {
                        self.shortest(t);
                    }
                }
            }
            Op::Wrap { s, t } => {
                let (s, t) = (s % SLOTS, t % SLOTS);
                let Some(sl) = &self.slots[s] else { return };
                if !matches!(sl.a, A::Arr(_)) {
                    return;
                }
                let m = sl.m.clone();
                self.mutate(st, "wrap", s, t, Delta::Set(m), false, |slots, tr| {
                    let A::Arr(a) = &slots[s].as_ref().unwrap().a else { unreachable!() };
                    go(st.h, tr.plan, || {
                        let v = Value::Array(a.clone());
                        ArrayValue::try_from(v.clone()).ok().map(A::Arr)
                    })
                });
                self.after_new(t);
            }
            Op::Compare { s, t } => self.compare(s % SLOTS, t % SLOTS, st.h, st.f),
            Op::Entries { s } => {
                let mut at = Attempts::new(st.f);
                let mut fired = false;
                while let Some(t) = at.next(fired) {
                    fired = self.entries(s % SLOTS, st.h, t.plan, "in the history");
                    if self.rep.over() {
                        return;
                    }
                }
            }
            Op::Drop { s } => {
                let s = s % SLOTS;
                let sl = self.slots[s].take();
                go(None, Default::default(), move || drop(sl));
                self.rep.sig(("drop", s));
                self.check_all("after another array was dropped");
            }
            Op::Big { iw, d, ix } => self.big(*iw, d, ix),
            Op::Huge { n, mul, wide } => self.huge(*n as u64, *mul, *wide, st.h),
        }
        if self.step % 8 == 7 && !self.rep.over() {
            self.check_all("in the history");
        }
    }

    fn after_new(&mut self, s: usize) {
        if self.rep.over() {
            return;
        }
        if let (Some(sl), true) = (&self.slots[s], self.checks_contents()) {
            if let Some(d) = self.differs(&sl.a, &sl.m, 10) {
                let msg = format!("slot {s} ({}) right after creation: {d}", kind(&sl.a));
                return self.wrong("contents", msg);
            }
        }
        if let Some(Slot { a: A::Arr(v), m }) = &mut self.slots[s] {
            m.dense.get_or_insert(v.is_dense());
        }
    }

    fn store(&mut self, st: &Step, s: usize, i: &V, d: &V) {
        let (io, dd) = (i.own(), d.own());
        let (iw, dw) = (i.fit(i.w + 1).own(), d.fit(d.w + 1).own());
        self.mutate(st, "store", s, s, Delta::Store(i.clone(), d.clone()), false, |slots, t| {
            let a = &mut slots[s].as_mut().unwrap().a;
            go(st.h, t.plan, || {
                let x = if t.arg1 == Spoil::Wide { Arg::Own(&iw) } else { argr(&io, i, t.arg1) };
                let y = if t.arg2 == Spoil::Wide { Arg::Own(&dw) } else { arg(&dd, t.arg2) };
                both!(a, v => v.store(x, y));
                None
            })
        });
        if !self.rep.over() {
            self.check_near(s, i, "after store");
        }
    }

    fn bulk(&mut self, st: &Step, s: usize, (i, stride): (&V, u64), (d, m, inc, rot): (&V, u64, u64, u64), n: u64) {
        let Some(sl) = &self.slots[s] else { return };
        simrt::BUDGET.store(512 << 20, std::sync::atomic::Ordering::Relaxed);
        let (mut i, d) = (i.fit(sl.m.iw), d.fit(sl.m.dw));
        let (stride, inc) = (V::u(stride, i.w), V::u(inc, d.w));
        let mut vals = vec![d];
        while (vals.len() as u64) < m.min(100_000) {
            let v = vals.last().unwrap().add(&inc);
            vals.push(v);
        }
        let list: Vec<(V, usize)> = (0..n)
            .map(|k| {
                let e = (i.clone(), ((k + rot) % vals.len() as u64) as usize);
                i = i.add(&stride);
                e
            })
            .collect();
        let io: Vec<BitVecValue> = list.iter().map(|e| e.0.own()).collect();
        let vo: Vec<BitVecValue> = vals.iter().map(|v| v.own()).collect();
        let f = match st.f {
            f @ (Fault::Alloc(_) | Fault::Exhausted(_) | Fault::EveryAlloc) => f,
            _ => Fault::None,
        };
        let mut at = Attempts::new(f);
        let mut fired = false;
        let mut done = 0;
        self.rep.count("probe:very many stores");
        while let Some(t) = at.next(fired) {
            let from = done;
            let a = &mut self.slots[s].as_mut().unwrap().a;
            let (o, f, allocs) = go(st.h, t.plan, || {
                while done < list.len() {
                    let (x, y) = (&io[done], &vo[list[done].1]);
                    both!(a, v => v.store(x, y));
                    done += 1;
                }
            });
            fired = f;
            self.rep.ops += (done - from) as u64;
            self.rep.sig(("bulk", s, n, o.kind(), t.plan.fail_at, allocs));
            self.rep.see((o.kind(), done, allocs));
            let sl = self.slots[s].as_mut().unwrap();
            for (i, k) in &list[from..done] {
                sl.m.store(i.clone(), vals[*k].clone());
            }
            match o {
                Outcome::Done(()) => at.stop(),
                o if f && !t.clean => {
                    self.rep.fault(if t.plan.sticky { "memory exhausted" } else { "allocation refused" });
                    // the store that failed may have happened
                    let (i, k) = &list[done];
                    let sl = self.slots[s].as_ref().unwrap();
                    let mut after = sl.m.clone();
                    after.store(i.clone(), vals[*k].clone());
                    if let Some(d) = self.differs(&sl.a, &sl.m, 8) {
                        if self.differs(&sl.a, &after, 8).is_none() {
                            self.rep.count("probe:failed operation took full effect");
                            self.slots[s].as_mut().unwrap().m = after;
                            continue;
                        }
                        let msg = format!("slot {s} ({}) after store {done} of {n} failed ({}): {d}", kind(&sl.a), o.kind());
                        return if self.checks_contents() { self.wrong("failed-op-has-effect", msg) } else { self.end_quietly("contents after failure") };
                    }
                }
                o => {
                    let msg = format!("store {done} of {n} on slot {s}{} failed: {}", if at.retried() { " (retry without a fault)" } else { "" }, desc(&o));
                    return if self.checks_contents() { self.wrong("op-fails", msg) } else { self.end_quietly("operation failed") };
                }
            }
        }
        self.check_all("after very many stores");
    }

    fn compare_all_pairs(&mut self) {
        for s in 0..SLOTS {
            for t in s..SLOTS {
                self.compare(s, t, None, Fault::None);
                if self.rep.over() {
                    return;
                }
            }
        }
    }

    fn compare(&mut self, s: usize, t: usize, h: Option<u64>, f: Fault) {
        let (Some(x), Some(y)) = (&self.slots[s], &self.slots[t]) else { return };
        let (A::Arr(a), A::Arr(b)) = (&x.a, &y.a) else { return };
        let same_type = (x.m.iw, x.m.dw) == (y.m.iw, y.m.dw);
        // what both sides hold, as the library itself reports it
        let mut idx = self.indices(&x.m, 12);
        if same_type && x.m.iw > 12 {
            idx.extend(self.indices(&y.m, 0));
            // an index where both hold their default decides
            if x.m.iw < 32 {
                idx.extend((0..1u64 << x.m.iw).map(|i| V::u(i, x.m.iw)).find(|i| !x.m.map.contains_key(i) && !y.m.map.contains_key(i)));
            }
        }
        let want = if same_type {
            match (observe(&x.a, &idx), observe(&y.a, &idx)) {
                (Outcome::Done(p), Outcome::Done(q)) => Some((p == q, p, q)),
                _ => return self.end_quietly("select failed"),
            }
        } else {
            None
        };
        let mut at = Attempts::new(f);
        let mut fired = false;
        while let Some(tr) = at.next(fired) {
            let (o, f, n) = go(h, tr.plan, || {
                // the queries, both ways and through the wrapper
                (a.is_equal(b), b.is_equal(a), a == b, a != b, b == a, Value::Array(a.clone()) == Value::Array(b.clone()))
            });
            fired = f;
            self.rep.ops += 6;
            self.rep.sig(("compare", s, t, o.kind(), want.as_ref().map(|w| w.0), a.is_dense(), b.is_dense()));
            self.rep.see(n);
            if f && !tr.clean {
                self.rep.fault("allocation refused");
            }
            match o {
                Outcome::Done(r) => {
                    let e = want.as_ref().map(|w| w.0);
                    let b2 = e.unwrap_or(false);
                    self.rep.count(match e {
                        None => "probe:compared different types",
                        Some(true) if x.m.default != y.m.default => "probe:equal with different defaults",
                        Some(true) if a.is_dense() != b.is_dense() => "probe:equal across representations",
                        Some(true) => "probe:equal",
                        Some(false) => "probe:unequal",
                    });
                    if r != (e, e, b2, !b2, b2, b2) && self.prop == "C02" {
                        let msg = format!(
                            "slots {s} ({}) and {t} ({}), {}: (a.is_equal(b), b.is_equal(a), a==b, a!=b, b==a, Value==) is {r:?}",
                            kind(&x.a),
                            kind(&y.a),
                            match &want {
                                None => "different types".to_string(),
                                Some((true, ..)) => "same value at every index".to_string(),
                                Some((false, p, q)) => {
                                    let k = (0..p.len()).find(|k| p[*k] != q[*k]).unwrap();
                                    format!("{:?} and {:?} at index {:?}", p[k], q[k], idx[k])
                                }
                            }
                        );
                        return self.wrong("equality", msg);
                    }
                }
                Outcome::Panic(m) if !f => {
                    let msg = format!("comparing slots {s} and {t} panicked: {m}");
                    return if self.prop == "C02" || self.checks_contents() { self.wrong("op-fails", msg) } else { self.end_quietly("comparison failed") };
                }
                Outcome::Oom if tr.clean => return self.end_quietly("memory"),
                _ => {}
            }
            // neither side changed
            let (x, y) = (self.slots[s].as_ref().unwrap(), self.slots[t].as_ref().unwrap());
            if let Some((_, p, q)) = &want {
                let ok = matches!(observe(&x.a, &idx), Outcome::Done(v) if v == *p) && matches!(observe(&y.a, &idx), Outcome::Done(v) if v == *q);
                if !ok {
                    let msg = format!("comparing slots {s} and {t} changed one of them");
                    return self.wrong("comparison-has-effect", msg);
                }
            }
        }
    }

    /// What is wrong with a default and an enumeration of the contents.
    fn misses(&self, m: &Model, def: &V, list: &[(V, V)]) -> Option<String> {
        let mut seen: BTreeMap<&V, &V> = BTreeMap::new();
        let mut bad = None;
        if def.w != m.dw || !def.is_canon() {
            bad = Some(format!("default is {def:?}, element width {}", m.dw));
        }
        for (i, d) in list {
            if i.w != m.iw || d.w != m.dw || !i.is_canon() || !d.is_canon() {
                bad = Some(format!("entry ({i:?}, {d:?}) in an array of type {}x{}", m.iw, m.dw));
            } else if seen.insert(i, d).is_some() {
                bad = Some(format!("index {i:?} is listed twice"));
            } else if d == def {
                bad = Some(format!("entry ({i:?}, {d:?}) holds the default"));
            } else if d != m.get(i) {
                bad = Some(format!("entry ({i:?}, {d:?}), expected {:?}", m.get(i)));
            }
        }
        if bad.is_none() {
            // default plus entries reconstruct the array
            for i in self.indices(m, 12) {
                let v = seen.get(&i).copied().unwrap_or(def);
                if v != m.get(&i) {
                    bad = Some(format!("index {i:?} is {v:?} by default {def:?} and enumeration, expected {:?}", m.get(&i)));
                    break;
                }
            }
        }
        bad
    }

    /// After an operation on it failed, a sparse array enumerates what it holds.
    fn entries_after_failure(&mut self, s: usize, name: &str) {
        let Some(sl) = &self.slots[s] else { return };
        if !matches!(self.prop, "C03" | "C04") || sl.m.map.len() > 300 {
            return;
        }
        let (o, ..) = go(None, Default::default(), || match &sl.a {
            A::Bare(a) => Some((a.default(), a.non_default_entries().collect::<Vec<_>>())),
            A::Arr(a) if a.is_sparse() => {
                let a = SparseArrayValue::from(a.clone());
                Some((a.default(), a.non_default_entries().collect::<Vec<_>>()))
            }
            _ => None,
        });
        self.rep.ops += 1;
        let Outcome::Done(Some((d, l))) = o else { return };
        let (d, l) = (rd(&d), l.iter().map(|(i, d)| (rd(i), rd(d))).collect::<Vec<_>>());
        self.rep.count("probe:enumeration after a failure");
        if let Some(b) = self.misses(&sl.m, &d, &l) {
            let msg = format!("slot {s} ({}) after {name} failed: {b}", kind(&sl.a));
            self.wrong("failed-op-shows", msg);
        }
    }

    /// Enumerates a bare sparse array. Returns whether the fault fired.
    fn entries(&mut self, s: usize, h: Option<u64>, plan: simrt::Plan, when: &str) -> bool {
        let Some(sl) = &self.slots[s] else { return false };
        let A::Bare(a) = &sl.a else { return false };
        let (o, fired, n) = go(h, plan, || (a.default(), a.non_default_entries().collect::<Vec<_>>()));
        self.rep.ops += 1;
        self.rep.sig(("entries", s, o.kind(), plan.fail_at, sl.m.map.len()));
        self.rep.see(n);
        let (def, list) = match o {
            Outcome::Done((d, l)) => (rd(&d), l.iter().map(|(i, d)| (rd(i), rd(d))).collect::<Vec<_>>()),
            Outcome::Panic(m) if !fired => {
                let msg = format!("enumerating slot {s} {when} panicked: {m}");
                if self.prop == "C03" || self.prop == "C04" {
                    self.wrong("op-fails", msg);
                } else {
                    self.end_quietly("enumeration failed");
                }
                return fired;
            }
            _ => {
                self.rep.fault("allocation refused");
                self.check_all("after a failed enumeration");
                return fired;
            }
        };
        if self.prop != "C03" {
            return fired;
        }
        self.rep.see(&list);
        self.rep.add("probe:entries listed", list.len() as u64);
        let bad = self.misses(&sl.m, &def, &list);
        if let Some(b) = bad {
            let msg = format!("slot {s} {when}: {b}");
            self.wrong("enumeration", msg);
        } else if !fired {
            self.entries_again(s, &list, when);
        }
        fired
    }

    /// Right after the conversion of a dense array no element is more frequent than the default.
    fn shortest(&mut self, s: usize) {
        let Some(Slot { a: A::Bare(a), m }) = &self.slots[s] else { return };
        let mut n: BTreeMap<&V, u64> = BTreeMap::new();
        for v in m.map.values() {
            *n.entry(v).or_default() += 1;
        }
        *n.entry(&m.default).or_default() += (1u64 << m.iw) - m.map.len() as u64;
        let most = *n.values().max().unwrap();
        let (o, ..) = go(None, Default::default(), || a.non_default_entries().count() as u64);
        self.rep.ops += 1;
        self.rep.count("probe:default of a conversion");
        if let Outcome::Done(k) = o {
            if k != (1 << m.iw) - most {
                let msg = format!(
                    "slot {s}: a dense array of type {}x{} whose most frequent element occurs {most} times became a sparse array that lists {k} elements",
                    m.iw, m.dw
                );
                self.wrong("default-not-most-frequent", msg);
            }
        }
    }

    /// Further enumerations of the same, unchanged array: two at once, taking turns; partly
    /// consumed; and through the other consumers of an iterator.
    fn entries_again(&mut self, s: usize, list: &[(V, V)], when: &str) {
        let Some(Slot { a: A::Bare(a), .. }) = &self.slots[s] else { return };
        let n = list.len();
        let mix = simrt::rng::mix(self.step as u64, n as u64);
        let (o, ..) = go(None, Default::default(), || {
            let sorted = |l: Vec<(BitVecValue, BitVecValue)>| {
                let mut l: Vec<(V, V)> = l.iter().map(|(i, d)| (rd(i), rd(d))).collect();
                l.sort();
                l
            };
            let mut all = list.to_vec();
            all.sort();
            let (mut p, mut q) = (a.non_default_entries(), a.non_default_entries());
            let (mut pl, mut ql) = (vec![], vec![]);
            for k in 0..2 * n {
                let first = pl.len() < n && (mix >> (k % 64) & 1 == 0 || ql.len() == n);
                let (it, l) = if first { (&mut p, &mut pl) } else { (&mut q, &mut ql) };
                let (lo, hi) = it.size_hint();
                if lo > n - l.len() || hi.is_some_and(|h| h < n - l.len()) {
                    return Err(format!("size_hint is ({lo}, {hi:?}) with {} entries left", n - l.len()));
                }
                match it.next() {
                    Some(e) => l.push(e),
                    None => return Err(format!("one of two enumerations taking turns ends after {} of {n} entries", l.len())),
                }
            }
            if p.next().is_some() || q.next().is_some() {
                return Err("one of two enumerations taking turns lists more entries".to_string());
            }
            if sorted(pl) != all || sorted(ql) != all {
                return Err("two enumerations taking turns list other entries".to_string());
            }
            let k = mix as usize % (n + 1);
            let mut it = a.non_default_entries();
            let mut l: Vec<_> = it.by_ref().take(k).collect();
            if n > k && mix >> 40 & 1 == 1 {
                // skipping must skip exactly that many
                let m = (mix >> 41) as usize % (n - k);
                match it.nth(m) {
                    Some(_) if it.count() == n - k - m - 1 => {}
                    _ => return Err(format!("nth({m}) after {k} of {n} entries does not skip {m} entries")),
                }
            } else {
                it.for_each(|e| l.push(e));
                if sorted(l) != all {
                    return Err(format!("an enumeration continued after {k} entries lists other entries"));
                }
            }
            let (c, last) = (a.non_default_entries().count(), a.non_default_entries().last());
            if c != n || last.map_or(n != 0, |(i, d)| !list.contains(&(rd(&i), rd(&d)))) {
                return Err(format!("count is {c} and last is wrong or missing, {n} entries were listed"));
            }
            Ok(())
        });
        self.rep.ops += 4;
        let bad = match o {
            Outcome::Done(Ok(())) => return,
            Outcome::Done(Err(e)) => e,
            o => format!("failed: {}", desc(&o)),
        };
        let msg = format!("slot {s} {when}, enumerating it again: {bad}");
        self.wrong("enumeration", msg);
    }

    /// A dense array that is large, but within the limit: it must be created, and behave.
    fn big(&mut self, iw: u32, d: &V, ix: &[u64]) {
        simrt::BUDGET.store(2 << 30, std::sync::atomic::Ordering::Relaxed);
        let own = d.own();
        let flip = d.not();
        let flip_own = flip.own();
        let eq = self.prop == "C02";
        let (o, ..) = go(None, Default::default(), || {
            let mut a = ArrayValue::new_dense(iw, &own);
            let i = |k: u64| BitVecValue::from_u64(k & ((1 << iw) - 1), iw);
            let same = if eq { ArrayValue::new_dense(iw, &own) } else { ArrayValue::new_sparse(iw, &own) };
            if eq && a.is_equal(&same) != Some(true) {
                return Err("two large arrays with the same contents are not equal".to_string());
            }
            for k in ix {
                for j in [*k, k + 1, k + 64, !*k, 0, (1 << iw) - 1] {
                    if rd(&a.select(&i(j))) != *d {
                        return Err(format!("select({j}) before any store is {:?}", a.select(&i(j))));
                    }
                }
            }
            for k in ix {
                a.store(&i(*k), &flip_own);
            }
            for k in ix {
                for j in [*k, k + 1, k.wrapping_sub(1), k + 8, k + 64, k ^ (1 << (iw - 1)), !*k, 0, (1 << iw) - 1] {
                    let j = j & ((1 << iw) - 1);
                    let want = if ix.contains(&j) { &flip } else { d };
                    let got = rd(&a.select(&i(j)));
                    if got != *want {
                        return Err(format!("select({j}) is {got:?}, expected {want:?}"));
                    }
                }
            }
            if eq && d.w > 0 && (a.is_equal(&same) != Some(false) || same == a) {
                return Err("two large arrays with different contents are equal".to_string());
            }
            a.clear();
            for k in ix {
                let got = rd(&a.select(&i(*k)));
                if got != V::zero(d.w) {
                    return Err(format!("select({k}) after clear is {got:?}"));
                }
            }
            if !a.is_dense() || a.is_sparse() || (a.index_width(), a.data_width()) != (iw, d.w) {
                return Err("type or representation changed".to_string());
            }
            Ok(())
        });
        self.rep.ops += 20;
        self.rep.sig(("big", iw, d.w));
        self.rep.count("probe:large dense array");
        match o {
            Outcome::Done(Ok(())) => {}
            Outcome::Done(Err(e)) => self.wrong("large", format!("dense array of type {iw}x{}: {e}", d.w)),
            Outcome::Oom => self.end_quietly("memory"),
            o => self.wrong("large", format!("dense array of type {iw}x{}: {}", d.w, desc(&o))),
        }
    }

    fn huge(&mut self, n: u64, mul: u64, wide: bool, h: Option<u64>) {
        simrt::BUDGET.store(512 << 20, std::sync::atomic::Ordering::Relaxed);
        let val = |k: u64| k.wrapping_add(1).wrapping_mul(mul);
        let (o, _, _) = go(h, Default::default(), || {
            let mut iw = 0;
            while (1u64 << iw) < n {
                iw += 1;
            }
            let dense = if wide {
                let mut a = ArrayValue::new_dense(iw, &BitVecValue::zero(65));
                let mut w = vec![0, 1];
                for k in 0..n {
                    w[0] = val(k);
                    a.store(&BitVecValue::from_u64(k, iw), w.as_slice().get_ref(BitVecValueIndex::new(0, 65)));
                }
                a
            } else {
                let v: Vec<u64> = (0..n).map(val).collect();
                ArrayValue::from(v.as_slice())
            };
            let want = |k: u64| -> (u64, u64) {
                if k < n {
                    (val(k), wide as u64)
                } else {
                    (0, 0)
                }
            };
            let words = |v: &BitVecValue| (v.words()[0], v.words().get(1).copied().unwrap_or(0));
            for k in (0..1u64 << iw).step_by(997) {
                let got = dense.select(&BitVecValue::from_u64(k, iw));
                if words(&got) != want(k) {
                    return Err(format!("dense select({k}) is {got:?}"));
                }
            }
            let sp = SparseArrayValue::from(dense);
            let mut k = 0;
            while k < 1u64 << iw {
                let got = sp.select(&BitVecValue::from_u64(k, iw));
                if words(&got) != want(k) {
                    return Err(format!("sparse select({k}) is {got:?}"));
                }
                k += if k < 5000 || (n - 200..n + 200).contains(&k) { 1 } else { 97 };
            }
            let def = words(&sp.default());
            let mut listed = 0u64;
            for (i, d) in sp.non_default_entries() {
                let i = i.words()[0];
                if words(&d) != want(i) || words(&d) == def {
                    return Err(format!("entry {i} is {d:?}"));
                }
                listed += 1;
            }
            let expected = (0..1u64 << iw).filter(|k| want(*k) != def).count() as u64;
            if listed != expected {
                return Err(format!("{listed} entries, expected {expected}"));
            }
            Ok(())
        });
        self.rep.ops += 3 * n;
        self.rep.sig(("huge", n, wide));
        self.rep.count("probe:more distinct elements than the default search keeps");
        match o {
            Outcome::Done(Ok(())) => {}
            Outcome::Done(Err(e)) => {
                if self.prop != "C02" {
                    self.wrong("huge", e)
                }
            }
            o => {
                if self.prop != "C02" {
                    self.wrong("huge", format!("failed: {}", desc(&o)))
                }
            }
        }
    }
}

fn kind(a: &A) -> &'static str {
    match a {
        A::Arr(v) if v.is_dense() => "dense",
        A::Arr(_) => "sparse",
        A::Bare(_) => "bare sparse",
    }
}
pub fn desc<T>(o: &Outcome<T>) -> String {
    match o {
        Outcome::Panic(m) => format!("panic: {m}"),
        o => o.kind().to_string(),
    }
}
fn arg<'a>(own: &'a BitVecValue, s: Spoil) -> Arg<'a> {
    if s == Spoil::Panic {
        Arg::Panics
    } else {
        Arg::Own(own)
    }
}
fn argr<'a>(own: &'a BitVecValue, v: &'a V, s: Spoil) -> Arg<'a> {
    match s {
        Spoil::Panic => Arg::Panics,
        _ if v.x.first().map_or(false, |x| x & 1 == 1) => Arg::Ref(v.r()),
        _ => Arg::Own(own),
    }
}
