//! C05/C06: interning tables.
use crate::bv::{self, rd, V};
use crate::plan::*;
use crate::rep::Rep;
use baa::*;
use serde::{Deserialize, Serialize};
use simrt::rng::Rng;
use simrt::Outcome;
use std::collections::BTreeMap;

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Scn {
    pub hash: u64,
    /// hash keys of the process in which the sequences are repeated
    pub hash2: u64,
    pub fill: u8,
    pub steps: Vec<Step>,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Step {
    pub op: Op,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub h: Option<u64>,
    #[serde(default)]
    pub f: Fault,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Op {
    New { t: usize },
    Get { t: usize, v: V },
    /// interns v, v+inc, v+2*inc, ...
    GetMany { t: usize, v: V, n: u32, inc: V },
    /// interns a value borrowed from another table
    GetFrom { t: usize, u: usize, k: usize },
    Clone { t: usize, u: usize },
    CheckAll,
    Drop { t: usize },
}
const TABLES: usize = 4;

pub fn gen(prop: &str, r: &mut Rng, long: bool) -> Scn {
    if r.chance(1, 400) {
        // many values, sometimes so many that no small integer counts them
        let ws = [17u32, 40, 64, 65, 128, 200];
        let (w, w2) = (*r.pick(&ws), *r.pick(&ws));
        let (v, v2) = (bv::gen(r, w, &[]), bv::gen(r, w2, &[]));
        let n = match r.below(6) {
            0 => r.range(66_000, 90_000),
            1 => *r.pick(&[8_200, 9_000, 16_400, 17_000, 32_800, 40_000]),
            _ => *r.pick(&[256, 260, 513, 600, 1_025, 1_030, 1_500, 2_050, 3_000, 4_100, 5_000]),
        } as u32;
        let f = if prop == "C06" { Fault::EveryAlloc } else { Fault::None };
        // (every fault takes a look at the tables)
        let mf = if prop == "C06" && (n <= 1_100 || r.chance(1, 2) && w <= 64 && n < 10_000) {
            *r.pick(&[Fault::EveryAlloc, Fault::EveryAlloc, Fault::Alloc(0), Fault::Exhausted(0), Fault::Alloc(1)])
        } else {
            Fault::None
        };
        let inc = V::u(if r.chance(1, 2) { 1 } else { r.next() | 1 }, w);
        let step = |op, f| Step { op, h: None, f };
        let mut steps = vec![
            step(Op::GetMany { t: 0, v: v.clone(), n, inc: inc.clone() }, mf),
            step(Op::GetMany { t: 0, v: v.add(&V::u(n as u64 - 20, w)), n: 40, inc: V::u(1, w) }, Fault::None),
            step(Op::Get { t: 0, v: v.not() }, f),
            step(Op::GetMany { t: 0, v: v2.clone(), n: r.range(1, n as u64) as u32, inc: V::u(3, w2) }, Fault::None),
            step(Op::Get { t: 0, v: v2.not() }, f),
            step(Op::Clone { t: 0, u: 1 }, f),
            step(Op::GetMany { t: 0, v: v.clone(), n, inc }, Fault::None),
            step(Op::GetMany { t: 1, v: v.negate(), n: 50, inc: V::u(1, w) }, Fault::None),
        ];
        if r.chance(1, 2) {
            steps.swap(0, 3);
        }
        return Scn { hash: r.next() >> 16, hash2: r.next() >> 16, fill: 0xa5, steps };
    }
    let nt = r.range(1, TABLES as u64) as usize;
    let n = if long { r.range(20, 300) } else { r.range(5, 80) };
    let fden = if prop == "C06" { *r.pick(&[1u64, 2, 4]) } else { 0 };
    let widths: Vec<u32> = (0..r.range(1, 5)).map(|_| bv::gen_width_big(r, 577)).collect();
    let mut pool: Vec<V> = vec![];
    let mut steps = vec![];
    for _ in 0..n {
        let t = r.idx(nt);
        let w = *r.pick(&widths);
        let val = |r: &mut Rng, pool: &mut Vec<V>| {
            let mut v = bv::gen(r, w, pool);
            match r.below(12) {
                0 => v.x.reverse(),
                1 => v = V::u(r.below(11), w),
                2 => {
                    // one word of a known value zeroed, or swapped with its neighbour
                    let k = r.idx(v.x.len());
                    if r.chance(1, 2) {
                        v.x[k] = 0
                    } else {
                        let j = (k + 1) % v.x.len();
                        v.x.swap(k, j)
                    }
                }
                _ => {}
            }
            let v = v.canon();
            if pool.len() < 40 {
                pool.push(v.clone());
            }
            v
        };
        let op = match r.below(20) {
            0 => Op::New { t },
            1 | 2 => Op::Clone { t, u: r.idx(nt) },
            3 => Op::CheckAll,
            4 => Op::GetFrom { t, u: r.idx(nt), k: r.idx(50) },
            5 if r.chance(1, 3) => Op::Drop { t },
            6 | 7 => {
                let big = if r.chance(1, 10) { 300 } else { 30 };
                Op::GetMany { t, v: val(r, &mut pool), n: r.range(1, big) as u32, inc: V::u(1, w) }
            }
            _ => Op::Get { t, v: val(r, &mut pool) },
        };
        let f = match gen_fault(r, fden) {
            Fault::Arg1Wide | Fault::Arg2Wide => Fault::EveryAlloc,
            f => f,
        };
        let h = if r.chance(1, 6) { Some(r.next() >> 32) } else { None };
        steps.push(Step { op, h, f });
    }
    Scn { hash: r.next() >> 16, hash2: r.next() >> 16, fill: *r.pick(&[0, 0xa5, 0xff]), steps }
}

#[derive(Clone, Default)]
struct Known {
    /// value -> handle
    of: BTreeMap<V, (usize, u32)>,
    /// handle -> value
    who: BTreeMap<(usize, u32), V>,
    /// values in the order of the requests, with the handles returned
    log: Vec<(V, (usize, u32))>,
    failed: bool,
}
struct Tab {
    it: ValueInterner,
    k: Known,
}

fn key(i: &BitVecValueIndex) -> (usize, u32) {
    (i.to_range().start, i.width())
}

struct World<'a> {
    prop: &'a str,
    tabs: Vec<Option<Tab>>,
    rep: &'a mut Rep,
    step: usize,
}

pub fn run(prop: &str, scn: &Scn, rep: &mut Rep) {
    simrt::set_fill(scn.fill);
    let mut w = World { prop, tabs: (0..TABLES).map(|_| None).collect(), rep, step: 0 };
    for (n, s) in scn.steps.iter().enumerate() {
        w.step = n;
        w.exec(s);
        if w.rep.over() {
            return;
        }
    }
    w.step = scn.steps.len();
    w.check_all();
    if w.rep.over() || prop != "C05" {
        return;
    }
    // the same sequence in another process gives the same handles
    for t in 0..TABLES {
        let Some(tab) = &w.tabs[t] else { continue };
        if tab.k.failed {
            continue;
        }
        let vals: Vec<BitVecValue> = tab.k.log.iter().map(|(v, _)| v.own()).collect();
        let (o, _, _) = go(Some(scn.hash2), Default::default(), || {
            let mut it = ValueInterner::default();
            vals.iter().map(|v| key(&it.get_index(v))).collect::<Vec<_>>()
        });
        w.rep.count("probe:sequence repeated in another process");
        match o {
            Outcome::Done(h) => {
                if let Some(k) = (0..h.len()).find(|k| h[*k] != tab.k.log[*k].1) {
                    let msg = format!("table {t}: request {k} ({:?}) returned handle {:?}, but {:?} in another process", tab.k.log[k].0, tab.k.log[k].1, h[k]);
                    return w.rep.fail(w.step, "not-reproducible", msg);
                }
            }
            o => return w.rep.fail(w.step, "op-fails", format!("repeating the sequence: {}", crate::arr::desc(&o))),
        }
    }
}

impl World<'_> {
    fn wrong(&mut self, class: &str, msg: String) {
        self.rep.fail(self.step, class, msg)
    }

    fn resolve(it: &ValueInterner, h: (usize, u32)) -> Result<V, String> {
        let (o, _) = simrt::call(Default::default(), || {
            let words: &[u64] = it.words();
            let r: BitVecValueRef = words.get_ref(BitVecValueIndex::new(h.0 as u32, h.1));
            (r.width(), r.words().to_vec())
        });
        match o {
            Outcome::Done((w, x)) => Ok(V { w, x }),
            o => Err(crate::arr::desc(&o)),
        }
    }

    fn check_all(&mut self) {
        self.check_some(usize::MAX)
    }
    /// resolves the handles of every table, of very large ones about `most`
    fn check_some(&mut self, most: usize) {
        for t in 0..TABLES {
            let Some(tab) = &self.tabs[t] else { continue };
            let by = (tab.k.of.len() / most).max(1);
            for (v, h) in tab.k.of.iter().skip(self.rep.ops as usize % by).step_by(by) {
                match Self::resolve(&tab.it, *h) {
                    Ok(g) if g == *v => {}
                    g => {
                        let msg = format!("table {t}: handle {h:?} of {v:?} resolves to {g:?}");
                        return self.wrong("resolve", msg);
                    }
                }
            }
        }
    }

    fn get(&mut self, st: &Step, t: usize, v: &V, own: Option<&BitVecValue>) {
        let made;
        let own = match own {
            Some(o) => o,
            None => {
                made = v.own();
                &made
            }
        };
        if self.tabs[t].is_none() {
            self.new_table(st, t);
        }
        let mut at = Attempts::new(st.f);
        let mut fired = false;
        while let Some(tr) = at.next(fired) {
            let Some(tab) = self.tabs[t].as_mut() else { return };
            let (o, f, allocs) = go(st.h, tr.plan, || {
                let a = match tr.arg1 {
                    Spoil::Panic => Arg::Panics,
                    _ if v.low() & 2 == 2 => Arg::Ref(v.r()),
                    _ => Arg::Own(own),
                };
                tab.it.get_index(a)
            });
            fired = f;
            self.rep.ops += 1;
            self.rep.sig(("get", t, o.kind(), tr.plan.fail_at, allocs, tab.k.of.contains_key(v), v.w));
            self.rep.see((allocs, f));
            if f {
                self.rep.fault("allocation refused");
            }
            match o {
                Outcome::Done(i) => {
                    let h = key(&i);
                    self.rep.see(h);
                    if h.1 != v.w {
                        let msg = format!("table {t}: interning {v:?} returned a handle of width {}", h.1);
                        return self.wrong("width", msg);
                    }
                    match Self::resolve(&tab.it, h) {
                        Ok(g) if g == *v => {}
                        g => {
                            let msg = format!("table {t}: interning {v:?} returned handle {h:?}, which resolves to {g:?}");
                            return self.wrong("resolve", msg);
                        }
                    }
                    if let Some(old) = tab.k.of.get(v) {
                        if *old != h {
                            let msg = format!("table {t}: interning {v:?} again returned {h:?} instead of {old:?}");
                            return self.wrong("identity", msg);
                        }
                        self.rep.count("probe:interned again");
                    }
                    if let Some(other) = tab.k.who.get(&h) {
                        if other != v {
                            let msg = format!("table {t}: {v:?} and {other:?} share handle {h:?}");
                            return self.wrong("shared-handle", msg);
                        }
                    }
                    tab.k.of.insert(v.clone(), h);
                    tab.k.who.insert(h, v.clone());
                    if tab.k.log.len() < 300_000 {
                        tab.k.log.push((v.clone(), h));
                    } else {
                        tab.k.failed = true;
                    }
                    let (z, o) = (ValueInterner::is_zero(i), ValueInterner::is_one(&i));
                    let one = v.low() == 1 && v.x.iter().skip(1).all(|w| *w == 0);
                    for (name, got, want) in [("is_zero", z, v.is_zero()), ("is_one", o, one)] {
                        if got != want {
                            if self.prop != "C05" {
                                continue;
                            }
                            if !got && v.w > 64 {
                                // see known_findings.txt
                                self.rep.known(&format!("{name}-wide"), format!("ValueInterner::{name} is false for the handle of {v:?}"));
                            } else {
                                let msg = format!("table {t}: {name} is {got} for the handle of {v:?}");
                                return self.wrong("zero-one", msg);
                            }
                        }
                    }
                    at.stop();
                }
                o => {
                    if tr.clean {
                        let msg = format!("table {t}: interning {v:?}{} failed: {}", if at.retried() { " (retry without a fault)" } else { "" }, crate::arr::desc(&o));
                        return self.wrong("op-fails", msg);
                    }
                    if tr.arg1 == Spoil::Panic {
                        self.rep.fault("caller's conversion panics");
                    }
                    if f {
                        tab.k.failed = true;
                    }
                    // everything returned earlier is still there and is found again
                    let again: Vec<(V, (usize, u32))> = {
                        let k = &tab.k.log;
                        let n = k.len();
                        (0..n.min(5)).map(|j| k[n - 1 - (j * 7) % n].clone()).collect()
                    };
                    for (o, h) in again {
                        let ow = o.own();
                        let (r, _) = simrt::call(Default::default(), || tab.it.get_index(&ow));
                        match r {
                            Outcome::Done(i) if key(&i) == h => {}
                            r => {
                                let r = match r {
                                    Outcome::Done(i) => format!("{:?}", key(&i)),
                                    r => crate::arr::desc(&r),
                                };
                                let msg = format!("table {t}: after interning {v:?} failed, interning {o:?} again gives {r} instead of {h:?}");
                                return self.wrong("identity-after-failure", msg);
                            }
                        }
                    }
                    self.check_some(300);
                    if self.rep.over() {
                        return;
                    }
                }
            }
        }
    }

    fn new_table(&mut self, st: &Step, t: usize) {
        let mut at = Attempts::new(st.f);
        let mut fired = false;
        while let Some(tr) = at.next(fired) {
            let (o, f, _) = go(st.h, tr.plan, ValueInterner::new);
            fired = f;
            self.rep.ops += 1;
            self.rep.sig(("new", o.kind()));
            match o {
                Outcome::Done(it) => {
                    self.tabs[t] = Some(Tab { it, k: Known::default() });
                    at.stop();
                }
                _ if !tr.clean => self.rep.fault("allocation refused"),
                o => return self.wrong("op-fails", format!("creating a table failed: {}", crate::arr::desc(&o))),
            }
        }
    }

    fn exec(&mut self, st: &Step) {
        match &st.op {
            Op::New { t } => self.new_table(st, t % TABLES),
            Op::Get { t, v } => {
                if v.w > 0 {
                    self.get(st, t % TABLES, v, None)
                }
            }
            Op::GetMany { t, v, n, inc } => {
                let mut v = v.clone();
                let inc = inc.fit(v.w);
                for _ in 0..(*n).min(100_000) {
                    if v.w == 0 || self.rep.over() {
                        return;
                    }
                    self.get(st, t % TABLES, &v, None);
                    v = v.add(&inc);
                }
            }
            Op::GetFrom { t, u, k } => {
                let Some(tab) = &self.tabs[u % TABLES] else { return };
                if tab.k.log.is_empty() {
                    return;
                }
                let (v, h) = tab.k.log[k % tab.k.log.len()].clone();
                let (o, _) = simrt::call(Default::default(), || BitVecValue::from(tab.it.words().get_ref(BitVecValueIndex::new(h.0 as u32, h.1))));
                match o {
                    Outcome::Done(b) if rd(&b) == v => self.get(st, t % TABLES, &v, Some(&b)),
                    Outcome::Done(b) => {
                        let msg = format!("handle {h:?} of {v:?} resolves to {:?}", rd(&b));
                        self.wrong("resolve", msg)
                    }
                    o => self.wrong("resolve", format!("handle {h:?} of {v:?} does not resolve: {}", crate::arr::desc(&o))),
                }
            }
            Op::Clone { t, u } => {
                let (t, u) = (t % TABLES, u % TABLES);
                if self.tabs[t].is_none() {
                    return;
                }
                let mut at = Attempts::new(st.f);
                let mut fired = false;
                while let Some(tr) = at.next(fired) {
                    let tab = self.tabs[t].as_ref().unwrap();
                    let (o, f, _) = go(st.h, tr.plan, || tab.it.clone());
                    fired = f;
                    self.rep.ops += 1;
                    self.rep.sig(("clone", t, u, o.kind(), tr.plan.fail_at));
                    match o {
                        Outcome::Done(it) => {
                            let k = tab.k.clone();
                            self.tabs[u] = Some(Tab { it, k });
                            at.stop();
                        }
                        _ if !tr.clean => {
                            self.rep.fault("allocation refused");
                            self.check_some(2_000);
                        }
                        o => return self.wrong("op-fails", format!("cloning table {t} failed: {}", crate::arr::desc(&o))),
                    }
                    if self.rep.over() {
                        return;
                    }
                }
            }
            Op::CheckAll => self.check_all(),
            Op::Drop { t } => {
                let x = self.tabs[t % TABLES].take();
                simrt::call(Default::default(), move || drop(x));
                self.check_all();
            }
        }
    }
}
