//! C12: hash and ordered collections keyed by values that were produced in many different ways.
use crate::bv::{self, V};
use crate::plan::go;
use crate::rep::{Fnv, Rep};
use baa::*;
use serde::{Deserialize, Serialize};
use simrt::rng::Rng;
use simrt::{Outcome, Plan};
use std::cmp::Ordering;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::hash::{BuildHasher, Hash, Hasher, RandomState};

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Scn {
    pub hash: u64,
    pub fill: u8,
    pub pool: Vec<V>,
    pub steps: Vec<Step>,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Step {
    pub c: u8,
    pub op: Op,
    /// hash keys of a table made by this step
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub h: Option<u64>,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Op {
    /// produces a value by some operation
    Make {
        s: usize,
        route: u8,
        a: usize,
        b: usize,
        n: u64,
        #[serde(default, skip_serializing_if = "Option::is_none")]
        f: Option<u64>,
    },
    Put { s: usize, view: bool },
    Del { s: usize, view: bool },
    Get { s: usize, view: bool },
    Cmp { s: usize, t: usize },
    /// moves everything into new tables
    Rehash,
    Sweep,
}

const SLOTS: usize = 12;
const ROUTES: u64 = 34;

pub fn gen(_p: &str, r: &mut Rng, long: bool) -> Scn {
    let widths: Vec<u32> = (0..r.range(1, 3)).map(|_| bv::gen_width_big(r, 320)).collect();
    let mut pool: Vec<V> = vec![];
    for _ in 0..r.range(2, 8) {
        let w = *r.pick(&widths);
        let w = match r.below(12) {
            0 => w + 1,
            1 => (w - 1).max(1),
            2 => w + 64,
            3 => w.div_ceil(64) * 64,
            _ => w,
        };
        pool.push(bv::gen(r, w, &pool.clone()));
    }
    let n = if long { r.range(20, 250) } else { r.range(5, 80) };
    let fden = *r.pick(&[0u64, 10]);
    let steps = (0..n)
        .map(|_| {
            let s = r.idx(SLOTS);
            let view = r.chance(1, 2);
            let op = match r.below(20) {
                0..=6 => Op::Make {
                    s,
                    route: r.below(ROUTES) as u8,
                    a: r.idx(pool.len()),
                    b: r.idx(pool.len()),
                    n: r.next() >> r.below(60),
                    f: if fden > 0 && r.chance(1, fden) { Some(r.below(3)) } else { None },
                },
                7..=10 => Op::Put { s, view },
                11 | 12 => Op::Del { s, view },
                13..=15 => Op::Get { s, view },
                16 | 17 => Op::Cmp { s, t: r.idx(SLOTS) },
                18 => Op::Rehash,
                _ => Op::Sweep,
            };
            Step { c: r.below(3) as u8, op, h: if r.chance(1, 3) { Some(r.next() >> 20) } else { None } }
        })
        .collect();
    Scn { hash: r.next() >> 16, fill: *r.pick(&[0u8, 0xa5, 0xff]), pool, steps }
}

/// Width and bits of a value, whatever its representation holds besides them.
fn key(b: &BitVecValue) -> V {
    V { w: b.width(), x: b.words().to_vec() }.canon()
}

fn make(route: u8, a: &V, b: &V, n: u64) -> Option<BitVecValue> {
    let w = a.w;
    let (x, y) = (a.own(), b.fit(w).own());
    let pos = (n % w as u64) as u32;
    let v = match route as u64 % ROUTES {
        0 | 1 => x,
        2 => BitVecValue::from_u64(if w < 64 { a.low() & ((1 << w) - 1) } else { a.low() }, w),
        3 => BitVecValue::from_str_radix(&a.bits_str(), 2, w).ok()?,
        4 => BitVecValue::from_str_radix(&a.hex_str(), 16, w).ok()?,
        5 => BitVecValue::from_bit_str(&a.bits_str()).ok()?,
        6 => BitVecValue::from_hex_str(&a.hex_str()).ok()?,
        7 => x.add(&y),
        8 => x.sub(&y),
        9 => x.xor(&y),
        10 => x.and(&y),
        11 => x.or(&y),
        12 => x.not(),
        13 => x.negate(),
        14 => x.not().not(),
        15 => x.negate().negate(),
        16 => x.add(&y).sub(&y),
        17 => {
            let (hi, lo) = (pos.max((n / 97 % w as u64) as u32), pos.min((n / 97 % w as u64) as u32));
            x.slice(hi, lo)
        }
        18 => {
            if w < 2 {
                return None;
            }
            let cut = 1 + pos % (w - 1);
            x.slice(w - 1, cut).concat(&x.slice(cut - 1, 0))
        }
        19 => x.concat(&b.own()),
        20 => x.zero_extend(n as u32 % 100),
        21 => x.sign_extend(n as u32 % 100),
        22 => x.sign_extend(n as u32 % 70).slice(w - 1, 0),
        23 => x.shift_left(&V::u(pos as u64, w).own()),
        24 => x.shift_right(&V::u(pos as u64, w).own()),
        25 => x.arithmetic_shift_right(&V::u(pos as u64, w).own()),
        26 => BitVecValue::from_bytes_le(&x.to_bytes_le(), w),
        27 => {
            if n & 1 == 0 {
                BitVecValue::from_big_int(&x.to_big_int(), w)
            } else {
                BitVecValue::from_big_uint(&x.to_big_uint(), w)
            }
        }
        28 => {
            let mut d = BitVecValue::ones(w);
            d.assign(&x);
            d
        }
        29 => {
            let mut d = BitVecValue::ones(w);
            for i in 0..w {
                if a.bit(i) {
                    d.set_bit(i)
                } else {
                    d.clear_bit(i)
                }
            }
            d
        }
        30 => {
            let mut d = ArrayValue::new_sparse(5, &y);
            d.store(&BitVecValue::from_u64(3, 5), &x);
            if n & 1 == 0 {
                d.make_dense();
            }
            d.select(&BitVecValue::from_u64(3, 5))
        }
        31 => {
            let mut it = ValueInterner::new();
            it.get_index(&y);
            let i = it.get_index(&x);
            let r: BitVecValueRef = it.words().get_ref(i);
            r.into()
        }
        32 => {
            let b = bincode::serialize(&x).ok()?;
            bincode::deserialize(&b).ok()?
        }
        _ => {
            let mut d = BitVecValue::zero(w);
            if n & 1 == 0 {
                d.assign_ones();
            } else {
                d.assign_from_i64((n as i64) << (n % 3) << 60 >> 61 & if w < 3 { 0 } else { 3 });
            }
            d
        }
    };
    Some(v)
}

#[derive(Default)]
struct Colls {
    hm: HashMap<BitVecValue, u64>,
    hs: HashSet<BitVecValue>,
    bm: BTreeMap<BitVecValue, u64>,
    bs: BTreeSet<BitVecValue>,
    /// keyed by views into memory that outlives the run
    vm: HashMap<BitVecValueRef<'static>, u64>,
}

struct World<'a> {
    slots: Vec<Option<(BitVecValue, V, u64)>>,
    c: Colls,
    want: BTreeMap<V, u64>,
    rep: &'a mut Rep,
    step: usize,
    stamp: u64,
    made: Vec<(BitVecValue, u64)>,
}

fn hash_fixed<T: Hash>(x: &T) -> u64 {
    let mut f = Fnv(99);
    x.hash(&mut f);
    f.finish()
}

fn leak(b: &BitVecValue) -> BitVecValueRef<'static> {
    let words: &'static [u64] = Box::leak(b.words().to_vec().into_boxed_slice());
    // (rebuilt from exactly the words the value has)
    words.get_ref(BitVecValueIndex::new(0, b.width()))
}

pub fn run(_p: &str, scn: &Scn, rep: &mut Rep) {
    simrt::set_fill(scn.fill);
    let pool: Vec<V> = scn.pool.iter().filter(|v| v.w > 0 && v.w < 2000).cloned().collect();
    if pool.is_empty() {
        return;
    }
    let mut w = World { slots: (0..SLOTS).map(|_| None).collect(), c: Colls::default(), want: BTreeMap::new(), rep, step: 0, stamp: 0, made: vec![] };
    for (n, s) in scn.steps.iter().enumerate() {
        w.step = n;
        w.exec(s, &pool);
        if w.rep.over() {
            return;
        }
    }
    w.step = scn.steps.len();
    w.sweep();
}

impl World<'_> {
    fn wrong(&mut self, class: &str, msg: String) {
        self.rep.fail(self.step, class, msg)
    }

    fn exec(&mut self, st: &Step, pool: &[V]) {
        self.rep.sig(st.c);
        match &st.op {
            Op::Make { s, route, a, b, n, f } => {
                let s = s % SLOTS;
                let (a, b) = (&pool[a % pool.len()], &pool[b % pool.len()]);
                for f in [*f, None] {
                    let (o, fired, allocs) = go(st.h, Plan { fail_at: f, sticky: false }, || make(*route, a, b, *n));
                    self.rep.ops += 1;
                    self.rep.sig(("make", route, o.kind(), a.w));
                    self.rep.see(allocs);
                    match o {
                        Outcome::Done(Some(v)) => {
                            let k = key(&v);
                            self.rep.see(&k);
                            let h = hash_fixed(&v);
                            if self.made.len() < 60 {
                                self.made.push((v.clone(), h));
                            }
                            self.slots[s] = Some((v, k, h));
                            self.against_canonical(s);
                            break;
                        }
                        Outcome::Done(None) => break,
                        _ if fired => self.rep.fault("allocation refused"),
                        // an operation that panics is not this property's concern
                        _ => {
                            self.rep.count("probe:operation not available");
                            break;
                        }
                    }
                }
            }
            Op::Put { s, view } => {
                let Some((v, k, _)) = self.slots[s % SLOTS].clone() else { return };
                self.stamp += 1;
                let n = self.stamp;
                let c = &mut self.c;
                let (o, _) = simrt::call(Plan::default(), || {
                    let lk = simrt::unarmed(|| leak(&v));
                    // owned copies are made through a view or directly
                    let own = || if *view { BitVecValue::from(BitVecValueRef::from(&v)) } else { v.clone() };
                    (c.hm.insert(own(), n), c.bm.insert(own(), n), c.vm.insert(lk, n), c.hs.insert(own()), c.bs.insert(own()))
                });
                let old = self.want.insert(k.clone(), n);
                self.check_answer("insert", &k, o, (old, old, old, old.is_none(), old.is_none()));
            }
            Op::Del { s, .. } => {
                let Some((v, k, _)) = self.slots[s % SLOTS].clone() else { return };
                let c = &mut self.c;
                let (o, _) = simrt::call(Plan::default(), || {
                    let r = BitVecValueRef::from(&v);
                    (c.hm.remove(&v), c.bm.remove(&v), view_remove(&mut c.vm, r), c.hs.remove(&v), c.bs.remove(&v))
                });
                let old = self.want.remove(&k);
                self.check_answer("remove", &k, o, (old, old, old, old.is_some(), old.is_some()));
            }
            Op::Get { s, view } => {
                let Some((v, k, _)) = self.slots[s % SLOTS].clone() else { return };
                let old = self.want.get(&k).copied();
                let c = &self.c;
                let (o, _) = simrt::call(Plan::default(), || {
                    let r = BitVecValueRef::from(&v);
                    (c.hm.get(&v).copied(), c.bm.get(&v).copied(), view_get(&c.vm, r), c.hs.contains(&v), c.bs.contains(&v))
                });
                self.check_answer("lookup", &k, o, (old, old, old, old.is_some(), old.is_some()));
                if self.rep.over() || !view || self.want.is_empty() {
                    return;
                }
                // looking up an owned key by a borrowed view
                let c = &self.c;
                let (o, _) = simrt::call(Plan::default(), || {
                    let r = BitVecValueRef::from(&v);
                    (c.hm.get(&r).copied(), c.hs.contains(&r))
                });
                match o {
                    Outcome::Done(x) if x == (old, old.is_some()) => self.rep.count("probe:owned key found by view"),
                    Outcome::Done(x) => {
                        let msg = format!("looking up {k:?} by a view in tables of owned keys gives {x:?}, expected {old:?}");
                        self.wrong("lookup", msg)
                    }
                    Outcome::Panic(m) if m.starts_with("not yet implemented") => {
                        self.rep.known("borrow-lookup", "looking up a key of a HashMap<BitVecValue, _> or HashSet<BitVecValue> by BitVecValueRef panics (Borrow is not implemented)".into())
                    }
                    o => {
                        let msg = format!("looking up {k:?} by a view in tables of owned keys: {}", crate::arr::desc(&o));
                        self.wrong("lookup", msg)
                    }
                }
            }
            Op::Cmp { s, t } => self.cmp(s % SLOTS, t % SLOTS),
            Op::Rehash => {
                let old = std::mem::take(&mut self.c);
                let (o, _, _) = go(Some(st.h.unwrap_or(1)), Plan::default(), move || {
                    let mut n = Colls::default();
                    for (k, v) in old.hm {
                        n.hm.insert(k, v);
                    }
                    for k in old.hs {
                        n.hs.insert(k);
                    }
                    for (k, v) in old.vm {
                        n.vm.insert(k, v);
                    }
                    for (k, v) in old.bm {
                        n.bm.insert(k, v);
                    }
                    for k in old.bs {
                        n.bs.insert(k);
                    }
                    n
                });
                self.rep.sig("rehash");
                self.rep.count("fault:new hash keys");
                self.rep.fired += 1;
                match o {
                    Outcome::Done(c) => self.c = c,
                    o => return self.wrong("op-fails", format!("moving the keys into new tables: {}", crate::arr::desc(&o))),
                }
                self.sweep();
            }
            Op::Sweep => self.sweep(),
        }
    }

    fn check_answer<T: PartialEq + std::fmt::Debug>(&mut self, what: &str, k: &V, o: Outcome<T>, want: T) {
        self.rep.ops += 5;
        self.rep.sig((what, o.kind(), format!("{want:?}").len()));
        match o {
            Outcome::Done(x) if x == want => {}
            Outcome::Done(x) => {
                let msg = format!("{what} of {k:?} in (hash map, ordered map, hash map of views, hash set, ordered set) answers {x:?}, expected {want:?}");
                self.wrong("answer", msg)
            }
            o => {
                let msg = format!("{what} of {k:?}: {}", crate::arr::desc(&o));
                self.wrong("op-fails", msg)
            }
        }
    }

    /// The value against one with the same width and bits made from plain words.
    fn against_canonical(&mut self, s: usize) {
        let Some((v, k, _)) = &self.slots[s] else { return };
        let c = k.own();
        if let Some(m) = same(v, &c) {
            let msg = format!("{k:?}, produced by an operation, and the same value made from its bits: {m}");
            self.wrong("incoherent", msg);
        }
    }

    fn cmp(&mut self, s: usize, t: usize) {
        let (Some((a, ka, _)), Some((b, kb, _))) = (&self.slots[s], &self.slots[t]) else { return };
        self.rep.ops += 1;
        let m = if ka == kb {
            same(a, b)
        } else {
            different(a, b)
        };
        self.rep.sig(("cmp", s, t, ka == kb));
        self.rep.count(if ka == kb { "probe:compared equal values" } else { "probe:compared different values" });
        if let Some(m) = m {
            let msg = format!("{ka:?} and {kb:?}: {m}");
            self.wrong("incoherent", msg);
        }
    }

    fn sweep(&mut self) {
        let c = &self.c;
        let (o, _) = simrt::call(Plan::default(), || {
            let mut all: Vec<Vec<(V, Option<u64>)>> = vec![
                c.hm.iter().map(|(k, v)| (key(k), Some(*v))).collect(),
                c.bm.iter().map(|(k, v)| (key(k), Some(*v))).collect(),
                c.vm.iter().map(|(k, v)| (key(&BitVecValue::from(*k)), Some(*v))).collect(),
                c.hs.iter().map(|k| (key(k), None)).collect(),
                c.bs.iter().map(|k| (key(k), None)).collect(),
            ];
            all.iter_mut().for_each(|l| l.sort());
            let ordered = c.bs.iter().zip(c.bs.iter().skip(1)).all(|(a, b)| a < b && b > a && a.cmp(b) == Ordering::Less);
            (all, ordered)
        });
        self.rep.ops += 1;
        match o {
            Outcome::Done((all, ordered)) => {
                let want: Vec<(V, u64)> = self.want.iter().map(|(k, v)| (k.clone(), *v)).collect();
                let names = ["hash map", "ordered map", "hash map of views", "hash set", "ordered set"];
                for (n, l) in names.iter().zip(&all) {
                    let ok = l.len() == want.len() && l.iter().zip(&want).all(|((k, v), (wk, wv))| k == wk && v.map_or(true, |v| v == *wv));
                    if !ok {
                        let msg = format!("the {n} holds {l:?}, expected {want:?}");
                        return self.wrong("contents", msg);
                    }
                }
                if !ordered {
                    return self.wrong("order", "the ordered set is not in ascending order".into());
                }
            }
            o => return self.wrong("op-fails", format!("iterating: {}", crate::arr::desc(&o))),
        }
        // hashing, equality and order are a matter of the value alone, and stay as they are
        for i in 0..self.made.len() {
            let (a, h) = &self.made[i];
            if hash_fixed(a) != *h {
                let msg = format!("the hash of {:?} has changed", key(a));
                return self.wrong("unstable", msg);
            }
            let j = (i * 7 + self.step) % self.made.len();
            let k = (i * 3 + 1) % self.made.len();
            let (b, c) = (&self.made[j].0, &self.made[k].0);
            let m = if key(a) == key(b) { same(a, b) } else { different(a, b) };
            if let Some(m) = m {
                let msg = format!("{:?} and {:?}: {m}", key(a), key(b));
                return self.wrong("incoherent", msg);
            }
            if a.cmp(b) == Ordering::Less && b.cmp(c) == Ordering::Less && a.cmp(c) != Ordering::Less {
                let msg = format!("{:?} < {:?} < {:?}, but not the first below the last", key(a), key(b), key(c));
                return self.wrong("order", msg);
            }
        }
    }
}

// The lifetime of the key type is that of the table; any view will do for a lookup.
fn view_get(m: &HashMap<BitVecValueRef<'static>, u64>, r: BitVecValueRef) -> Option<u64> {
    let r: BitVecValueRef<'static> = unsafe { std::mem::transmute(r) };
    m.get(&r).copied()
}
fn view_remove(m: &mut HashMap<BitVecValueRef<'static>, u64>, r: BitVecValueRef) -> Option<u64> {
    let r: BitVecValueRef<'static> = unsafe { std::mem::transmute(r) };
    m.remove(&r)
}

/// What contradicts a and b being the same key.
fn same(a: &BitVecValue, b: &BitVecValue) -> Option<String> {
    let (o, _) = simrt::call(Plan::default(), || {
        let (ra, rb) = (BitVecValueRef::from(a), BitVecValueRef::from(b));
        let st = RandomState::new();
        let mut bm = b.clone();
        let checks = [
            ("a == b", a == b && b == a && !(a != b)),
            ("view == view", ra == rb && rb == ra && !(ra != rb)),
            ("owned == view", *a == rb && rb == *a && ra == *b && *b == ra),
            ("owned == mutable view", *a == BitVecValueMutRef::from(&mut bm)),
            ("Value == Value", Value::BitVec(a.clone()) == Value::BitVec(b.clone())),
            ("hash", st.hash_one(a) == st.hash_one(b) && hash_fixed(a) == hash_fixed(b)),
            ("hash of views", st.hash_one(ra) == st.hash_one(rb) && st.hash_one(a) == st.hash_one(rb) && hash_fixed(&ra) == hash_fixed(b)),
            ("cmp", a.cmp(b) == Ordering::Equal && b.cmp(a) == Ordering::Equal && a.partial_cmp(b) == Some(Ordering::Equal)),
        ];
        checks.iter().find(|c| !c.1).map(|c| c.0)
    });
    match o {
        Outcome::Done(None) => None,
        Outcome::Done(Some(m)) => Some(format!("same width and bits, but they disagree in: {m}")),
        o => Some(format!("comparing them: {}", crate::arr::desc(&o))),
    }
}
/// What contradicts a and b being different keys.
fn different(a: &BitVecValue, b: &BitVecValue) -> Option<String> {
    let (o, _) = simrt::call(Plan::default(), || {
        let (ra, rb) = (BitVecValueRef::from(a), BitVecValueRef::from(b));
        let mut bm = b.clone();
        let checks = [
            ("a == b", a != b && b != a && !(a == b)),
            ("view == view", ra != rb && rb != ra),
            ("owned == view", *a != rb && rb != *a),
            ("owned == mutable view", *a != BitVecValueMutRef::from(&mut bm)),
            ("Value == Value", Value::BitVec(a.clone()) != Value::BitVec(b.clone())),
            ("cmp", a.cmp(b) != Ordering::Equal && a.cmp(b) == b.cmp(a).reverse() && a.partial_cmp(b) == Some(a.cmp(b)) && (a < b) == (a.cmp(b) == Ordering::Less)),
        ];
        checks.iter().find(|c| !c.1).map(|c| c.0)
    });
    match o {
        Outcome::Done(None) => None,
        Outcome::Done(Some(m)) => Some(format!("different width or bits, but they agree or contradict each other in: {m}")),
        o => Some(format!("comparing them: {}", crate::arr::desc(&o))),
    }
}
