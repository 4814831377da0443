//! C10: every operation gives the result it gives in a pristine process, whatever ran before, runs
//! concurrently or failed. Also reused by C13 as a source of operations.
use crate::bv::{self, rd, V};
use crate::plan::Arg;
use crate::rep::{fold, Rep};
use baa::*;
use serde::{Deserialize, Serialize};
use simrt::rng::Rng;
use simrt::{Outcome, Plan};
use std::collections::BTreeMap;

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Scn {
    pub hash: u64,
    pub fill: u8,
    pub ops: Operands,
    pub phases: Vec<Phase>,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Operands {
    /// values of equal width, shared by everybody
    pub bv: Vec<Vec<V>>,
    /// arrays of equal type, shared by everybody
    pub arr: Vec<Vec<ArrSpec>>,
    pub interned: Vec<V>,
    pub texts: Vec<(u32, String)>,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct ArrSpec {
    pub dense: bool,
    pub iw: u32,
    pub default: V,
    pub stores: Vec<(V, V)>,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Phase {
    /// operands the owner changes in place before the phase: class, member, new value
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub change: Vec<(u8, u8, V)>,
    /// arrays the owner changes in place before the phase: class, member, index, element
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub store: Vec<(u8, u8, V, V)>,
    pub threads: Vec<Vec<Call>>,
    pub sched: SchedSpec,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum SchedSpec {
    Random { seed: u64, log2: u32 },
    /// random pre-emption; who runs at these steps stalls while the others go on
    Stall { seed: u64, log2: u32, at: Vec<u64>, at_global: Vec<u64> },
    Explicit(Vec<(u64, u8)>),
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Call {
    pub op: u8,
    /// operand class and members
    pub k: u8,
    pub i: u8,
    pub j: u8,
    /// parameter
    pub n: u64,
    /// on copies of the operands in the thread's own place, which is used again and again
    #[serde(default, skip_serializing_if = "crate::iso::is_false")]
    pub own: bool,
    /// refuse this allocation
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub f: Option<u64>,
}

pub fn is_false(b: &bool) -> bool {
    !*b
}

pub const NOPS: u64 = 56;

/// operations on arrays
fn on_arrays(op: u8) -> bool {
    matches!(op as u64 % NOPS, 24..=39 | 50..=53)
}

pub fn gen_operands(r: &mut Rng) -> Operands {
    let mut bvs = vec![];
    let mut pool = vec![];
    for _ in 0..r.range(1, 3) {
        let w = bv::gen_width_big(r, 320);
        let c: Vec<V> = (0..r.range(2, 4)).map(|_| bv::gen(r, w, &pool)).collect();
        pool.extend(c.clone());
        bvs.push(c);
    }
    let mut arr = vec![];
    for _ in 0..r.range(1, 2) {
        let iw = *r.pick(&[0u32, 1, 2, 3, 4, 5, 8, 10, 33, 64, 65, 100, 130]);
        let dw = *r.pick(&[1u32, 2, 8, 9, 32, 64, 65, 128, 129, 200]);
        let ip: Vec<V> = (0..4).map(|_| bv::gen(r, iw, &[])).collect();
        let dp: Vec<V> = (0..3).map(|_| bv::gen(r, dw, &pool)).collect();
        arr.push(
            (0..r.range(1, 3))
                .map(|_| ArrSpec {
                    dense: iw <= 10 && r.chance(1, 2),
                    iw,
                    default: r.pick(&dp).clone(),
                    stores: {
                        let (n, big) = if r.chance(1, 150) { (r.range(60, 600), true) } else { (r.below(8), false) };
                        (0..n)
                            .map(|_| {
                                let i = if big { V { w: iw, x: vec![r.next(); bv::nwords(iw)] }.canon() } else { r.pick(&ip).clone() };
                                (i, r.pick(&dp).clone())
                            })
                            .collect()
                    },
                })
                .collect(),
        );
    }
    let interned = (0..r.below(4)).map(|_| r.pick(&pool).clone()).filter(|v| v.w > 0).collect();
    let texts = (0..r.range(1, 4))
        .map(|_| {
            let v = r.pick(&pool).clone();
            crate::store::gen_text(r, v.w, &v)
        })
        .collect();
    Operands { bv: bvs, arr, interned, texts }
}

pub fn gen_call(r: &mut Rng, o: &Operands, fden: u64) -> Call {
    let _ = o;
    Call {
        op: r.below(NOPS) as u8,
        k: r.below(3) as u8,
        i: r.below(4) as u8,
        j: r.below(4) as u8,
        n: r.next() >> r.below(60),
        own: r.chance(1, 4),
        f: if fden > 0 && r.chance(1, fden) { Some(r.below(4)) } else { None },
    }
}

pub fn gen(_prop: &str, r: &mut Rng, long: bool) -> Scn {
    let ops = gen_operands(r);
    let fden = *r.pick(&[0u64, 0, 4]);
    // few distinct calls, repeated: hidden state shows when an operation meets itself again
    let herd = r.chance(1, 5);
    let menu: Vec<Call> = (0..if herd { r.range(1, 2) } else { r.range(2, 7) }).map(|_| gen_call(r, &ops, 0)).collect();
    let nph = r.range(1, 3);
    let mut phases = vec![];
    for _ in 0..nph {
        let nt = *r.pick(&[1u64, 2, 2, 3, 4]);
        let per = if long || herd { r.range(2, 12) } else { r.range(1, 6) };
        let (mut change, mut store) = (vec![], vec![]);
        if !phases.is_empty() && r.chance(1, 2) {
            for _ in 0..r.range(1, 3) {
                let (k, i) = (r.below(3) as u8, r.below(4) as u8);
                if r.chance(2, 3) {
                    let c = &ops.bv[k as usize % ops.bv.len()];
                    let w = c[0].w;
                    change.push((k, i, if r.chance(1, 2) { r.pick(c).clone() } else { bv::gen(r, w, c) }));
                } else {
                    let c = &ops.arr[k as usize % ops.arr.len()];
                    let a = r.pick(c);
                    let i2 = a.stores.first().map_or_else(|| bv::gen(r, a.iw, &[]), |s| s.0.clone());
                    store.push((k, i, i2, bv::gen(r, a.default.w, &[a.default.clone()])));
                }
            }
        }
        phases.push(Phase {
            change,
            store,
            threads: (0..nt)
                .map(|_| {
                    (0..per)
                        .map(|_| {
                            let mut c = r.pick(&menu).clone();
                            if r.chance(1, 4) {
                                // the same operation on other operands
                                c.i = r.below(4) as u8;
                                c.j = r.below(4) as u8;
                                c.k = r.below(3) as u8;
                            }
                            if r.chance(1, 6) {
                                c.own = !c.own;
                            }
                            if r.chance(1, 6) {
                                c.n = r.next() >> r.below(60);
                            }
                            if fden > 0 && r.chance(1, fden) {
                                c.f = Some(r.below(4));
                            }
                            c
                        })
                        .collect()
                })
                .collect(),
            sched: if nt == 1 || r.chance(2, 3) {
                SchedSpec::Random { seed: r.next(), log2: *r.pick(&[1u32, 2, 3, 4, 5, 6, 8, 10]) }
            } else {
                let at = (0..r.range(1, 4)).map(|_| 1 + (r.next() >> (63 - r.range(3, 12)))).collect();
                let at_global = (0..r.below(4)).map(|_| 1 + r.below(20)).collect();
                SchedSpec::Stall { seed: r.next(), log2: *r.pick(&[3u32, 5, 8, 12, 30]), at, at_global }
            },
        });
    }
    Scn { hash: r.next() >> 16, fill: *r.pick(&[0u8, 0xa5, 0xff]), ops, phases }
}

// ---------------------------------------------------------------------------------------- operands

pub struct Shared {
    bv: Vec<Vec<Option<BitVecValue>>>,
    arr: Vec<Vec<Option<ArrayValue>>>,
    it: Option<ValueInterner>,
    texts: Vec<(u32, String)>,
    spec: Operands,
}

fn build_arr(s: &ArrSpec) -> Option<ArrayValue> {
    let iw = s.iw.min(300);
    let dense = s.dense && iw <= 12;
    if s.default.w == 0 {
        return None;
    }
    let mut a = if dense { ArrayValue::new_dense(iw, s.default.r()) } else { ArrayValue::new_sparse(iw, s.default.r()) };
    for (i, d) in &s.stores {
        a.store(i.fit(iw).r(), d.fit(s.default.w).r());
    }
    Some(a)
}

impl Shared {
    /// only what the call needs, or everything
    pub fn build(o: &Operands, only: Option<&Call>) -> Option<Shared> {
        let mut spec = o.clone();
        for c in spec.bv.iter_mut() {
            let w = c.first()?.w;
            if w == 0 {
                return None;
            }
            c.iter_mut().for_each(|v| *v = v.fit(w));
        }
        for c in spec.arr.iter_mut() {
            let (iw, dw) = c.first().map(|a| (a.iw, a.default.w))?;
            c.iter_mut().for_each(|a| {
                a.iw = iw;
                a.default = a.default.fit(dw);
            });
        }
        if spec.bv.is_empty() || spec.arr.is_empty() || spec.texts.is_empty() {
            return None;
        }
        let nb = spec.bv.len();
        let mut s = Shared {
            bv: spec.bv.iter().map(|c| c.iter().map(|_| None).collect()).collect(),
            arr: spec.arr.iter().map(|c| c.iter().map(|_| None).collect()).collect(),
            it: None,
            texts: spec.texts.clone(),
            spec: spec.clone(),
        };
        let want_it = only.map_or(true, |c| (40..=42).contains(&c.op));
        if want_it {
            let mut it = ValueInterner::new();
            for v in spec.interned.iter().filter(|v| v.w > 0) {
                it.get_index(v.r());
            }
            s.it = Some(it);
        }
        for (k, c) in spec.bv.iter().enumerate() {
            for (i, v) in c.iter().enumerate() {
                let used = only.map_or(true, |x| {
                    let kk = x.k as usize % nb;
                    let n = c.len();
                    (kk == k && (x.i as usize % n == i || x.j as usize % n == i)) || ((kk + 1) % nb == k && x.j as usize % n == i)
                });
                if used {
                    s.bv[k][i] = Some(v.own());
                }
            }
        }
        for (k, c) in spec.arr.iter().enumerate() {
            for (i, a) in c.iter().enumerate() {
                let used = only.map_or(true, |x| on_arrays(x.op) && x.k as usize % spec.arr.len() == k && (x.i as usize % c.len() == i || x.j as usize % c.len() == i));
                if used {
                    s.arr[k][i] = Some(build_arr(a)?);
                }
            }
        }
        Some(s)
    }
    /// The owner changes operands in place.
    fn change(&mut self, p: &Phase) -> u64 {
        let mut n = 0;
        for (k, i, v) in &p.change {
            let nb = self.bv.len();
            let c = &mut self.bv[*k as usize % nb];
            let nc = c.len();
            if let Some(Some(x)) = c.get_mut(*i as usize % nc.max(1)) {
                x.assign(v.fit(x.width()).r());
                n += 1;
            }
        }
        for (k, i, x, d) in &p.store {
            let na = self.arr.len();
            let c = &mut self.arr[*k as usize % na];
            let nc = c.len();
            if let Some(Some(a)) = c.get_mut(*i as usize % nc.max(1)) {
                a.store(x.fit(a.index_width()).r(), d.fit(a.data_width()).r());
                n += 1;
            }
        }
        n
    }
    fn digest(&self) -> u64 {
        let mut d = 0;
        for v in self.bv.iter().flatten().flatten() {
            d = fold(d, rd(v));
        }
        for a in self.arr.iter().flatten().flatten() {
            for k in 0..40u64 {
                d = fold(d, rd(&a.select(V::u(k, a.index_width()).r())));
            }
            d = fold(d, a.is_dense());
        }
        if let Some(it) = &self.it {
            d = fold(d, it.words());
        }
        d
    }
}

// -------------------------------------------------------------------------------------- operations

pub enum Out {
    Val(BitVecValue),
    Bits(u64),
    Text(String),
    Many(Vec<BitVecValue>),
    Bytes(Vec<u8>),
    Arr(ArrayValue),
    Pairs(BitVecValue, Vec<(BitVecValue, BitVecValue)>),
    Num(String),
    Err,
}

fn pick<T>(v: &[Option<T>], i: u8) -> &T {
    v[i as usize % v.len()].as_ref().unwrap()
}

fn sample(a: &ArrayValue, n: u64) -> Vec<BitVecValue> {
    (0..12u64).map(|k| a.select(V { w: a.index_width(), x: vec![if k < 8 { k } else { n.rotate_left(k as u32) }; bv::nwords(a.index_width())] }.canon().r())).collect()
}

/// A caller whose conversion of the argument uses the library itself.
struct Reenter<'a>(&'a BitVecValue, &'a BitVecValue);
impl<'a> From<Reenter<'a>> for BitVecValueRef<'a> {
    fn from(r: Reenter<'a>) -> Self {
        let mut a = ArrayValue::new_sparse(70, r.1);
        a.store(&BitVecValue::ones(70), &r.0.xor(r.1));
        let _ = a.select(&BitVecValue::zero(70));
        let _ = r.0.to_hex_str();
        let mut b = r.0.clone();
        b.assign(r.1);
        let _ = b.add(r.0);
        r.0.into()
    }
}

/// Values a thread uses again and again.
#[derive(Default)]
pub struct Own {
    bv: Vec<BitVecValue>,
    arr: Vec<ArrayValue>,
}

impl Own {
    fn new() -> Own {
        Own { bv: Vec::with_capacity(16), arr: Vec::with_capacity(16) }
    }
}

fn own_arr(o: &mut Own, slot: usize, v: &ArrayValue) {
    let a = v.clone();
    if o.arr.len() <= slot {
        o.arr.push(a);
    } else {
        o.arr[slot] = a;
    }
}

fn own(o: &mut Vec<BitVecValue>, slot: usize, v: &BitVecValue) -> usize {
    // one place for each width and role
    let k = o.iter().enumerate().position(|(k, x)| k % 2 == slot && x.width() == v.width());
    let k = k.unwrap_or_else(|| {
        let k = o.len() + (o.len() + slot) % 2;
        while o.len() <= k + 1 {
            o.push(BitVecValue::zero(v.width()));
        }
        k
    });
    o[k].assign(v);
    k
}

/// Runs one operation on the shared operands.
pub fn exec(s: &Shared, c: &Call, o: &mut Own) -> Out {
    let nb = s.bv.len();
    let cls = &s.bv[c.k as usize % nb];
    let (a, b) = (pick(cls, c.i), pick(cls, c.j));
    let (a, b) = if c.own {
        if on_arrays(c.op) {
            let v = &s.arr[c.k as usize % s.arr.len()];
            own_arr(o, 0, pick(v, c.i));
            own_arr(o, 1, pick(v, c.j));
        }
        let (x, y) = (own(&mut o.bv, 0, a), own(&mut o.bv, 1, b));
        (&o.bv[x], &o.bv[y])
    } else {
        (a, b)
    };
    // of another width, usually
    let other = pick(&s.bv[(c.k as usize % nb + 1) % nb], c.j);
    let w = a.width();
    let n = c.n;
    let flags = |l: &[bool]| Out::Bits(l.iter().fold(1, |x, b| x * 2 + *b as u64));
    let arrs = || &s.arr[c.k as usize % s.arr.len()];
    let (oa, mine) = (&o.arr, c.own);
    let arr = || if mine { &oa[0] } else { pick(arrs(), c.i) };
    let arr2 = || if mine { &oa[1] } else { pick(arrs(), c.j) };
    let index = |iw: u32| V { w: iw, x: vec![n; bv::nwords(iw)] }.canon();
    let data = |dw: u32| V { w: dw, x: vec![n.rotate_left(17) | 1; bv::nwords(dw)] }.canon();
    match c.op as u64 % NOPS {
        0 => Out::Val(a.add(b)),
        1 => Out::Val(a - b),
        2 => Out::Val(a.mul(b)),
        3 => Out::Val(if n & 1 == 0 { a.and(b) } else { a.or(b) }),
        4 => Out::Val(a.xor(b)),
        5 => Out::Val(a.shift_left(b)),
        6 => Out::Val(a.shift_right(b)),
        7 => Out::Val(a.arithmetic_shift_right(b)),
        8 => Out::Val(a.not()),
        9 => Out::Val(a.negate()),
        10 => Out::Val(a.concat(other)),
        11 => {
            let (x, y) = ((n % w as u64) as u32, (n / 7 % w as u64) as u32);
            Out::Val(a.slice(x.max(y), x.min(y)))
        }
        12 => Out::Val(if n & 1 == 0 { a.sign_extend(n as u32 % 200) } else { a.zero_extend(n as u32 % 200) }),
        13 => flags(&[a.is_equal(b), a.is_not_equal(b), a.is_greater(b), a.is_greater_or_equal(b), a.is_less(b), a.is_less_or_equal(b)]),
        14 => flags(&[a.is_greater_signed(b), a.is_greater_or_equal_signed(b), a.is_less_signed(b), a.is_less_or_equal_signed(b)]),
        15 => Out::Text(a.to_bit_str()),
        16 => Out::Text(if n & 1 == 0 { a.to_bit_str_signed() } else { a.to_hex_str_signed() }),
        17 => Out::Text(a.to_hex_str()),
        18 => Out::Text(a.to_dec_str()),
        19 => Out::Bytes(a.to_bytes_le()),
        20 => {
            let (x, y) = (a.to_big_int(), a.to_big_uint());
            let back = if n & 1 == 0 { BitVecValue::from_big_int(&x, w) } else { BitVecValue::from_big_uint(&y, w) };
            let _ = simrt::unarmed(|| (x.clone(), y.clone()));
            Out::Many(vec![back, BitVecValue::from(&y)])
        }
        21 => Out::Num(simrt::unarmed(|| format!("{:?} {:?} {:?} {} {} {}", a.to_u64(), a.to_i64(), a.to_bool(), a.is_zero(), a.is_tru(), a.is_negative()))),
        22 => Out::Num({
            let f = a.to_signed_fixed_point(n as u32 % w.min(60));
            simrt::unarmed(|| format!("{f:?}"))
        }),
        23 => {
            use std::hash::Hash;
            let mut h = crate::rep::Fnv(7);
            a.hash(&mut h);
            let mut g = crate::rep::Fnv(7);
            BitVecValueRef::from(a).hash(&mut g);
            Out::Bits(fold(h.0 ^ g.0.rotate_left(1), (a == b, a.cmp(b) as i8, a == other, BitVecValueRef::from(a) == BitVecValueRef::from(b))))
        }
        // arrays
        24 | 25 => Out::Val(arr().select(index(arr().index_width()).r())),
        26 | 27 => {
            let mut x = arr().clone();
            x.store(index(x.index_width()).r(), data(x.data_width()).r());
            x.store(index(x.index_width()).not().r(), data(x.data_width()).not().r());
            Out::Arr(x)
        }
        28 => {
            let mut x = arr().clone();
            x.clear();
            x.store(index(x.index_width()).r(), data(x.data_width()).r());
            Out::Arr(x)
        }
        29 | 30 => {
            let (x, y) = (arr(), arr2());
            Out::Bits(x.is_equal(y).map_or(2, |b| b as u64) * 2 + (x == y) as u64)
        }
        31 | 32 => {
            let mut x = arr().clone();
            if x.index_width() <= 12 {
                x.make_dense();
            }
            Out::Arr(x)
        }
        33 | 34 => {
            let x = SparseArrayValue::from(arr().clone());
            Out::Pairs(x.default(), x.non_default_entries().collect())
        }
        35 => {
            let v = Value::Array(arr().clone());
            Out::Arr(ArrayValue::try_from(v).unwrap())
        }
        36 => {
            let mut x = ArrayValue::new_sparse(n as u32 % 140, a);
            x.store(index(x.index_width()).r(), b);
            Out::Arr(x)
        }
        37 => {
            let mut x = ArrayValue::new_dense(n as u32 % 8, a);
            x.store(index(x.index_width()).r(), b);
            Out::Arr(x)
        }
        38 => Out::Arr(match n % 3 {
            0 => a.words().into(),
            1 => a.to_bytes_le().as_slice().into(),
            _ => (0..w.min(70)).map(|k| a.is_bit_set(k)).collect::<Vec<_>>().as_slice().into(),
        }),
        39 => {
            // the conversions of both arguments use the library while the operation is under way
            let mut x = ArrayValue::new_sparse(w, b);
            x.store(Reenter(a, b), Reenter(b, a));
            Out::Many(vec![x.select(a), x.select(Reenter(a, b)), x.select(b)])
        }
        // interning
        40 | 41 => {
            let mut it = s.it.as_ref().unwrap().clone();
            let i = it.get_index(a);
            let j = it.get_index(b);
            let i2 = it.get_index(a);
            let words = it.words();
            let r: (BitVecValueRef, BitVecValueRef) = words.get_ref((i, j));
            if i != i2 {
                return Out::Err;
            }
            Out::Many(vec![r.0.into(), r.1.into(), BitVecValue::from_u64(i.to_range().start as u64, 64), BitVecValue::from_u64(j.to_range().start as u64, 64)])
        }
        42 => {
            let mut it = ValueInterner::new();
            let i = it.get_index(a);
            let j = it.get_index(other);
            Out::Bits(fold(0, (i.to_range().start, j.to_range().start, it.words())))
        }
        // text and bytes
        43 | 44 => {
            let (radix, t) = &s.texts[n as usize % s.texts.len()];
            let r = if c.op == 43 { BitVecValue::from_str_radix(t, *radix, w) } else if *radix == 16 { BitVecValue::from_hex_str(t) } else { BitVecValue::from_bit_str(t) };
            match r {
                Ok(v) => Out::Val(v),
                Err(_) => Out::Err,
            }
        }
        45 => {
            let mut x = a.clone();
            let (radix, t) = &s.texts[n as usize % s.texts.len()];
            let e = x.assign_from_str_radix(t, *radix).is_err();
            Out::Many(vec![x, BitVecValue::from_bool(e)])
        }
        46 => {
            let mut x = BitVecValue::ones(w);
            x.assign(Reenter(a, b));
            x.set_bit((n % w as u64) as u32);
            x.clear_bit((n / 3 % w as u64) as u32);
            let y = BitVecValue::from_i64((n as i64) >> 40 << 63 >> 63 & 1, w);
            Out::Many(vec![x, y, BitVecValue::from_bytes_le(&b.to_bytes_le(), w)])
        }
        47 => {
            // views into a store of one's own
            let k = bv::nwords(w) as u32;
            let mut st: Vec<u64> = a.words().iter().chain(b.words()).copied().collect();
            st.extend(std::iter::repeat(n).take(k as usize));
            let (ia, ib, ic) = (BitVecValueIndex::new(0, w), BitVecValueIndex::new(k, w), BitVecValueIndex::new(2 * k, w));
            {
                let (mut m, x, y): (BitVecValueMutRef, BitVecValueRef, BitVecValueRef) = st.as_mut_slice().get_mut_ref((&ic, &ia, &ib));
                m.assign(&x.add(&y));
            }
            let x: BitVecValueRef = st.as_slice().get_ref(ic);
            Out::Val(x.into())
        }
        48 => {
            let b = bincode::serialize(a).unwrap();
            Out::Val(bincode::deserialize(&b).unwrap())
        }
        50 => {
            let x = bincode::serialize(arr()).unwrap();
            Out::Arr(bincode::deserialize(&x).unwrap())
        }
        51 | 52 => {
            // one's own sparse array, with a past
            let mut x = SparseArrayValue::from(arr().clone());
            let (iw, dw) = (x.index_width(), x.data_width());
            x.store(index(iw).r(), data(dw).r());
            x.store(index(iw).not().r(), data(dw).not().r());
            if c.op as u64 % NOPS == 51 {
                x.clear();
                x.store(index(iw).not().r(), data(dw).r());
                x.store(index(iw).r(), V::zero(dw).r());
            }
            Out::Pairs(x.default(), x.non_default_entries().collect())
        }
        53 => {
            let (x, y) = (Value::Array(arr().clone()), Value::Array(arr2().clone()));
            Out::Bits((x == y) as u64 + 2 * (y == x) as u64 + 4 * (x == Value::BitVec(a.clone())) as u64)
        }
        54 => {
            let mut x = a.clone();
            match n % 5 {
                0 => x.assign_ones(),
                1 => x.clear(),
                2 => x.assign_from_u64(n & if w < 64 { (1 << w) - 1 } else { u64::MAX }),
                3 => x.assign_from_i64(((n >> 3) as i64) << (64 - w.min(64)) >> (64 - w.min(64))),
                _ => x.assign(b),
            }
            Out::Val(x)
        }
        55 => {
            let x = a.to_big_int();
            let v = BitVecValue::from(&x);
            let f = a.to_unsigned_fixed_point(n as u32 % w.min(60));
            Out::Num(simrt::unarmed(|| format!("{x} {:?} {f:?}", rd(&v))))
        }
        // widths that do not match, or a panicking caller: an operation that fails
        _ => {
            let mut x = a.clone();
            if n & 1 == 0 {
                x.assign(Arg::Panics)
            } else {
                x.assign(other)
            }
            Out::Val(x)
        }
    }
}

fn digest_out(o: &Out, n: u64) -> u64 {
    match o {
        Out::Val(v) => fold(1, rd(v)),
        Out::Bits(b) => fold(2, b),
        Out::Text(t) => fold(3, t),
        Out::Many(l) => fold(4, l.iter().map(rd).collect::<Vec<_>>()),
        Out::Bytes(b) => fold(5, b),
        Out::Arr(a) => fold(6, (a.is_dense(), a.index_width(), a.data_width(), sample(a, n).iter().map(rd).collect::<Vec<_>>())),
        Out::Pairs(d, l) => {
            let mut l: Vec<(V, V)> = l.iter().map(|(i, d)| (rd(i), rd(d))).collect();
            l.sort();
            // which of several equally frequent elements becomes the default may depend on hash keys
            let d = rd(d);
            let iw = l.first().map_or(0, |x| x.0.w);
            if iw > 0 && iw <= 12 {
                let m: BTreeMap<V, V> = l.into_iter().collect();
                let all: Vec<V> = (0..1u64 << iw).map(|k| m.get(&V::u(k, iw)).unwrap_or(&d).clone()).collect();
                fold(7, all)
            } else {
                fold(8, (d, l))
            }
        }
        Out::Num(s) => fold(9, s),
        Out::Err => fold(10, 0),
    }
}

fn digest(o: &Outcome<Out>, n: u64) -> u64 {
    match o {
        Outcome::Done(x) => digest_out(x, n),
        Outcome::Panic(_) => 0xbad,
        Outcome::Callback => 0xca11,
        Outcome::Oom => 0x00a,
    }
}

/// The digest of the call in a process in which nothing ever happened.
fn pristine(o: &Operands, c: &Call) -> Result<u64, String> {
    let mut fds = [0i32; 2];
    unsafe {
        if libc::pipe(fds.as_mut_ptr()) != 0 {
            return Err("pipe".into());
        }
        let pid = libc::fork();
        if pid < 0 {
            return Err("fork".into());
        }
        if pid == 0 {
            libc::close(fds[0]);
            let d = match Shared::build(o, Some(c)) {
                None => libc::_exit(94),
                Some(s) => {
                    let (r, _) = simrt::call(Plan::default(), || exec(&s, c, &mut Own::default()));
                    digest(&r, c.n)
                }
            };
            let b = d.to_le_bytes();
            libc::write(fds[1], b.as_ptr() as *const _, 8);
            libc::_exit(0);
        }
        libc::close(fds[1]);
        let mut b = [0u8; 8];
        let n = libc::read(fds[0], b.as_mut_ptr() as *mut _, 8);
        libc::close(fds[0]);
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 {}
        if n == 8 && libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 0 {
            Ok(u64::from_le_bytes(b))
        } else if libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 94 {
            Err("operands".into())
        } else {
            Ok(fold(0xdead, st))
        }
    }
}

// ------------------------------------------------------------------------------ Send and Sync probes

struct Probe<T: ?Sized>(std::marker::PhantomData<T>);
trait Without {
    const SYNC: bool = false;
    const SEND: bool = false;
}
impl<T: ?Sized> Without for Probe<T> {}
struct ProbeSend<T: ?Sized>(std::marker::PhantomData<T>);
impl<T: ?Sized> Without for ProbeSend<T> {}
#[allow(dead_code)]
impl<T: ?Sized + Sync> Probe<T> {
    const SYNC: bool = true;
}
#[allow(dead_code)]
impl<T: ?Sized + Send> ProbeSend<T> {
    const SEND: bool = true;
}
macro_rules! probes {
    ($($t:ty),*) => { &[$((stringify!($t), <Probe<$t>>::SYNC, <ProbeSend<$t>>::SEND)),*] };
}
const THREAD_SAFE: &[(&str, bool, bool)] = probes!(
    BitVecValue,
    BitVecValueRef<'static>,
    BitVecValueMutRef<'static>,
    BitVecValueIndex,
    ArrayValue,
    SparseArrayValue,
    Value,
    ValueInterner
);

pub fn name(c: &Call) -> String {
    let n = [
        "add", "sub", "mul", "and/or", "xor", "shift_left", "shift_right", "arithmetic_shift_right", "not", "negate", "concat", "slice", "extend",
        "compare", "compare signed", "to_bit_str", "to_..._str_signed", "to_hex_str", "to_dec_str", "to_bytes_le", "big integers", "to_u64/i64", "fixed point",
        "eq/hash/cmp", "select", "select", "clone+store", "clone+store", "clone+clear+store", "array ==", "array ==", "clone+make_dense", "clone+make_dense",
        "to sparse+enumerate", "to sparse+enumerate", "Value", "new_sparse", "new_dense", "array from slice", "re-entrant store/select", "intern", "intern",
        "intern in a new table", "from_str_radix", "from_bit/hex_str", "assign_from_str_radix", "re-entrant assign", "views", "serde", "failing assign",
        "array serde", "sparse store/clear/enumerate", "sparse store/enumerate", "Value ==", "assign", "big and fixed point",
    ];
    n.get((c.op as u64 % NOPS) as usize).unwrap_or(&"?").to_string()
}

fn deadlock() {}

pub fn run(_prop: &str, scn: &Scn, rep: &mut Rep) {
    for (t, sync, send) in THREAD_SAFE {
        if !sync || !send {
            rep.fail(0, "not-thread-safe", format!("{t} is {}{}", if *sync { "" } else { "not Sync " }, if *send { "" } else { "not Send" }));
            return;
        }
    }
    // pristine results first: this process has not used the library yet
    let mut want: BTreeMap<(usize, Call), u64> = BTreeMap::new();
    simrt::set_fill(0x5a);
    // which operands the phase works on, and since which phase they have been the same
    let mut specs = vec![];
    let mut spec = scn.ops.clone();
    let mut since = 0;
    for (pn, p) in scn.phases.iter().enumerate() {
        if !p.change.is_empty() || !p.store.is_empty() {
            since = pn;
        }
        for (k, i, v) in &p.change {
            let nb = spec.bv.len();
            let Some(c) = spec.bv.get_mut(*k as usize % nb.max(1)) else { return };
            let (n, w) = (c.len(), c.first().map_or(1, |v| v.w));
            if n > 0 {
                c[*i as usize % n] = v.fit(w);
            }
        }
        for (k, i, x, d) in &p.store {
            let na = spec.arr.len();
            let Some(c) = spec.arr.get_mut(*k as usize % na.max(1)) else { return };
            let n = c.len();
            if n > 0 {
                c[*i as usize % n].stores.push((x.clone(), d.clone()));
            }
        }
        specs.push((since, spec.clone()));
        for c in p.threads.iter().flatten() {
            let key = Call { f: None, ..c.clone() };
            if !want.contains_key(&(since, key.clone())) {
                match pristine(&spec, &key) {
                    Ok(d) => want.insert((since, key), d),
                    Err(_) => return,
                };
            }
        }
    }
    rep.add("probe:operations run alone in a pristine process", want.len() as u64);
    simrt::set_fill(scn.fill);
    let Some(mut shared) = Shared::build(&scn.ops, None) else { return };
    let mut pinned = scn.clone();
    let mut kept: Vec<(Call, Outcome<Out>, u64)> = vec![];
    for (pn, ph) in scn.phases.iter().enumerate() {
        rep.add("probe:operands changed in place by their owner", shared.change(ph));
        let threads: Vec<&Vec<Call>> = ph.threads.iter().filter(|t| !t.is_empty()).take(simrt::sched::MAX_THREADS).collect();
        if threads.is_empty() {
            continue;
        }
        let since = specs[pn].0;
        let before = shared.digest();
        let mut logs: Vec<Vec<(Call, Outcome<Out>, bool, u64)>> = threads.iter().map(|t| Vec::with_capacity(t.len())).collect();
        let fill = scn.fill;
        let mode = match &ph.sched {
            SchedSpec::Random { seed, log2 } => simrt::sched::Mode::Random { seed: *seed, log2: *log2 },
            SchedSpec::Stall { seed, log2, at, at_global } => simrt::sched::Mode::Stall { seed: *seed, log2: *log2, at: at.clone(), at_global: at_global.clone() },
            SchedSpec::Explicit(l) => simrt::sched::Mode::Explicit(l.clone()),
        };
        let seeds: Vec<u64> = (0..threads.len() as u64).map(|t| simrt::rng::mix(scn.hash, t + 100 * pn as u64)).collect();
        let sh = &shared;
        let bodies: Vec<_> = threads
            .iter()
            .zip(logs.iter_mut())
            .map(|(calls, log)| {
                move |_t: usize| {
                    simrt::set_fill(fill);
                    let mut own = simrt::unarmed(|| Own::new());
                    for c in calls.iter() {
                        let (o, st) = simrt::call(Plan { fail_at: c.f, sticky: false }, || exec(sh, c, &mut own));
                        let d = digest(&o, c.n);
                        log.push((c.clone(), o, st.fired, d));
                    }
                }
            })
            .collect();
        let n = bodies.len();
        let res = simrt::sched::run(mode, &seeds, deadlock, bodies);
        rep.add("probe:pre-emption points", res.steps);
        rep.add("fault:pre-emption", res.switches.len() as u64);
        rep.add("probe:accesses to global memory", res.globals);
        rep.add("fault:blocked thread", res.blocked);
        if matches!(ph.sched, SchedSpec::Stall { .. }) {
            rep.fault("stalled thread");
        }
        rep.fired += (!res.switches.is_empty()) as u64;
        if n > 1 {
            rep.count("probe:concurrent phases");
        }
        rep.sig((pn, n, &res.switches));
        pinned.phases[pn].sched = SchedSpec::Explicit(res.switches);
        rep.pinned = serde_json::to_value(&pinned).ok();
        for (t, log) in logs.into_iter().enumerate() {
            for (k, (c, o, fired, d)) in log.into_iter().enumerate() {
                rep.ops += 1;
                rep.sig((c.op, o.kind()));
                rep.see(d);
                if fired {
                    rep.fault("allocation refused");
                }
                let key = Call { f: None, ..c.clone() };
                let w = want[&(since, key)];
                if matches!(o, Outcome::Oom) && fired {
                    continue;
                }
                match &o {
                    Outcome::Panic(_) => rep.fault("operation panics"),
                    Outcome::Callback => rep.fault("caller's conversion panics"),
                    _ => {}
                }
                if fired && matches!(o, Outcome::Panic(_)) {
                    continue;
                }
                if d != w {
                    let msg = format!(
                        "phase {pn}, thread {t} of {n}, call {k} ({} {c:?}): {} with digest {d:x}, in a pristine process {w:x}",
                        name(&c),
                        crate::arr::desc(&o)
                    );
                    rep.fail(k, "interference", msg);
                    return;
                }
                kept.push((c, o, d));
            }
        }
        if shared.digest() != before {
            return rep.fail(pn, "operand-changed", format!("a shared operand changed during phase {pn}"));
        }
        // results of earlier operations do not change, wherever they were made
        for (c, o, d) in &kept {
            if digest(o, c.n) != *d {
                return rep.fail(pn, "result-changed", format!("the result of {} {c:?} changed later", name(c)));
            }
        }
    }
}
