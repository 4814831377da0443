//! C07/C08: in-place updates of owned values and of views into one shared word store.
use crate::bv::{self, read_numeral, Numeral, V};
use crate::plan::*;
use crate::rep::Rep;
use baa::*;
use serde::{Deserialize, Serialize};
use simrt::rng::Rng;
use simrt::Outcome;

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Scn {
    pub hash: u64,
    pub fill: u8,
    /// words of the store
    pub words: u32,
    /// what they hold initially
    pub init: u64,
    /// (first word, width); entries that overlap earlier ones are ignored
    pub layout: Vec<(u32, u32)>,
    pub owned: Vec<V>,
    pub steps: Vec<Step>,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Step {
    /// client
    pub c: u8,
    pub op: Op,
    #[serde(default)]
    pub f: Fault,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Op {
    /// updates an owned value, through a view of it if `view`
    Own { k: usize, view: bool, u: Upd },
    /// updates a value in the store, while also borrowing others (0, 1 or 2 of them)
    View { k: usize, with: Vec<usize>, u: Upd },
    Read { k: usize, j: usize },
    /// asks for a mutable view of k together with a read-only view that overlaps it
    Overlap { k: usize, off: i32, width: u32, third: Option<usize>, swap: bool },
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Upd {
    Assign(V),
    /// from the n-th value borrowed along with it (same width only)
    FromView(usize),
    /// sum / exclusive or of the two borrowed values
    Sum(bool),
    U64(u64),
    I64(i64),
    Text(u32, String),
    Ones,
    Clear,
    SetBit(u32),
    ClearBit(u32),
    MaskMsb,
    /// a bit far outside
    BadBit(u32, bool),
    WrongWidth(V),
}

pub fn gen_text(r: &mut Rng, w: u32, v: &V) -> (u32, String) {
    let radix = if w <= 128 { *r.pick(&[2u32, 10, 16]) } else { *r.pick(&[2u32, 16]) };
    let mag = if v.neg_bit() && r.chance(1, 2) { (true, v.negate()) } else { (r.chance(1, 12), v.clone()) };
    let mut s = match radix {
        2 => mag.1.bits_str(),
        10 => mag.1.dec_str(),
        _ => mag.1.hex_str(),
    };
    if r.chance(1, 2) {
        // only the significant digits
        let t = s.trim_start_matches('0');
        s = if t.is_empty() { "0".to_string() } else { t.to_string() };
    }
    if radix == 16 && r.chance(1, 3) {
        s = s.to_uppercase();
    }
    match r.below(16) {
        0 => s = format!("+{s}"),
        1 => s = format!("000000000000000000000{s}"),
        2 => {
            // too big
            s = match radix {
                2 => format!("1{}", "0".repeat(w as usize)),
                10 => format!("{}{}", r.range(1, 9), V::ones(w).dec_str()),
                _ => format!("{}{}", "f", "0".repeat((w as usize).div_ceil(4))),
            }
        }
        3 => {
            // just too big, or just not
            let mut p = V::ones(w).fit(w + 2).add(&V::u(r.below(3), w + 2));
            if r.chance(1, 3) {
                p = p.add(&V::ones(w + 2))
            };
            s = match radix {
                2 => p.bits_str(),
                10 => p.dec_str(),
                _ => p.hex_str(),
            }
        }
        4 | 5 if !s.is_empty() => {
            // damaged
            let mut b: Vec<char> = s.chars().collect();
            let k = r.idx(b.len());
            b[k] = *r.pick(&['g', '_', ' ', '-', '+', 'x', '2', 'a', 'é', '.', '\0', '🦀', '\u{131}', '\u{230}', '\u{661}', '\u{ff11}', '\u{1d7ce}']);
            s = b.into_iter().collect();
        }
        6 => s = String::new(),
        7 => s = s[..r.idx(s.len() + 1)].to_string(),
        8 => s = format!("{s}{}", r.pick(&["", " ", "0", "\n", "z", "-"])),
        _ => {}
    }
    if mag.0 {
        s = format!("-{s}");
    }
    if r.chance(1, 40) {
        s = r.pick(&["-", "+", "+-1", "--1", "-+1", " 1", "0x1", "0b1", "1 ", "é"]).to_string();
    }
    (radix, s)
}

fn gen_upd(r: &mut Rng, w: u32, pool: &[V], nwith: usize, c07: bool) -> Upd {
    let v = bv::gen(r, w, pool);
    match r.below(if c07 { 24 } else { 20 }) {
        0..=2 => Upd::Assign(v),
        3 => Upd::U64(r.next() >> r.below(64)),
        4 => Upd::I64((r.next() >> r.below(64)) as i64 * if r.chance(1, 2) { -1 } else { 1 }),
        5 => Upd::U64(*r.pick(&[0, 1, 2, 7, u64::MAX, 1 << 63])),
        6 => Upd::I64(*r.pick(&[0, 1, -1, i64::MIN, i64::MAX, -2])),
        7..=11 => {
            let (radix, s) = gen_text(r, w, &v);
            Upd::Text(radix, s)
        }
        12 => Upd::Ones,
        13 => Upd::Clear,
        14 | 15 => Upd::SetBit(if r.chance(1, 4) { w - 1 } else { r.below(w as u64) as u32 }),
        16 | 17 => Upd::ClearBit(if r.chance(1, 4) { w - 1 } else { r.below(w as u64) as u32 }),
        18 => Upd::MaskMsb,
        19 => {
            let d = *r.pick(&[1u32, 63, 64, 65]);
            Upd::WrongWidth(bv::gen(r, w + d, pool))
        }
        20 | 21 if nwith > 0 => Upd::FromView(r.idx(nwith)),
        22 if nwith == 2 => Upd::Sum(r.chance(1, 2)),
        23 => Upd::BadBit(r.below(300) as u32, r.chance(1, 2)),
        _ => Upd::Ones,
    }
}

pub fn gen(prop: &str, r: &mut Rng, long: bool) -> Scn {
    let c07 = prop == "C07";
    let widths: Vec<u32> = (0..r.range(1, 3)).map(|_| bv::gen_width_big(r, 320)).collect();
    let nvals = if c07 { r.range(2, 8) } else { r.range(1, 3) };
    let mut at = r.below(3) as u32;
    let mut layout = vec![];
    // once in a while, the values are far apart
    let gap_at = if r.chance(1, 1000) { r.idx(nvals as usize) as u64 } else { u64::MAX };
    for k in 0..nvals {
        if k == gap_at {
            at += r.range(65_500, 66_000) as u32;
        }
        let w = *r.pick(&widths);
        layout.push((at, w));
        at += bv::nwords(w) as u32 + if r.chance(1, 4) { r.below(3) as u32 } else { 0 };
    }
    let words = at + r.below(2) as u32;
    let owned: Vec<V> = if c07 { vec![] } else { (0..r.range(1, 4)).map(|_| { let w = *r.pick(&widths); bv::gen(r, w, &[]) }).collect() };
    let mut pool: Vec<V> = widths.iter().map(|w| bv::gen(r, *w, &[])).collect();
    let fden = *r.pick(&[0u64, 3, 8]);
    let n = if long { r.range(20, 200) } else { r.range(3, 60) };
    let mut steps = vec![];
    for _ in 0..n {
        let op = if !c07 && r.chance(2, 3) {
            let k = r.idx(owned.len());
            Op::Own { k, view: r.chance(1, 3), u: gen_upd(r, owned[k].w, &pool, 0, false) }
        } else {
            let k = r.idx(layout.len());
            match r.below(if c07 { 10 } else { 7 }) {
                0 => Op::Read { k, j: r.idx(layout.len()) },
                8 | 9 => Op::Overlap {
                    k,
                    off: r.below(6) as i32 - 3,
                    width: if r.chance(1, 3) { layout[k].1 } else { bv::gen_width(r, 320) },
                    third: if r.chance(1, 2) { Some(r.idx(layout.len())) } else { None },
                    swap: r.chance(1, 2),
                },
                _ => {
                    let nw = r.below(3) as usize;
                    // prefer partners of the same width
                    let same: Vec<usize> = (0..layout.len()).filter(|j| layout[*j].1 == layout[k].1 && *j != k).collect();
                    let with = (0..nw).map(|_| if !same.is_empty() && r.chance(3, 4) { *r.pick(&same) } else { r.idx(layout.len()) }).collect();
                    Op::View { k, with, u: gen_upd(r, layout[k].1, &pool, nw, c07) }
                }
            }
        };
        if let Op::Own { u: Upd::Assign(v), .. } | Op::View { u: Upd::Assign(v), .. } = &op {
            if pool.len() < 12 {
                pool.push(v.clone())
            }
        }
        steps.push(Step { c: r.below(3) as u8, op, f: gen_fault(r, fden) });
    }
    Scn { hash: r.next() >> 16, fill: *r.pick(&[0, 0xa5, 0xff]), words, init: r.next(), layout, owned, steps }
}

struct World<'a> {
    prop: &'a str,
    idx: Vec<BitVecValueIndex>,
    store: Vec<u64>,
    /// what the store must hold
    want: Vec<u64>,
    owned: Vec<BitVecValue>,
    owned_want: Vec<V>,
    rep: &'a mut Rep,
    step: usize,
}

pub fn run(prop: &str, scn: &Scn, rep: &mut Rep) {
    simrt::set_fill(scn.fill);
    let words = (scn.words as usize).min(200_000);
    let mut store: Vec<u64> = (0..words as u64).map(|i| simrt::rng::mix(scn.init, i)).collect();
    let mut used = vec![false; words];
    let mut idx = vec![];
    for (at, w) in &scn.layout {
        let (a, n) = (*at as usize, bv::nwords(*w));
        if *w == 0 || a + n > words || used[a..a + n].iter().any(|u| *u) {
            continue;
        }
        used[a..a + n].iter_mut().for_each(|u| *u = true);
        let v = V { w: *w, x: store[a..a + n].to_vec() }.canon();
        store[a..a + n].copy_from_slice(&v.x);
        idx.push(BitVecValueIndex::new(*at, *w));
    }
    let owned_want: Vec<V> = scn.owned.iter().filter(|v| v.w > 0).cloned().collect();
    let owned = owned_want.iter().map(|v| v.own()).collect();
    let mut w = World { prop, idx, want: store.clone(), store, owned, owned_want, rep, step: 0 };
    for (n, s) in scn.steps.iter().enumerate() {
        w.step = n;
        w.exec(s);
        if w.rep.over() {
            return;
        }
    }
}

/// What an update must do to a value.
enum Expect {
    /// succeeds with this value
    Is(V),
    /// text: refused without effect
    Refused,
    /// text: this value, or refused without effect
    Maybe(V),
    /// the value itself is unspecified afterwards
    Any,
}

enum Got {
    Fine,
    Error,
}

fn expect(u: &Upd, cur: &V, with: &[V]) -> Option<Expect> {
    let w = cur.w;
    Some(Expect::Is(match u {
        Upd::Assign(v) => v.fit(w),
        Upd::FromView(n) => match with.get(*n) {
            Some(v) if v.w == w => v.clone(),
            _ => return None,
        },
        Upd::Sum(x) => match with {
            [a, b] if a.w == w && b.w == w => {
                if *x {
                    a.xor(b)
                } else {
                    a.add(b)
                }
            }
            _ => return None,
        },
        Upd::U64(x) => V::u(*x, w),
        Upd::I64(x) => sext(*x, w),
        Upd::Text(radix, s) => match read_numeral(s, *radix, w) {
            // (whether good text is accepted is for C11 to decide)
            Numeral::Exactly(v) | Numeral::Maybe(v) => return Some(Expect::Maybe(v)),
            Numeral::Refuse => return Some(Expect::Refused),
        },
        Upd::Ones => V::ones(w),
        Upd::Clear => V::zero(w),
        Upd::SetBit(p) | Upd::ClearBit(p) => {
            let mut v = cur.clone();
            v.set(p % w, matches!(u, Upd::SetBit(_)));
            v
        }
        Upd::MaskMsb => cur.clone(),
        Upd::BadBit(..) => return Some(Expect::Any),
        Upd::WrongWidth(v) => {
            if v.w == w || (bv::nwords(v.w) == bv::nwords(w) && !cfg!(debug_assertions)) {
                return None;
            }
            return Some(Expect::Any);
        }
    }))
}

/// the 64-bit number, cut to what fits into w bits and sign-extended
fn sext(x: i64, w: u32) -> V {
    let x = fit_i64(x, w);
    let fill = if x < 0 { u64::MAX } else { 0 };
    let mut v = V { w, x: vec![fill; bv::nwords(w)] };
    v.x[0] = x as u64;
    v.canon()
}
fn fit_i64(x: i64, w: u32) -> i64 {
    if w >= 64 {
        x
    } else {
        (x << (64 - w)) >> (64 - w)
    }
}

/// The update itself, on any kind of destination.
fn apply<D: BitVecMutOps>(d: &mut D, u: &Upd, with: &[BitVecValueRef], val: Option<&BitVecValue>, spoil: Spoil) -> Got {
    let w = d.width();
    match u {
        Upd::Assign(_) | Upd::WrongWidth(_) => d.assign(if spoil == Spoil::Panic { Arg::Panics } else { Arg::Own(val.unwrap()) }),
        Upd::FromView(n) => d.assign(if spoil == Spoil::Panic { Arg::Panics } else { Arg::Ref(with[*n]) }),
        Upd::Sum(true) => d.assign(&with[0].xor(&with[1])),
        Upd::Sum(false) => d.assign(&with[0].add(&with[1])),
        Upd::U64(x) => d.assign_from_u64(if w < 64 { x & ((1 << w) - 1) } else { *x }),
        Upd::I64(x) => d.assign_from_i64(fit_i64(*x, w)),
        Upd::Text(radix, s) => {
            if d.assign_from_str_radix(s, *radix).is_err() {
                return Got::Error;
            }
        }
        Upd::Ones => d.assign_ones(),
        Upd::Clear => d.clear(),
        Upd::SetBit(p) => d.set_bit(p % w),
        Upd::ClearBit(p) => d.clear_bit(p % w),
        Upd::MaskMsb => d.mask_msb(),
        Upd::BadBit(p, set) => {
            let p = w.div_ceil(64) * 64 + p;
            if *set {
                d.set_bit(p)
            } else {
                d.clear_bit(p)
            }
        }
    }
    Got::Fine
}

fn upd_name(u: &Upd) -> &'static str {
    match u {
        Upd::Assign(_) => "assign",
        Upd::FromView(_) => "assign from view",
        Upd::Sum(_) => "assign result",
        Upd::U64(_) => "assign_from_u64",
        Upd::I64(_) => "assign_from_i64",
        Upd::Text(..) => "assign_from_str_radix",
        Upd::Ones => "assign_ones",
        Upd::Clear => "clear",
        Upd::SetBit(_) => "set_bit",
        Upd::ClearBit(_) => "clear_bit",
        Upd::MaskMsb => "mask_msb",
        Upd::BadBit(..) => "bit outside",
        Upd::WrongWidth(_) => "assign wrong width",
    }
}

impl World<'_> {
    fn wrong(&mut self, class: &str, msg: String) {
        self.rep.fail(self.step, class, msg)
    }
    fn val(&self, k: usize) -> V {
        let i = &self.idx[k];
        V { w: i.width(), x: self.want[i.to_range()].to_vec() }
    }

    fn exec(&mut self, st: &Step) {
        match &st.op {
            Op::Own { k, view, u } => {
                if self.owned.is_empty() {
                    return;
                }
                self.update(st, Ok(k % self.owned.len()), *view, &[], u)
            }
            Op::View { k, with, u } => {
                if self.idx.is_empty() {
                    return;
                }
                let n = self.idx.len();
                let k = k % n;
                // partners must not overlap with the destination
                let with: Vec<usize> = with.iter().map(|j| j % n).filter(|j| *j != k).take(2).collect();
                self.update(st, Err(k), false, &with, u)
            }
            Op::Read { k, j } => {
                if self.idx.is_empty() {
                    return;
                }
                let n = self.idx.len();
                let (k, j) = (k % n, j % n);
                let (ik, ij) = (self.idx[k], self.idx[j]);
                let words: &[u64] = &self.store;
                let (o, _) = simrt::call(Default::default(), || {
                    let a: BitVecValueRef = words.get_ref(ik);
                    let (b, c): (BitVecValueRef, BitVecValueRef) = words.get_ref((ik, ij));
                    let own = |x: BitVecValueRef| (x.width(), x.words().to_vec());
                    (own(a), own(b), own(c))
                });
                self.rep.ops += 2;
                self.rep.sig(("read", k, j));
                let f = |v: V| (v.w, v.x);
                match o {
                    Outcome::Done(got) if got == (f(self.val(k)), f(self.val(k)), f(self.val(j))) => {}
                    Outcome::Done(got) => {
                        let msg = format!("views of values {k} and {j} show {got:x?}, expected {:?} and {:?}", self.val(k), self.val(j));
                        self.wrong("view", msg)
                    }
                    o => self.wrong("view", format!("view of value {k} or {j} failed: {}", crate::arr::desc(&o))),
                }
            }
            Op::Overlap { k, off, width, third, swap } => {
                if self.idx.is_empty() {
                    return;
                }
                let k = k % self.idx.len();
                let ik = self.idx[k];
                let rk = ik.to_range();
                let start = rk.start as i64 + *off as i64;
                let n = bv::nwords(*width) as i64;
                let overlaps = *width > 0 && start < rk.end as i64 && start + n > rk.start as i64 && start >= 0 && start + n <= self.store.len() as i64;
                if !overlaps {
                    return;
                }
                let bad = BitVecValueIndex::new(start as u32, *width);
                let other = third.map(|t| self.idx[t % self.idx.len()]);
                let words: &mut [u64] = &mut self.store;
                let (o, _) = simrt::call(Default::default(), || match other {
                    None => {
                        let (mut a, b): (BitVecValueMutRef, BitVecValueRef) = words.get_mut_ref((ik, bad));
                        let shown = b.words().len();
                        a.assign_ones();
                        shown
                    }
                    Some(t) => {
                        let p = if *swap { (ik, t, bad) } else { (ik, bad, t) };
                        let (mut a, b, _): (BitVecValueMutRef, BitVecValueRef, BitVecValueRef) = words.get_mut_ref(p);
                        let shown = b.words().len();
                        a.assign_ones();
                        shown
                    }
                });
                self.rep.ops += 1;
                self.rep.sig(("overlap", k, off, width, third.is_some(), swap));
                if let Outcome::Done(_) = o {
                    let msg = format!("a mutable view of words {rk:?} was handed out together with a read-only view of words {:?}", bad.to_range());
                    return self.wrong("overlap-granted", msg);
                }
                self.rep.fault("overlapping request");
                if self.store != self.want {
                    self.wrong("refusal-has-effect", format!("refusing overlapping views of words {rk:?} and {:?} changed the store", bad.to_range()));
                }
            }
        }
    }

    /// target: Ok = owned value, Err = value in the store
    fn update(&mut self, st: &Step, target: Result<usize, usize>, view: bool, with: &[usize], u: &Upd) {
        let cur = match target {
            Ok(k) => self.owned_want[k].clone(),
            Err(k) => self.val(k),
        };
        let partners: Vec<V> = with.iter().map(|j| self.val(*j)).collect();
        let Some(mut e) = expect(u, &cur, &partners) else { return };
        let val = match u {
            Upd::Assign(v) => Some(v.fit(cur.w).own()),
            Upd::WrongWidth(v) => Some(v.own()),
            _ => None,
        };
        let name = upd_name(u);
        let mut at = Attempts::new(st.f);
        let mut fired = false;
        while let Some(tr) = at.next(fired) {
            let idx = &self.idx;
            let (o, f, allocs) = match target {
                Ok(k) => {
                    let d = &mut self.owned[k];
                    go(None, tr.plan, || {
                        if view {
                            apply(&mut BitVecValueMutRef::from(d), u, &[], val.as_ref(), tr.arg1)
                        } else {
                            apply(d, u, &[], val.as_ref(), tr.arg1)
                        }
                    })
                }
                Err(k) => {
                    let words: &mut [u64] = &mut self.store;
                    go(None, tr.plan, || match with {
                        [] => {
                            let mut a: BitVecValueMutRef = words.get_mut_ref(idx[k]);
                            apply(&mut a, u, &[], val.as_ref(), tr.arg1)
                        }
                        [b] => {
                            let (mut a, b): (BitVecValueMutRef, BitVecValueRef) = words.get_mut_ref((idx[k], idx[*b]));
                            apply(&mut a, u, &[b], val.as_ref(), tr.arg1)
                        }
                        [b, c, ..] => {
                            let (mut a, b, c): (BitVecValueMutRef, BitVecValueRef, BitVecValueRef) = words.get_mut_ref((&idx[k], &idx[*b], &idx[*c]));
                            apply(&mut a, u, &[b, c], val.as_ref(), tr.arg1)
                        }
                    })
                }
            };
            fired = f;
            self.rep.ops += 1;
            self.rep.sig((name, cur.w, with.len(), o.kind(), allocs, tr.plan.fail_at));
            if f {
                self.rep.fault("allocation refused");
            }
            let now = match target {
                Ok(k) => bv::rd(&self.owned[k]),
                Err(k) => V { w: cur.w, x: self.store[self.idx[k].to_range()].to_vec() },
            };
            self.rep.see((&now, allocs));
            let on = match target {
                Ok(k) => format!("owned value {k}{}", if view { " (through a view)" } else { "" }),
                Err(k) => format!("value {k} in the store"),
            };
            let shown = match u {
                Upd::Text(r, s) => format!("{name}({s:?}, {r})"),
                _ => format!("{u:?}"),
            };
            let mut adopt = false;
            match o {
                Outcome::Done(g) => {
                    at.stop();
                    let good = match (&e, g) {
                        (Expect::Is(v), Got::Fine) => now == *v,
                        (Expect::Maybe(v), Got::Fine) => now == *v,
                        (Expect::Maybe(_) | Expect::Refused, Got::Error) => {
                            self.rep.fault("text refused");
                            now == cur
                        }
                        (Expect::Any, _) => {
                            adopt = true;
                            true
                        }
                        (Expect::Is(_), Got::Error) | (Expect::Refused, Got::Fine) => false,
                    };
                    if !good {
                        let class = match e {
                            Expect::Refused => "error-effect",
                            Expect::Maybe(_) => "text",
                            _ => "assigned",
                        };
                        let want = match &e {
                            Expect::Is(v) => format!("{v:?}"),
                            Expect::Maybe(v) => format!("{v:?} or an error and {cur:?}"),
                            _ => format!("an error and {cur:?}"),
                        };
                        let msg = format!("{shown} on {on}, which held {cur:?}: now {now:?}, expected {want}");
                        return self.wrong(class, msg);
                    }
                }
                o => {
                    adopt = true;
                    match (&e, &o) {
                        _ if !tr.clean => {
                            if tr.arg1 == Spoil::Panic {
                                self.rep.fault("caller's conversion panics");
                            }
                            // the retry must still produce exactly the value
                            if let Upd::SetBit(_) | Upd::ClearBit(_) | Upd::MaskMsb | Upd::Text(..) = u {
                                at.stop();
                            }
                        }
                        (Expect::Any, _) => self.rep.fault("misuse"),
                        _ => {
                            let msg = format!("{shown} on {on} failed: {}", crate::arr::desc(&o));
                            return self.wrong("op-fails", msg);
                        }
                    }
                }
            }
            let _ = adopt;
            match target {
                Ok(k) => {
                    if !now.is_canon() || now.w != cur.w {
                        if matches!(e, Expect::Any) || !tr.clean {
                            // unspecified: start afresh
                            self.owned[k] = V::zero(cur.w).own();
                            self.owned_want[k] = V::zero(cur.w);
                            return;
                        }
                    }
                    self.owned_want[k] = now.clone();
                    // other owned values
                    for j in 0..self.owned.len() {
                        let g = bv::rd(&self.owned[j]);
                        if g != self.owned_want[j] {
                            let msg = format!("{shown} on {on} changed owned value {j} from {:?} to {g:?}", self.owned_want[j]);
                            return self.wrong("neighbour", msg);
                        }
                    }
                }
                Err(k) => {
                    let r = self.idx[k].to_range();
                    self.want[r.clone()].copy_from_slice(&now.x);
                    if self.store != self.want {
                        let bad: Vec<usize> = (0..self.store.len()).filter(|j| self.store[*j] != self.want[*j]).collect();
                        let msg = format!("{shown} on {on} (words {r:?}) changed word(s) {bad:?} of the store");
                        return self.wrong("neighbour", msg);
                    }
                    if !now.is_canon() {
                        let z = now.clone().canon();
                        self.store[r.clone()].copy_from_slice(&z.x);
                        self.want[r].copy_from_slice(&z.x);
                    }
                }
            }
            if let (false, Upd::Text(..)) = (tr.clean, u) {
                return;
            }
            if !tr.clean {
                let c2 = match target {
                    Ok(k) => self.owned_want[k].clone(),
                    Err(k) => self.val(k),
                };
                match expect(u, &c2, &partners) {
                    Some(x) => e = x,
                    None => return,
                }
            }
            let _ = self.prop;
        }
    }
}
