//! C14: a register machine. Programs over values, views, array elements and interned constants run
//! next to the same program over naive integers modulo 2^width, through refused allocations,
//! retries, checkpoints, crashes and restarts.
use crate::bv::{self, rd, V};
use crate::plan::{gen_fault, go, Attempts, Fault};
use crate::rep::{fold, Rep};
use baa::*;
use serde::{Deserialize, Serialize};
use simrt::rng::Rng;
use simrt::{unarmed, Outcome};

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Scn {
    pub hash: u64,
    pub fill: u8,
    /// where each register lives and what it starts with
    pub regs: Vec<(Home, V)>,
    /// unused words between the registers in the shared store
    pub gap: u8,
    pub consts: Vec<V>,
    /// index width, default element
    pub arr: (u32, V),
    pub dense: bool,
    pub steps: Vec<Step>,
}
#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Home {
    Own,
    Store,
    Intern,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Step {
    pub op: u8,
    pub a: u8,
    pub b: u8,
    pub d: u8,
    pub n: u64,
    #[serde(default)]
    pub f: Fault,
}

/// no value of the run gets wider than this
static MAXW: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(700);
fn maxw() -> u32 {
    MAXW.load(std::sync::atomic::Ordering::Relaxed)
}
const PURE: u64 = 46;

pub fn gen(_p: &str, r: &mut Rng, long: bool) -> Scn {
    let far = r.chance(1, 300);
    // a few dozen words: long texts, long carries, buffers that are longer than usual
    let mid = !far && r.chance(1, 80);
    let widths: Vec<u32> = if far {
        // word indices and shift amounts beyond what small integers count
        vec![*r.pick(&[8_200u32, 16_500, 32_800, 65_600, 66_000, 70_000, 100_000, 131_200, 140_000])]
    } else if mid {
        (0..r.range(1, 2)).map(|_| *r.pick(&[640u32, 700, 1000, 1023, 1024, 1025, 1087, 1100, 1500, 2047, 2048, 2049, 2100])).collect()
    } else {
        (0..r.range(1, 3)).map(|_| bv::gen_width_big(r, 577)).collect()
    };
    let mut pool: Vec<V> = vec![];
    for _ in 0..r.range(3, 9) {
        let w = match r.below(10) {
            0 if !far => bv::gen_width(r, 577),
            1 => r.pick(&widths) + 1,
            _ => *r.pick(&widths),
        };
        let mut v = bv::gen(r, w, &pool);
        match r.below(6) {
            0 => v = v.not(),
            1 => v = v.negate(),
            2 => v = v.add(&V::u(1, w)),
            _ => {}
        }
        pool.push(v);
    }
    let nr = r.range(2, 7);
    let regs: Vec<(Home, V)> = (0..nr)
        .map(|_| {
            let h = *r.pick(&[Home::Own, Home::Own, Home::Store, Home::Store, Home::Intern]);
            let w = *r.pick(&widths);
            (h, r.pick(&pool).fit(w))
        })
        .collect();
    let iw = *r.pick(&[1u32, 2, 3, 5, 8, 33, 64, 65, 130]);
    let dw = *r.pick(&widths);
    let fden = *r.pick(&[0u64, 0, 4, 8]);
    let crash = *r.pick(&[0u64, 0, 12]);
    // most programs concentrate on a few operations
    let menu: Vec<u8> = if far {
        (0..4).map(|_| *r.pick(&[0u8, 2, 8, 10, 11, 12, 16, 16, 17, 17, 18, 18, 19, 20, 21, 23, 24, 25, 29, 38, 40])).collect()
    } else {
        (0..r.range(2, 10)).map(|_| r.below(PURE) as u8).collect()
    };
    let n = if far { r.range(3, 12) } else if mid { r.range(3, 20) } else if long { r.range(30, 300) } else { r.range(5, 60) };
    let span = nr + pool.len() as u64;
    let steps = (0..n)
        .map(|_| {
            let op = match r.below(20) {
                0..=6 => *r.pick(&menu),
                7..=13 if far => *r.pick(&menu),
                7..=13 => r.below(PURE) as u8,
                14..=16 => 50 + r.below(8) as u8,
                17 | 18 => 60 + r.below(5) as u8,
                _ if crash > 0 && r.chance(1, 2) => 70 + r.below(2) as u8,
                _ => 39,
            };
            let a = r.below(span) as u8;
            // the same operand twice is interesting
            let b = if r.chance(1, 8) { a } else { r.below(span) as u8 };
            let mut f = gen_fault(r, fden);
            if !matches!(f, Fault::None | Fault::Alloc(_) | Fault::Exhausted(_) | Fault::EveryAlloc) {
                f = Fault::None;
            }
            let n = if r.chance(1, 3) { gen_num(r, &widths) } else { r.next() >> r.below(64) };
            Step { op, a, b, d: r.below(nr) as u8, n, f }
        })
        .collect();
    Scn {
        hash: r.next() >> 16,
        fill: *r.pick(&[0u8, 0xa5, 0xff]),
        regs,
        gap: r.below(3) as u8,
        consts: pool,
        arr: (iw, bv::gen(r, dw, &[])),
        dense: iw <= 8 && r.chance(1, 2),
        steps,
    }
}

fn gen_num(r: &mut Rng, widths: &[u32]) -> u64 {
    let w = *r.pick(widths) as u64;
    match r.below(8) {
        0 => w,
        1 => w - 1,
        2 => w + 1,
        3 => 64 * r.below(10),
        4 => (64 * r.below(10)).wrapping_sub(1),
        5 => 64 * r.below(10) + 1,
        6 => w / 2,
        _ => r.below(70),
    }
}

// ----------------------------------------------------------------------------- reference operations

fn slice(a: &V, hi: u32, lo: u32) -> V {
    let mut o = V::zero(hi - lo + 1);
    for i in lo..=hi {
        if a.bit(i) {
            o.set(i - lo, true);
        }
    }
    o
}
fn concat(a: &V, b: &V) -> V {
    let mut o = b.fit(a.w + b.w);
    for i in 0..a.w {
        if a.bit(i) {
            o.set(i + b.w, true);
        }
    }
    o
}
fn sext(a: &V, w: u32) -> V {
    let mut o = a.fit(w);
    if a.neg_bit() {
        for i in a.w..w {
            o.set(i, true);
        }
    }
    o
}
fn shl(a: &V, by: &V) -> V {
    let mut o = V::zero(a.w);
    if by.significant_bits() <= 32 {
        for i in 0..a.w as u64 {
            let j = i + by.low();
            if a.bit(i as u32) && j < a.w as u64 {
                o.set(j as u32, true);
            }
        }
    }
    o
}
fn shr(a: &V, by: &V, fill: bool) -> V {
    let mut o = if fill { V::ones(a.w) } else { V::zero(a.w) };
    if by.significant_bits() <= 32 {
        for i in 0..a.w as u64 {
            let j = i + by.low();
            if j < a.w as u64 {
                o.set(i as u32, a.bit(j as u32));
            }
        }
    }
    o
}
fn mul(a: &V, b: &V) -> V {
    // one partial product per bit
    let mut o = V::zero(a.w);
    let mut sh = a.clone();
    for i in 0..a.w {
        if b.bit(i) {
            o = o.add(&sh);
        }
        sh = sh.add(&sh);
    }
    o
}
/// -1, 0, 1
fn cmp(a: &V, b: &V, signed: bool) -> i32 {
    for i in (0..a.w).rev() {
        let (x, y) = (a.bit(i), b.bit(i));
        if x != y {
            let top = signed && i == a.w - 1;
            return if x != top { 1 } else { -1 };
        }
    }
    0
}
fn signed_dec(a: &V) -> String {
    if a.neg_bit() {
        format!("-{}", a.negate().dec_str())
    } else {
        a.dec_str()
    }
}
/// two's complement number as i128 if it is small
fn as_i128(a: &V) -> Option<i128> {
    let m = if a.neg_bit() { a.negate() } else { a.clone() };
    if m.significant_bits() > 120 {
        return None;
    }
    let x = m.x.first().copied().unwrap_or(0) as i128 | (m.x.get(1).copied().unwrap_or(0) as i128) << 64;
    Some(if a.neg_bit() { -x } else { x })
}

// --------------------------------------------------------------------------- parameters of a step

fn bits_of(n: u64, w: u32) -> (u32, u32) {
    // positions that like word boundaries
    let pick = |k: u64| -> u32 {
        let p = match k % 7 {
            0 => 0,
            1 => w - 1,
            2 => 63,
            3 => 64,
            4 => (64 * (1 + k / 7 % 9)) as u32,
            5 => (64 * (1 + k / 7 % 9) - 1) as u32,
            _ => (k / 7 % w as u64) as u32,
        };
        p.min(w - 1)
    };
    let (x, y) = (pick(n), pick(n / 64));
    (x.max(y), x.min(y))
}
fn ext_by(n: u64, w: u32) -> u32 {
    let by = match n % 8 {
        0 => 0,
        1 => 1,
        2 => 63,
        3 => 64,
        4 => (64 - w % 64) % 64,
        5 => 128 - w % 64,
        6 if maxw() > 2000 => (n / 8 % (maxw() as u64 + 1 - w.min(maxw()) as u64)) as u32,
        _ => (n / 8 % 150) as u32,
    };
    by.min(maxw().saturating_sub(w))
}
fn amount(n: u64, w: u32) -> V {
    let k = match n % 5 {
        0 => n / 5 % 4,
        1 => 64 * (n / 5 % 11),
        2 => (w as u64 + n / 5 % 3).saturating_sub(1),
        3 => (64 * (n / 5 % 11)) ^ 1,
        _ => n / 5 % (w as u64 + 2),
    };
    V::u(k, w)
}

// ------------------------------------------------------------------------------ the real operations

type Real = (BitVecValue, String);

/// b at the width of a, using the library
fn adapt<B: BitVecOps>(b: &B, w: u32, signed: bool) -> BitVecValue {
    match b.width() {
        x if x >= w => b.slice(w - 1, 0),
        x if signed => b.sign_extend(w - x),
        x => b.zero_extend(w - x),
    }
}
fn adapt_m(b: &V, w: u32, signed: bool) -> V {
    if b.w < w && signed {
        sext(b, w)
    } else {
        b.fit(w)
    }
}
/// number of bits above a that come along in a concatenation
fn cut(a: u32, b: u32) -> u32 {
    if a + b > maxw() {
        64.min(b)
    } else {
        b
    }
}

fn text(f: impl FnOnce() -> String) -> String {
    unarmed(f)
}

fn real<A: BitVecOps, B: BitVecOps>(op: u8, a: &A, b: &B, n: u64) -> Real {
    let w = a.width();
    let sgn = n & 1 == 1;
    // operands of the same width are used as they are
    macro_rules! bin {
        ($m:ident) => {
            if b.width() == w {
                a.$m(b)
            } else {
                a.$m(&adapt(b, w, sgn))
            }
        };
    }
    let none = String::new;
    let side = |s: String| s;
    match op {
        0 | 1 => (bin!(add), none()),
        2 | 3 => (bin!(sub), none()),
        4 => {
            // sums of owned values through the operators
            let x = a.slice(w - 1, 0);
            let y = adapt(b, w, sgn);
            (if n & 2 == 0 { &x + &y } else { &x - &y }, none())
        }
        5 | 6 => {
            let k = w.min(64);
            let (x, y) = (a.slice(k - 1, 0), adapt(b, k, false));
            let p = if w <= 64 && b.width() == w { a.mul(b) } else { x.mul(&y) };
            (if w > k { p.zero_extend(w - k) } else { p }, none())
        }
        7 => (bin!(mul), none()),
        8 => (bin!(and), none()),
        9 => (bin!(or), none()),
        10 => (bin!(xor), none()),
        11 => (a.not(), none()),
        12 => (a.negate(), none()),
        13 => (bin!(shift_left), none()),
        14 => (bin!(shift_right), none()),
        15 => (bin!(arithmetic_shift_right), none()),
        16 => (a.shift_left(&adapt(&amount(n, w).r(), w, false)), none()),
        17 => (a.shift_right(&adapt(&amount(n, w).r(), w, false)), none()),
        18 => (a.arithmetic_shift_right(&adapt(&amount(n, w).r(), w, false)), none()),
        19 | 20 => {
            let (hi, lo) = bits_of(n, w);
            (a.slice(hi, lo), none())
        }
        21 | 22 => {
            let k = cut(w, b.width());
            if w + k > maxw() {
                (a.slice(w - 1, w / 2).concat(&b.slice(k - 1, 0)), none())
            } else if k == b.width() {
                (a.concat(b), none())
            } else {
                (a.concat(&b.slice(k - 1, 0)), none())
            }
        }
        23 => (a.zero_extend(ext_by(n, w)), none()),
        24 => (a.sign_extend(ext_by(n, w)), none()),
        25 | 26 => {
            let y = adapt(b, w, sgn);
            let f = |c: [bool; 10]| c.iter().fold(0u64, |x, b| x * 2 + *b as u64);
            macro_rules! all {
                ($y:expr) => {
                    f([
                        a.is_equal($y),
                        a.is_not_equal($y),
                        a.is_greater($y),
                        a.is_greater_or_equal($y),
                        a.is_less($y),
                        a.is_less_or_equal($y),
                        a.is_greater_signed($y),
                        a.is_greater_or_equal_signed($y),
                        a.is_less_signed($y),
                        a.is_less_or_equal_signed($y),
                    ])
                };
            }
            let c = if b.width() == w { all!(b) } else { all!(&y) };
            // the larger one stays
            let m = if a.is_greater(&y) { a.slice(w - 1, 0) } else { y };
            (m, text(|| format!("{c:010b}")))
        }
        27 => {
            let v = a.to_u64();
            (v.map_or_else(|| a.not(), |v| BitVecValue::from_u64(v, w)), text(|| format!("{v:?}")))
        }
        28 => {
            let v = a.to_i64();
            (v.map_or_else(|| a.not(), |v| BitVecValue::from_i64(v, w)), text(|| format!("{v:?}")))
        }
        29 => {
            let p = bits_of(n, w).0;
            let l = [a.is_tru(), a.is_fals(), a.is_zero(), a.is_negative(), a.is_bit_set(p)];
            let t = a.to_bool();
            let bit = if sgn { BitVecValue::from_bool(l[4]) } else if l[4] { BitVecValue::tru() } else { BitVecValue::fals() };
            let v = bit.concat(&BitVecValue::from(l[3]));
            (v, text(|| format!("{l:?} {t:?}")))
        }
        30 => {
            let x = a.to_big_int();
            let y = b.to_big_int();
            let s = text(|| format!("{x} {y}"));
            let z = if sgn { x + y } else { x - y };
            // into enough bits for the exact result
            let k = w.max(b.width()) + 1;
            (BitVecValue::from_big_int(&z, k).slice(w - 1, 0), side(s))
        }
        31 => {
            let x = a.to_big_uint();
            let y = b.to_big_uint();
            let s = text(|| format!("{x} {y}"));
            let z = x + y;
            let k = w.max(b.width()) + 1;
            (BitVecValue::from_big_uint(&z, k).slice(w - 1, 0), side(s))
        }
        32 => {
            // as many bits as the number needs
            let x = a.to_big_int();
            let v = BitVecValue::from(&x);
            // at most one bit more than the magnitude needs
            let s = text(|| format!("{} {}", v.to_big_int(), v.width() as u64 <= x.bits() + 1));
            (adapt(&v, w, true), s)
        }
        33 => {
            let x = a.to_big_uint();
            let v = BitVecValue::from(&x);
            let s = text(|| format!("{} {}", v.to_big_uint(), v.width()));
            (if v.width() == 0 { BitVecValue::zero(w) } else { adapt(&v, w, false) }, s)
        }
        34 | 35 => {
            let fw = fraction_bits(n, w);
            let f = if op == 34 { a.to_unsigned_fixed_point(fw) } else { a.to_signed_fixed_point(fw) };
            let s = text(|| match f {
                None => "none".into(),
                Some(f) => format!("{}{}/{}", if f.is_sign_negative() { "-" } else { "" }, f.numer().copied().unwrap_or(0), f.denom().copied().unwrap_or(0)),
            });
            (a.slice(w - 1, 0), s)
        }
        36 => {
            let t = match n % 4 {
                0 => a.to_bit_str(),
                1 => a.to_hex_str(),
                2 => a.to_bit_str_signed(),
                _ => a.to_hex_str_signed(),
            };
            let v = BitVecValue::from_str_radix(&t, if n & 1 == 0 { 2 } else { 16 }, w);
            (v.unwrap_or_else(|e| panic!("parsing {t}: {e:?}")), text(|| format!("{t} {}", t.starts_with('-'))))
        }
        37 => {
            let k = w.min(128);
            let t = a.slice(k - 1, 0).to_dec_str();
            let v = BitVecValue::from_str_radix(&t, 10, k);
            (v.unwrap_or_else(|e| panic!("parsing {t}: {e:?}")), text(|| t.clone()))
        }
        38 => {
            let t = a.to_bytes_le();
            (BitVecValue::from_bytes_le(&t, w), text(|| format!("{t:x?}")))
        }
        39 => (a.slice(w - 1, 0), none()),
        40 => {
            // bit by bit
            let mut v = if sgn { BitVecValue::ones(w) } else { BitVecValue::zero(w) };
            for i in 0..w {
                if a.is_bit_set(i) {
                    v.set_bit(i);
                } else {
                    v.clear_bit(i);
                }
            }
            (v, none())
        }
        41 => {
            let mut v = adapt(b, w, sgn);
            v.assign(&a.slice(w - 1, 0));
            (v, none())
        }
        42 => {
            // the value inside the enumeration of all kinds of values
            let v = Value::BitVec(a.slice(w - 1, 0));
            let c = v.clone();
            let e = v == c;
            let not_array = ArrayValue::try_from(c).is_err();
            (BitVecValue::try_from(v).unwrap(), text(|| format!("{e} {not_array}")))
        }
        43 => {
            // taken apart and put together again
            let k = bits_of(n, w).0;
            (if k == 0 { a.slice(w - 1, 0) } else { a.slice(w - 1, k).concat(&a.slice(k - 1, 0)) }, none())
        }
        44 => {
            // a multiply-accumulate step
            let k = w.min(64);
            let x = a.slice(k - 1, 0);
            let y = adapt(b, k, sgn);
            (x.mul(&y).add(&x).sub(&y), none())
        }
        _ => {
            // rotate
            let k = (n % w as u64) as u32;
            if k == 0 {
                (a.slice(w - 1, 0), none())
            } else {
                (a.slice(k - 1, 0).concat(&a.slice(w - 1, k)), none())
            }
        }
    }
}

fn fraction_bits(n: u64, w: u32) -> u32 {
    let k = match n % 4 {
        0 => n / 4 % 4,
        1 => w as u64,
        2 => 60 + n / 4 % 8,
        _ => n / 4,
    };
    (k % (w as u64 + 1)) as u32
}

/// The same on the reference; any of the observations is acceptable.
struct Want {
    v: V,
    side: Vec<String>,
}

fn model(op: u8, a: &V, b: &V, n: u64) -> Want {
    let w = a.w;
    let sgn = n & 1 == 1;
    let y = || adapt_m(b, w, sgn);
    let mut side = vec![String::new()];
    let v = match op {
        0 | 1 => a.add(&y()),
        2 | 3 => a.add(&y().negate()),
        4 => {
            if n & 2 == 0 {
                a.add(&y())
            } else {
                a.add(&y().negate())
            }
        }
        5 | 6 => {
            let k = w.min(64);
            mul(&a.fit(k), &b.fit(k)).fit(w)
        }
        7 => mul(a, &y()),
        8 | 9 | 10 => {
            let y = y();
            let f = |x: u64, y: u64| match op {
                8 => x & y,
                9 => x | y,
                _ => x ^ y,
            };
            V { w, x: a.x.iter().zip(&y.x).map(|(x, y)| f(*x, *y)).collect() }
        }
        11 => a.not(),
        12 => a.negate(),
        13 => shl(a, &y()),
        14 => shr(a, &y(), false),
        15 => shr(a, &y(), a.neg_bit()),
        16 => shl(a, &amount(n, w)),
        17 => shr(a, &amount(n, w), false),
        18 => shr(a, &amount(n, w), a.neg_bit()),
        19 | 20 => {
            let (hi, lo) = bits_of(n, w);
            slice(a, hi, lo)
        }
        21 | 22 => {
            let k = cut(w, b.w);
            if w + k > maxw() {
                concat(&slice(a, w - 1, w / 2), &b.fit(k))
            } else {
                concat(a, &b.fit(k))
            }
        }
        23 => a.fit(w + ext_by(n, w)),
        24 => sext(a, w + ext_by(n, w)),
        25 | 26 => {
            let y = y();
            let (u, s) = (cmp(a, &y, false), cmp(a, &y, true));
            let l = [u == 0, u != 0, u > 0, u >= 0, u < 0, u <= 0, s > 0, s >= 0, s < 0, s <= 0];
            side = vec![l.iter().map(|b| if *b { '1' } else { '0' }).collect()];
            if u > 0 {
                a.clone()
            } else {
                y
            }
        }
        27 => {
            let v = if a.significant_bits() <= 64 { Some(a.low()) } else { None };
            side = vec![format!("{v:?}")];
            if v.is_some() {
                a.clone()
            } else {
                a.not()
            }
        }
        28 => {
            let v = as_i128(a).and_then(|v| i64::try_from(v).ok());
            side = vec![format!("{v:?}")];
            if v.is_some() {
                a.clone()
            } else {
                a.not()
            }
        }
        29 => {
            let p = a.bit(bits_of(n, w).0);
            let one = w == 1;
            let l = [one && a.bit(0), one && !a.bit(0), a.is_zero(), a.neg_bit(), p];
            let t = if one { Some(a.bit(0)) } else { None };
            side = vec![format!("{l:?} {t:?}")];
            V::u(p as u64 * 2 + a.neg_bit() as u64, 2)
        }
        30 => {
            side = vec![format!("{} {}", signed_dec(a), signed_dec(b))];
            let y = adapt_m(b, w, true);
            a.add(&if sgn { y } else { y.negate() })
        }
        31 => {
            side = vec![format!("{} {}", a.dec_str(), b.dec_str())];
            a.add(&b.fit(w))
        }
        32 => {
            side = vec![format!("{} true", signed_dec(a))];
            a.clone()
        }
        33 => {
            side = vec![format!("{} {}", a.dec_str(), a.significant_bits())];
            a.clone()
        }
        34 | 35 => {
            side = fixed_point(a, fraction_bits(n, w), op == 35);
            a.clone()
        }
        36 => {
            let neg = n % 4 >= 2 && a.neg_bit();
            let m = if neg { a.negate() } else { a.clone() };
            let sg = if neg { "-" } else { "" };
            // leading zeros are not prescribed for signed text
            let digits = if n & 1 == 0 { m.bits_str() } else { m.hex_str() };
            if n % 4 < 2 {
                side = vec![format!("{digits} {neg}")];
            } else {
                let core = digits.trim_start_matches('0');
                side = (0..=digits.len() - core.len()).map(|z| format!("{sg}{}{core} {neg}", "0".repeat(z))).collect();
            }
            a.clone()
        }
        37 => {
            let v = a.fit(w.min(128));
            side = vec![v.dec_str()];
            v
        }
        38 => {
            let n = (w as usize).div_ceil(8);
            let t: Vec<u8> = (0..n).map(|i| (a.x[i / 8] >> (8 * (i % 8))) as u8).collect();
            side = vec![format!("{t:x?}")];
            a.clone()
        }
        39 | 40 | 41 => a.clone(),
        42 => {
            side = vec!["true true".into()];
            a.clone()
        }
        43 => a.clone(),
        44 => {
            let k = w.min(64);
            let x = a.fit(k);
            let y = adapt_m(b, k, sgn);
            mul(&x, &y).add(&x).add(&y.negate())
        }
        _ => {
            let k = (n % w as u64) as u32;
            if k == 0 {
                a.clone()
            } else {
                concat(&slice(a, k - 1, 0), &slice(a, w - 1, k))
            }
        }
    };
    Want { v, side }
}

/// Acceptable answers of the fixed-point conversion.
fn fixed_point(a: &V, fw: u32, signed: bool) -> Vec<String> {
    let neg = signed && a.neg_bit();
    let m = if neg { a.negate() } else { a.clone() };
    let sg = if neg { "-" } else { "" };
    // exact, reduced
    let mut out = vec![];
    let tz = (0..m.w).find(|i| m.bit(*i));
    let exact = match tz {
        None => Some(("".to_string(), 0u64, 1u64)),
        Some(tz) => {
            let k = tz.min(fw);
            let num = shr(&m, &V::u(k as u64, 64).fit(m.w.max(64)), false);
            let den = fw - k;
            if num.significant_bits() <= 64 && den < 64 {
                Some((sg.to_string(), num.low(), 1u64 << den))
            } else {
                None
            }
        }
    };
    if let Some((s, n, d)) = &exact {
        out.push(format!("{s}{n}/{d}"));
    }
    // "if it can be represented": numbers of up to 64 bits with a denominator of up to 64 bits
    let must = m.significant_bits() <= 64 && fw < 64 && !(neg && a.w > 64);
    if !must || exact.is_none() {
        out.push("none".into());
    }
    out
}

// ------------------------------------------------------------------------------------- the machine

struct Machine {
    home: Vec<Home>,
    own: Vec<BitVecValue>,
    idx: Vec<BitVecValueIndex>,
    store: Vec<u64>,
    it: ValueInterner,
    arr: ArrayValue,
}

enum Src<'a> {
    Own(&'a BitVecValue),
    View(BitVecValueRef<'a>),
}

const GUARD: u64 = 0x5a5a_1234_dead_beef;

impl Machine {
    fn new(scn: &Scn, vals: &[V], arr: ArrayValue) -> Machine {
        let mut m = Machine { home: vec![], own: vec![], idx: vec![], store: vec![GUARD; scn.gap as usize], it: ValueInterner::new(), arr };
        for ((h, _), v) in scn.regs.iter().zip(vals) {
            m.home.push(*h);
            m.own.push(match h {
                Home::Own => v.own(),
                _ => BitVecValue::zero(1),
            });
            m.idx.push(match h {
                Home::Intern => m.it.get_index(v.r()),
                Home::Store => {
                    let i = BitVecValueIndex::new(m.store.len() as u32, v.w);
                    m.store.extend(vec![0x7777u64; v.x.len()]);
                    m.store.extend(vec![GUARD; scn.gap as usize]);
                    m.store.as_mut_slice().get_mut_ref(i).assign(v.r());
                    i
                }
                Home::Own => BitVecValueIndex::new(0, 1),
            });
        }
        m
    }
    fn src(&self, i: usize) -> Src<'_> {
        match self.home[i] {
            Home::Own => Src::Own(&self.own[i]),
            Home::Store => Src::View(self.store.as_slice().get_ref(self.idx[i])),
            Home::Intern => Src::View(self.it.words().get_ref(self.idx[i])),
        }
    }
    fn peek(&self, i: usize) -> V {
        match self.src(i) {
            Src::Own(o) => rd(o),
            Src::View(v) => rd(&v),
        }
    }
    fn write(&mut self, d: usize, v: BitVecValue) {
        match self.home[d] {
            Home::Own => self.own[d] = v,
            Home::Store => self.store.as_mut_slice().get_mut_ref(self.idx[d]).assign(&v),
            Home::Intern => self.idx[d] = self.it.get_index(&v),
        }
    }
}

fn with2(m: &Machine, consts: &[V], op: u8, a: usize, b: usize, n: u64) -> Real {
    let get = |i: usize| if i < m.home.len() { m.src(i) } else { Src::View(consts[(i - m.home.len()) % consts.len()].r()) };
    match (get(a), get(b)) {
        (Src::Own(a), Src::Own(b)) => real(op, a, b, n),
        (Src::Own(a), Src::View(b)) => real(op, a, &b, n),
        (Src::View(a), Src::Own(b)) => real(op, &a, b, n),
        (Src::View(a), Src::View(b)) => real(op, &a, &b, n),
    }
}

struct World<'a> {
    scn: &'a Scn,
    m: Machine,
    want: Vec<V>,
    arr: std::collections::BTreeMap<V, V>,
    /// what the last checkpoint put on disk, and what it stood for
    disk: (Vec<(u8, Vec<u8>)>, Vec<u8>, Vec<V>, std::collections::BTreeMap<V, V>),
    h: Option<u64>,
    rep: &'a mut Rep,
    step: usize,
}

pub fn run(_p: &str, scn: &Scn, rep: &mut Rep) {
    simrt::set_fill(scn.fill);
    let mut scn = scn.clone();
    let widest = scn.regs.iter().map(|r| r.1.w).chain(scn.consts.iter().map(|c| c.w)).max().unwrap_or(1);
    MAXW.store((widest + if widest > 8000 { 1500 } else { 150 }).clamp(700, 150_000), std::sync::atomic::Ordering::Relaxed);
    scn.regs.retain(|(_, v)| v.w > 0 && v.w <= maxw());
    scn.consts.retain(|v| v.w > 0 && v.w <= maxw());
    scn.regs.truncate(12);
    scn.gap = scn.gap.min(8);
    scn.arr.0 = scn.arr.0.clamp(1, 200);
    if scn.regs.is_empty() || scn.consts.is_empty() || scn.arr.1.w == 0 || scn.arr.1.w > maxw() {
        return;
    }
    let scn = &scn;
    let want: Vec<V> = scn.regs.iter().map(|r| r.1.clone()).collect();
    let (o, _, _) = go(None, Default::default(), || {
        let a = if scn.dense && scn.arr.0 <= 8 { ArrayValue::new_dense(scn.arr.0, scn.arr.1.r()) } else { ArrayValue::new_sparse(scn.arr.0, scn.arr.1.r()) };
        Machine::new(scn, &want, a)
    });
    let m = match o {
        Outcome::Done(m) => m,
        o => return rep.fail(0, "op-fails", format!("setting up the registers: {}", crate::arr::desc(&o))),
    };
    let mut w = World { scn, m, want, arr: Default::default(), disk: Default::default(), h: None, rep, step: 0 };
    w.checkpoint(0);
    w.check("the initial values");
    for (n, s) in scn.steps.iter().enumerate() {
        if w.rep.over() {
            return;
        }
        w.step = n;
        w.exec(s);
        w.check(&format!("step {n} ({})", name(s.op)));
    }
}

fn name(op: u8) -> &'static str {
    match op {
        0 | 1 => "add",
        2 | 3 => "sub",
        4 => "+ or -",
        5 | 6 => "mul",
        7 => "mul at full width",
        8 => "and",
        9 => "or",
        10 => "xor",
        11 => "not",
        12 => "negate",
        13 | 16 => "shift_left",
        14 | 17 => "shift_right",
        15 | 18 => "arithmetic_shift_right",
        19 | 20 => "slice",
        21 | 22 => "concat",
        23 => "zero_extend",
        24 => "sign_extend",
        25 | 26 => "comparisons (eq ne gt ge lt le, signed gt ge lt le)",
        27 => "to_u64/from_u64",
        28 => "to_i64/from_i64",
        29 => "to_bool, is_*",
        30 => "big integers",
        31 => "big unsigned integers",
        32 => "from a big integer at its own width",
        33 => "from a big unsigned integer at its own width",
        34 => "to_unsigned_fixed_point",
        35 => "to_signed_fixed_point",
        36 => "text and back",
        37 => "decimal text and back",
        38 => "bytes and back",
        39 => "copy",
        40 => "set_bit/clear_bit",
        41 => "assign",
        42 => "Value",
        43 => "slices put together",
        44 => "multiply, add, subtract",
        45 => "rotation by slice and concat",
        50 => "set_bit in place",
        51 => "clear_bit in place",
        52 => "assign_from_u64",
        53 => "assign_from_i64",
        54 => "assign_from_str_radix",
        55 => "assign between registers",
        56 => "clear in place",
        57 => "assign_ones",
        60 | 61 => "array store",
        62 | 63 => "array select",
        64 => "array conversion",
        70 => "checkpoint",
        71 => "crash and restart",
        _ => "?",
    }
}

impl World<'_> {
    fn wrong(&mut self, class: &str, msg: String) {
        self.rep.fail(self.step, class, msg)
    }
    fn val(&self, i: usize) -> V {
        let n = self.want.len();
        if i < n {
            self.want[i].clone()
        } else {
            self.scn.consts[(i - n) % self.scn.consts.len()].clone()
        }
    }

    /// All registers, the words around them and nothing else.
    fn check(&mut self, after: &str) {
        if self.rep.over() {
            return;
        }
        for i in 0..self.want.len() {
            let got = self.m.peek(i);
            self.rep.see(&got);
            if got != self.want[i] {
                let h = self.m.home[i];
                let msg = format!("after {after}, register {i} ({h:?}) holds {got:?}, the program over integers has {:?}", self.want[i]);
                return self.wrong("state", msg);
            }
        }
        let used: usize = (0..self.want.len()).filter(|i| self.m.home[*i] == Home::Store).map(|i| self.want[i].x.len()).sum();
        let guards = self.m.store.iter().filter(|w| **w == GUARD).count();
        if guards < self.m.store.len() - used {
            let msg = format!("after {after}, a word of the store that belongs to no register was changed");
            self.wrong("state", msg);
        }
    }

    fn exec(&mut self, st: &Step) {
        let nr = self.want.len();
        let span = nr + self.scn.consts.len();
        let (a, b, d) = (st.a as usize % span, st.b as usize % span, st.d as usize % nr);
        let (va, vb) = (self.val(a), self.val(b));
        let n = st.n;
        self.rep.sig((st.op, va.w, vb.w, self.m.home[d]));
        match st.op {
            70 => return self.checkpoint(n),
            71 => return self.restart(n),
            _ => {}
        }
        let what = name(st.op);
        let mut at = Attempts::new(match st.f {
            f @ (Fault::Alloc(_) | Fault::Exhausted(_) | Fault::EveryAlloc) => f,
            _ => Fault::None,
        });
        let mut fired = false;
        // the computation, then writing the result
        let mut result: Option<(BitVecValue, V)> = None;
        while let Some(t) = at.next(fired) {
            let (o, f, allocs) = self.compute(st, t.plan, a, b, d);
            fired = f;
            self.rep.ops += 1;
            self.rep.sig((o.kind(), f));
            self.rep.see(allocs);
            match o {
                Outcome::Done(Step2::Value(v, side)) => {
                    let want = model(st.op, &va, &vb, n);
                    let got = rd(&v);
                    if !want.side.contains(&side) {
                        let msg = format!("{what} of {va:?} and {vb:?} (parameter {n}) observes {side}, expected {}", want.side.join(" or "));
                        return self.wrong("result", msg);
                    }
                    if got != want.v {
                        let msg = format!("{what} of {va:?} and {vb:?} (parameter {n}) gives {got:?}, expected {:?}", want.v);
                        return self.wrong("result", msg);
                    }
                    result = Some((v, want.v));
                    break;
                }
                Outcome::Done(Step2::Element(v)) => {
                    let i = va.fit(self.scn.arr.0);
                    let want = self.arr.get(&i).unwrap_or(&self.scn.arr.1).clone();
                    let got = rd(&v);
                    if got != want {
                        let msg = format!("element {i:?} of the array is {got:?}, expected {want:?}");
                        return self.wrong("result", msg);
                    }
                    result = Some((v, want));
                    break;
                }
                Outcome::Done(Step2::InPlace) => {
                    if self.in_place_model(st, d, &va, &vb) {
                        self.check(what);
                    }
                    break;
                }
                Outcome::Done(Step2::Nothing) => return,
                Outcome::Panic(m) if m.starts_with("not yet implemented") && st.op == 7 && va.w > 64 => {
                    self.rep.count("probe:multiplication above 64 bits is not implemented");
                    return;
                }
                o if f => {
                    self.rep.fault("allocation refused");
                    let _ = o;
                    self.check(&format!("a failed attempt of {what}"));
                    if self.rep.over() {
                        return;
                    }
                }
                o => {
                    let msg = format!("{what} of {va:?} and {vb:?} (parameter {n}): {}", crate::arr::desc(&o));
                    return self.wrong("op-fails", msg);
                }
            }
        }
        let Some((v, want)) = result else { return };
        self.write_back(st, d, v, want);
    }

    fn compute(&mut self, st: &Step, plan: simrt::Plan, a: usize, b: usize, d: usize) -> (Outcome<Step2>, bool, u64) {
        let consts = &self.scn.consts;
        let n = st.n;
        let dw = self.want[d].w;
        let (iw, ew) = (self.scn.arr.0, self.scn.arr.1.w);
        let (va, vb) = (self.val(a), self.val(b));
        let m = &mut self.m;
        let fits = va.significant_bits() <= dw;
        let text = if fits { va.fit(dw).hex_str() } else { va.hex_str() };
        go(self.h, plan, || match st.op {
            op @ 0..=45 => {
                let (v, s) = with2(m, consts, op, a, b, n);
                Step2::Value(v, s)
            }
            op @ 50..=57 => {
                if m.home[d] == Home::Intern {
                    return Step2::Nothing;
                }
                fn upd<D: BitVecMutOps>(t: &mut D, op: u8, dw: u32, n: u64, va: &V, text: &str, fits: bool) -> Step2 {
                    let k = (n % dw as u64) as u32;
                    match op {
                        50 => t.set_bit(k),
                        51 => t.clear_bit(k),
                        52 => t.assign_from_u64(V::u(n, dw).low()),
                        53 => t.assign_from_i64(small_i64(n, dw)),
                        54 => {
                            let r = t.assign_from_str_radix(text, 16);
                            if r.is_ok() != fits {
                                panic!("assign_from_str_radix({text}) at width {dw}: {r:?}");
                            }
                            if !fits {
                                return Step2::Nothing;
                            }
                        }
                        55 => {
                            if va.w == dw {
                                t.assign(va.r())
                            } else {
                                t.assign(&adapt(&va.r(), dw, n & 1 == 1))
                            }
                        }
                        56 => t.clear(),
                        _ => t.assign_ones(),
                    }
                    Step2::InPlace
                }
                if m.home[d] == Home::Own {
                    upd(&mut m.own[d], op, dw, n, &va, &text, fits)
                } else {
                    let i = m.idx[d];
                    upd(&mut m.store.as_mut_slice().get_mut_ref(i), op, dw, n, &va, &text, fits)
                }
            }
            60 | 61 => {
                // (index and data adapted by the library)
                let i = adapt(&va.r(), iw, false);
                let x = adapt(&vb.r(), ew, false);
                m.arr.store(&i, &x);
                Step2::InPlace
            }
            62 | 63 => Step2::Element(m.arr.select(&adapt(&va.r(), iw, false))),
            64 => {
                if iw <= 8 && n & 1 == 0 {
                    m.arr.make_dense();
                } else {
                    let c = m.arr.clone();
                    let same = c == m.arr;
                    if !same {
                        panic!("an array differs from its clone");
                    }
                    m.arr = c;
                }
                Step2::InPlace
            }
            _ => Step2::Nothing,
        })
    }

    /// The effect of an in-place operation on the reference.
    fn in_place_model(&mut self, st: &Step, d: usize, va: &V, vb: &V) -> bool {
        let dw = self.want[d].w;
        let n = st.n;
        let (iw, ew) = (self.scn.arr.0, self.scn.arr.1.w);
        let k = (n % dw as u64) as u32;
        let t = &mut self.want[d];
        match st.op {
            50 => t.set(k, true),
            51 => t.set(k, false),
            52 => *t = V::u(n, dw),
            53 => *t = sext(&V::u(small_i64(n, dw) as u64, 64), dw.max(64)).fit(dw),
            54 => *t = va.fit(dw),
            55 => *t = adapt_m(va, dw, n & 1 == 1),
            56 => *t = V::zero(dw),
            57 => *t = V::ones(dw),
            60 | 61 => {
                self.arr.insert(va.fit(iw), vb.fit(ew));
            }
            _ => {}
        }
        true
    }

    /// Stores the result in its register; registers in the shared store keep their width.
    fn write_back(&mut self, st: &Step, d: usize, v: BitVecValue, want: V) {
        let fixed = self.m.home[d] == Home::Store;
        let dw = if fixed { self.want[d].w } else { want.w };
        let sgn = st.n & 4 == 4;
        let want = adapt_m(&want, dw, sgn);
        let mut at = Attempts::new(match st.f {
            f @ (Fault::Alloc(_) | Fault::Exhausted(_) | Fault::EveryAlloc) => f,
            _ => Fault::None,
        });
        let mut fired = false;
        while let Some(t) = at.next(fired) {
            let m = &mut self.m;
            let v = &v;
            let (o, f, _) = go(self.h, t.plan, || {
                let x = if v.width() == dw { v.clone() } else { adapt(v, dw, sgn) };
                m.write(d, x);
            });
            fired = f;
            match o {
                Outcome::Done(()) => {
                    self.want[d] = want;
                    return;
                }
                _ if f => {
                    self.rep.fault("allocation refused");
                    self.check("a failed attempt to write a register");
                    if self.rep.over() {
                        return;
                    }
                }
                o => {
                    let msg = format!("writing {want:?} to register {d}: {}", crate::arr::desc(&o));
                    return self.wrong("op-fails", msg);
                }
            }
        }
    }

    /// Writes everything to the disk, each register in some format.
    fn checkpoint(&mut self, n: u64) {
        let m = &self.m;
        let h = self.h;
        let (o, _, _) = go(h, Default::default(), || {
            let regs: Vec<(u8, Vec<u8>)> = (0..m.home.len())
                .map(|i| {
                    let f = ((n >> (3 * i as u64 % 60)) % 6) as u8;
                    let v: BitVecValue = match m.src(i) {
                        Src::Own(o) => o.clone(),
                        Src::View(r) => r.into(),
                    };
                    let b = match f {
                        0 => bincode::serialize(&v).unwrap(),
                        1 => serde_json::to_vec(&v).unwrap(),
                        2 => {
                            let mut b = vec![];
                            ciborium::into_writer(&v, &mut b).unwrap();
                            b
                        }
                        3 => v.to_hex_str().into_bytes(),
                        4 => v.to_bit_str().into_bytes(),
                        _ => v.to_bytes_le(),
                    };
                    (f, b)
                })
                .collect();
            (regs, bincode::serialize(&m.arr).unwrap())
        });
        match o {
            Outcome::Done((regs, arr)) => {
                self.rep.see(fold(0, &regs));
                self.disk = (regs, arr, self.want.clone(), self.arr.clone());
                self.rep.count("probe:checkpoint");
            }
            o => {
                let msg = format!("writing a checkpoint: {}", crate::arr::desc(&o));
                self.wrong("op-fails", msg)
            }
        }
    }

    /// Only the disk survives; the new process has other hash keys and other memory.
    fn restart(&mut self, n: u64) {
        let (regs, arr, want, arr_want) = self.disk.clone();
        self.h = Some(n);
        let widths: Vec<u32> = want.iter().map(|v| v.w).collect();
        let scn = self.scn;
        let (o, _, _) = go(self.h, Default::default(), || {
            let vals: Vec<V> = regs
                .iter()
                .zip(&widths)
                .map(|((f, b), w)| {
                    let txt = || std::str::from_utf8(b).unwrap();
                    let v: BitVecValue = match f {
                        0 => bincode::deserialize(b).unwrap(),
                        1 => serde_json::from_slice(b).unwrap(),
                        2 => ciborium::from_reader(b.as_slice()).unwrap(),
                        3 => BitVecValue::from_str_radix(txt(), 16, *w).unwrap(),
                        4 => BitVecValue::from_bit_str(txt()).unwrap(),
                        _ => BitVecValue::from_bytes_le(b, *w),
                    };
                    rd(&v)
                })
                .collect();
            let a: ArrayValue = bincode::deserialize(&arr).unwrap();
            (vals, a)
        });
        self.rep.fault("crash and restart");
        let (vals, a) = match o {
            Outcome::Done(x) => x,
            o => {
                let msg = format!("restoring the checkpoint: {}", crate::arr::desc(&o));
                return self.wrong("op-fails", msg);
            }
        };
        if vals != want {
            let msg = format!("the checkpoint restores {vals:?}, it was written for {want:?}");
            return self.wrong("state", msg);
        }
        let (o, _, _) = go(self.h, Default::default(), || Machine::new(scn, &vals, a));
        match o {
            Outcome::Done(m) => {
                self.m = m;
                self.want = want;
                self.arr = arr_want;
            }
            o => {
                let msg = format!("setting up the registers after a restart: {}", crate::arr::desc(&o));
                self.wrong("op-fails", msg)
            }
        }
    }
}

/// A number that fits into w bits as two's complement.
fn small_i64(n: u64, w: u32) -> i64 {
    if w >= 64 {
        n as i64
    } else {
        ((n << (64 - w)) as i64) >> (64 - w)
    }
}

enum Step2 {
    Value(BitVecValue, String),
    Element(BitVecValue),
    InPlace,
    Nothing,
}
