//! Reference bit-vector: a width and canonical little-endian words. Deliberately naive.
use baa::*;
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use simrt::rng::Rng;

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct V {
    pub w: u32,
    pub x: Vec<u64>,
}

pub fn nwords(w: u32) -> usize {
    (w as usize).div_ceil(64)
}
fn top_mask(w: u32) -> u64 {
    if w % 64 == 0 {
        u64::MAX
    } else {
        (1u64 << (w % 64)) - 1
    }
}

impl V {
    pub fn zero(w: u32) -> V {
        V { w, x: vec![0; nwords(w)] }
    }
    pub fn ones(w: u32) -> V {
        V { w, x: vec![u64::MAX; nwords(w)] }.canon()
    }
    pub fn u(v: u64, w: u32) -> V {
        let mut r = V::zero(w);
        if w > 0 {
            r.x[0] = v;
        }
        r.canon()
    }
    pub fn canon(mut self) -> V {
        self.x.resize(nwords(self.w), 0);
        if let Some(l) = self.x.last_mut() {
            *l &= top_mask(self.w);
        }
        self
    }
    pub fn is_canon(&self) -> bool {
        self.x.len() == nwords(self.w) && self.x.last().map_or(true, |l| l & !top_mask(self.w) == 0)
    }
    /// same low bits, other width
    pub fn fit(&self, w: u32) -> V {
        if w == self.w {
            return self.clone();
        }
        V { w, x: self.x.clone() }.canon()
    }
    pub fn bit(&self, i: u32) -> bool {
        i < self.w && (self.x[(i / 64) as usize] >> (i % 64)) & 1 == 1
    }
    pub fn set(&mut self, i: u32, b: bool) {
        let m = 1u64 << (i % 64);
        if b {
            self.x[(i / 64) as usize] |= m
        } else {
            self.x[(i / 64) as usize] &= !m
        }
    }
    pub fn low(&self) -> u64 {
        self.x.first().copied().unwrap_or(0)
    }
    pub fn is_zero(&self) -> bool {
        self.x.iter().all(|w| *w == 0)
    }
    pub fn neg_bit(&self) -> bool {
        self.w > 0 && self.bit(self.w - 1)
    }
    pub fn not(&self) -> V {
        V { w: self.w, x: self.x.iter().map(|a| !a).collect() }.canon()
    }
    pub fn add(&self, o: &V) -> V {
        let mut c = 0u128;
        let x = self.x.iter().zip(&o.x).map(|(a, b)| {
            let s = *a as u128 + *b as u128 + c;
            c = s >> 64;
            s as u64
        });
        V { w: self.w, x: x.collect() }.canon()
    }
    pub fn negate(&self) -> V {
        if self.w == 0 {
            return self.clone();
        }
        self.not().add(&V::u(1, self.w))
    }
    pub fn xor(&self, o: &V) -> V {
        V { w: self.w, x: self.x.iter().zip(&o.x).map(|(a, b)| a ^ b).collect() }
    }
    pub fn bits_str(&self) -> String {
        (0..self.w).rev().map(|i| if self.bit(i) { '1' } else { '0' }).collect()
    }
    pub fn hex_str(&self) -> String {
        let n = (self.w as usize).div_ceil(4);
        (0..n)
            .rev()
            .map(|d| {
                let v = (self.x[d / 16] >> (4 * (d % 16))) & 15;
                char::from_digit(v as u32, 16).unwrap()
            })
            .collect()
    }
    pub fn dec_str(&self) -> String {
        let mut x = self.x.clone();
        let mut out = vec![];
        loop {
            let mut r = 0u128;
            for w in x.iter_mut().rev() {
                let c = (r << 64) | *w as u128;
                *w = (c / 10) as u64;
                r = c % 10;
            }
            out.push((b'0' + r as u8) as char);
            if x.iter().all(|w| *w == 0) {
                break;
            }
        }
        out.iter().rev().collect()
    }
    pub fn significant_bits(&self) -> u32 {
        (0..self.w).rev().find(|i| self.bit(*i)).map_or(0, |i| i + 1)
    }
    /// Hands the value to the library through a raw word slice.
    pub fn r(&self) -> BitVecValueRef<'_> {
        self.x.as_slice().get_ref(BitVecValueIndex::new(0, self.w))
    }
    pub fn own(&self) -> BitVecValue {
        self.r().into()
    }
}

/// Reads a value of the library back, bit for bit.
pub fn rd<B: BitVecOps + ?Sized>(b: &B) -> V {
    V { w: b.width(), x: b.words().to_vec() }
}

impl std::fmt::Debug for V {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", enc(self))
    }
}
fn enc(v: &V) -> String {
    if v.is_canon() {
        format!("{}'h{}", v.w, if v.w == 0 { String::new() } else { v.hex_str() })
    } else {
        format!("{}'words{:x?}", v.w, v.x)
    }
}
impl Serialize for V {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&enc(self))
    }
}
impl<'de> Deserialize<'de> for V {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = String::deserialize(d)?;
        let e = || serde::de::Error::custom("bad value");
        let (w, h) = s.split_once("'h").ok_or_else(e)?;
        let w: u32 = w.parse().map_err(|_| e())?;
        let mut v = V::zero(w);
        for (i, c) in h.bytes().rev().enumerate() {
            let d = (c as char).to_digit(16).ok_or_else(e)? as u64;
            if i / 16 < v.x.len() {
                v.x[i / 16] |= d << (4 * (i % 16));
            } else if d != 0 {
                return Err(e());
            }
        }
        Ok(v.canon())
    }
}

/// A value generator that likes boundaries, repeats and near-misses.
pub fn gen(r: &mut Rng, w: u32, pool: &[V]) -> V {
    if w == 0 {
        return V::zero(0);
    }
    match r.below(16) {
        0 => V::zero(w),
        1 => V::ones(w),
        2 if r.chance(1, 3) => {
            // around a power of ten or two
            let x = if r.chance(1, 2) { 10u128.pow(r.below(39) as u32) } else { 1u128 << r.below(128) };
            let x = x.wrapping_add(r.below(3) as u128).wrapping_sub(1);
            let words = [x as u64, (x >> 64) as u64];
            V { w, x: (0..nwords(w)).map(|k| words.get(k).copied().unwrap_or(0)).collect() }.canon()
        }
        2 => V::u(r.below(12), w),
        3 if r.chance(1, 2) => {
            // a run of ones, or everything but
            let (a, b) = (r.below(w as u64) as u32, r.below(w as u64) as u32);
            let mut v = V::zero(w);
            (a.min(b)..=a.max(b)).for_each(|k| v.set(k, true));
            if r.chance(1, 3) {
                v.not()
            } else {
                v
            }
        }
        3 => {
            let mut v = V::zero(w);
            v.set(r.below(w as u64) as u32, true);
            v
        }
        4 => {
            // sign bit only, or everything but
            let mut v = V::zero(w);
            v.set(w - 1, true);
            if r.chance(1, 2) {
                v.not()
            } else {
                v
            }
        }
        5..=8 if !pool.is_empty() => r.pick(pool).fit(w),
        9 | 10 if !pool.is_empty() => {
            // one bit away from a known value
            let mut v = r.pick(pool).fit(w);
            let b = if r.chance(1, 3) { w - 1 } else { r.below(w as u64) as u32 };
            let o = v.bit(b);
            v.set(b, !o);
            v
        }
        11 if !pool.is_empty() => {
            // same low (or high) word, the rest random
            let mut v = V { w, x: (0..nwords(w)).map(|_| r.next()).collect() }.canon();
            let p = r.pick(pool).fit(w);
            let i = if r.chance(1, 2) { 0 } else { v.x.len() - 1 };
            v.x[i] = p.x[i];
            v.canon()
        }
        12 => {
            // words from a tiny alphabet
            let a = [0, 1, u64::MAX, 1 << 63, 0x0123_4567_89ab_cdef, 0xffff_ffff];
            V { w, x: (0..nwords(w)).map(|_| *r.pick(&a)).collect() }.canon()
        }
        13 => V::u(r.next() >> r.below(64), w),
        _ => V { w, x: (0..nwords(w)).map(|_| r.next()).collect() }.canon(),
    }
}

pub fn gen_width(r: &mut Rng, max: u32) -> u32 {
    let menu = [
        1u32, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 24, 31, 32, 33, 40, 48, 62, 63, 64, 64, 65, 66, 67, 72, 96, 100, 126, 127,
        128, 128, 129, 130, 131, 150, 190, 191, 192, 193, 200, 255, 256, 257, 300, 320, 321, 512, 577,
    ];
    loop {
        let w = if r.chance(3, 4) { *r.pick(&menu) } else { 1 + r.below(max as u64) as u32 };
        if w <= max {
            return w;
        }
    }
}

/// Once in a while, a width far above the others.
pub fn gen_width_big(r: &mut Rng, max: u32) -> u32 {
    match r.below(3000) {
        0 => *r.pick(&[65_535u32, 65_536, 65_537, 65_600, 70_000]),
        1..=12 => *r.pick(&[640u32, 704, 1000, 1023, 1024, 1025, 1100, 1500, 2047, 2048, 2049, 4095, 4096, 4097, 8200]),
        _ => gen_width(r, max),
    }
}

// ------------------------------------------------------------------- reference reading of numerals

#[derive(Debug, Clone, PartialEq)]
pub enum Numeral {
    /// the text denotes exactly this value at the given width
    Exactly(V),
    /// must be refused
    Refuse,
    /// either this value or an error is acceptable (redundant notation)
    Maybe(V),
}

pub fn read_numeral(text: &str, radix: u32, w: u32) -> Numeral {
    use Numeral::*;
    if text.is_empty() {
        return if w == 0 { Exactly(V::zero(0)) } else { Maybe(V::zero(w)) };
    }
    let (neg, rest) = match text.strip_prefix('-') {
        Some(r) => (true, r),
        None => (false, text),
    };
    let (plus, digits) = match rest.strip_prefix('+') {
        Some(r) => (true, r),
        None => (false, rest),
    };
    if digits.is_empty() || !digits.chars().all(|c| c.is_ascii() && c.to_digit(radix).is_some()) {
        return Refuse;
    }
    // magnitude
    let mut m: Vec<u64> = vec![0];
    for c in digits.chars() {
        let mut carry = c.to_digit(radix).unwrap() as u128;
        for x in m.iter_mut() {
            let t = *x as u128 * radix as u128 + carry;
            *x = t as u64;
            carry = t >> 64;
        }
        if carry > 0 {
            m.push(carry as u64);
        }
    }
    let mv = V { w: 64 * m.len() as u32, x: m };
    let bits = mv.significant_bits();
    if bits > w {
        return Refuse;
    }
    let v = mv.fit(w);
    let per_digit = match radix {
        2 => 1,
        16 => 4,
        _ => 0,
    };
    let redundant = if per_digit > 0 {
        digits.len() > (w as usize).div_ceil(per_digit)
    } else {
        digits.len() > V::ones(w.max(1)).dec_str().len()
    };
    let out = if neg { v.negate() } else { v.clone() };
    // a negative number fits if it is at least -2^(w-1)
    let over_negative = neg && w > 0 && bits == w && !(v.significant_bits() == w && v.x.iter().map(|x| x.count_ones()).sum::<u32>() == 1);
    if over_negative {
        return Refuse;
    }
    if w == 0 && digits != "0" || redundant || (neg && plus) || (plus && w == 0) {
        Maybe(out)
    } else {
        Exactly(out)
    }
}
