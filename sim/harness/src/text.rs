//! C11: records of numerals on a disk that tears, flips, duplicates and reorders bytes.
use crate::bv::{self, rd, read_numeral, Numeral, V};
use crate::plan::go;
use crate::rep::Rep;
use baa::*;
use serde::{Deserialize, Serialize};
use simrt::rng::Rng;
use simrt::{Outcome, Plan};

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Scn {
    pub hash: u64,
    pub fill: u8,
    pub steps: Vec<Step>,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Step {
    pub v: V,
    pub src: Src,
    pub kind: Kind,
    pub upper: bool,
    pub dmg: Vec<Damage>,
    pub read: How,
    /// reads at this width instead of the value's own
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub w: Option<u32>,
    /// refuse this allocation while writing / reading
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub f: Option<u64>,
}
#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Kind {
    Bin,
    BinSigned,
    Hex,
    HexSigned,
    Dec,
    DecSigned,
    Bytes,
}
/// where the value written comes from
#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Src {
    Owned,
    View,
    /// cut out of a wider value
    Slice(u32),
    /// result of arithmetic
    Sum,
}
#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum How {
    New,
    /// into a value that held something else
    Assign,
    AssignView,
    /// width determined by the text
    FromText,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Damage {
    /// only the first n bytes reached the disk
    Truncate(u32),
    /// the first n bytes are lost
    Behead(u32),
    Flip(u32, u8),
    Set(u32, u8),
    Dup(u32, u32),
    Swap(u32, u32),
    Reverse,
    Insert(u32, String),
    /// the bytes of the record written last instead (misdirected or lost write)
    Stale,
    /// a character became another one with the same low byte (a mangled encoding)
    Wide(u32, u32),
    /// a region reads as zero bytes
    Zero(u32, u32),
}

pub fn gen(_p: &str, r: &mut Rng, long: bool) -> Scn {
    let n = if long { r.range(10, 100) } else { r.range(2, 30) };
    let mut pool: Vec<V> = vec![];
    let dden = *r.pick(&[1u64, 2, 4]);
    let fden = *r.pick(&[0u64, 6]);
    let steps = (0..n)
        .map(|_| {
            let kind = *r.pick(&[Kind::Bin, Kind::BinSigned, Kind::Hex, Kind::HexSigned, Kind::Dec, Kind::DecSigned, Kind::Bytes]);
            let dec = matches!(kind, Kind::Dec | Kind::DecSigned);
            let w = if r.chance(1, 60) { 0 } else if dec { bv::gen_width(r, 128) } else if r.chance(1, 100) { r.range(600, 2200) as u32 } else { bv::gen_width_big(r, 577) };
            let v = bv::gen(r, w, &pool);
            if pool.len() < 8 && w > 0 {
                pool.push(v.clone());
            }
            let mut dmg = vec![];
            if r.chance(1, dden) {
                let len = w / if matches!(kind, Kind::Bin | Kind::BinSigned) { 1 } else { 4 } + 2;
                for _ in 0..*r.pick(&[1, 1, 1, 2, 3]) {
                    let p = r.below(len as u64) as u32;
                    let q = r.below(len as u64) as u32;
                    dmg.push(match r.below(20) {
                        0 | 1 => Damage::Truncate(p),
                        2 => Damage::Behead(r.below(4) as u32),
                        3..=5 => Damage::Flip(if r.chance(1, 3) { 0 } else { p }, r.below(8) as u8),
                        6..=8 => Damage::Set(if r.chance(1, 3) { 0 } else { p }, *r.pick(b"0123456789abcdefABCDEF+-_ .gGzx\n\0\xff")),
                        9 => Damage::Dup(p, r.range(1, 20) as u32),
                        10 => Damage::Swap(p, q),
                        11 => Damage::Reverse,
                        12..=14 => Damage::Insert(
                            if r.chance(1, 2) { 0 } else { p },
                            r.pick(&["-", "+", "--", "-+", "+-", " ", "0", "00000000000000000000000000000000", "1", "f", "é", "🦀", "_", "0x", "\n", "\u{660}", "\u{ff11}"]).to_string(),
                        ),
                        15 => Damage::Stale,
                        16 | 17 => Damage::Wide(p, *r.pick(&[1u32, 1, 2, 3, 4, 6, 9, 0x20, 0xff, 0x100, 0x1f6])),
                        _ => Damage::Zero(p, r.range(1, 8) as u32),
                    })
                }
            }
            let read = *r.pick(&[How::New, How::New, How::Assign, How::AssignView, How::FromText]);
            let rw = if r.chance(1, 4) {
                let x = match r.below(4) {
                    0 => w + r.range(1, 70) as u32,
                    1 => w.saturating_sub(r.range(1, 3) as u32),
                    2 => v.significant_bits().max(1),
                    _ => bv::gen_width(r, 320),
                };
                Some(if dec { x.min(128) } else { x })
            } else {
                None
            };
            Step {
                v,
                src: *r.pick(&[Src::Owned, Src::View, Src::Slice(1), Src::Slice(63), Src::Slice(64), Src::Slice(65), Src::Sum]),
                kind,
                upper: r.chance(1, 4),
                dmg,
                read,
                w: rw,
                f: if fden > 0 && r.chance(1, fden) { Some(r.below(3)) } else { None },
            }
        })
        .collect();
    Scn { hash: r.next() >> 16, fill: *r.pick(&[0u8, 0xa5, 0xff]), steps }
}

fn damage(b: &mut Vec<u8>, d: &Damage, last: &[u8]) {
    let n = b.len();
    let at = |p: u32| if n == 0 { 0 } else { p as usize % n };
    match d {
        Damage::Truncate(p) => b.truncate(at(*p)),
        Damage::Behead(p) => {
            b.drain(..(*p as usize).min(n));
        }
        Damage::Flip(p, bit) if n > 0 => b[at(*p)] ^= 1 << (bit & 7),
        Damage::Set(p, c) if n > 0 => b[at(*p)] = *c,
        Damage::Dup(p, l) if n > 0 => {
            let s = at(*p);
            let e = (s + *l as usize).min(n);
            let x = b[s..e].to_vec();
            b.splice(s..s, x);
        }
        Damage::Swap(p, q) if n > 0 => b.swap(at(*p), at(*q)),
        Damage::Reverse => b.reverse(),
        Damage::Insert(p, t) => {
            let s = at(*p);
            b.splice(s..s, t.bytes());
        }
        Damage::Stale => *b = last.to_vec(),
        Damage::Wide(p, k) if n > 0 => {
            let s = at(*p);
            if let Some(c) = char::from_u32(b[s] as u32 + k * 256) {
                b.splice(s..s + 1, c.to_string().bytes());
            }
        }
        Damage::Zero(p, l) if n > 0 => {
            let s = at(*p);
            let e = (s + *l as usize).min(n);
            b[s..e].fill(0);
        }
        _ => {}
    }
    b.truncate(4000);
}

fn text_of(b: &[u8]) -> String {
    String::from_utf8_lossy(b).into_owned()
}

/// the library writes the value
fn write<B: BitVecOps + ?Sized>(b: &B, k: Kind) -> Vec<u8> {
    match k {
        Kind::Bin => b.to_bit_str().into_bytes(),
        Kind::BinSigned => b.to_bit_str_signed().into_bytes(),
        Kind::Hex => b.to_hex_str().into_bytes(),
        Kind::HexSigned => b.to_hex_str_signed().into_bytes(),
        Kind::Dec => b.to_dec_str().into_bytes(),
        Kind::DecSigned => {
            if b.is_negative() {
                let mut s = b.negate().to_dec_str();
                s.insert(0, '-');
                s.into_bytes()
            } else {
                b.to_dec_str().into_bytes()
            }
        }
        Kind::Bytes => b.to_bytes_le(),
    }
}

pub fn run(_p: &str, scn: &Scn, rep: &mut Rep) {
    simrt::set_fill(scn.fill);
    let mut last: Vec<u8> = b"0".to_vec();
    let mut dirty = V::ones(64);
    for (n, st) in scn.steps.iter().enumerate() {
        let v = &st.v;
        let dec = matches!(st.kind, Kind::Dec | Kind::DecSigned);
        if dec && v.w > 128 {
            continue;
        }
        // signed text needs a sign bit, and zero-width values have no numeral
        let kind = if v.w == 0 { Kind::Bytes } else { st.kind };
        let radix = match kind {
            Kind::Bin | Kind::BinSigned => 2,
            Kind::Hex | Kind::HexSigned => 16,
            _ => 10,
        };
        // the value to write
        let made = match st.src {
            Src::Slice(extra) if v.w > 0 => {
                let mut wide = V::ones(v.w + extra % 80 + 5);
                for i in 0..v.w {
                    wide.set(i + 3, v.bit(i));
                }
                simrt::call(Plan::default(), || wide.own().slice(v.w + 2, 3)).0
            }
            Src::Sum if v.w > 0 => {
                let k = V { w: v.w, x: vec![0x9e37_79b9_7f4a_7c15; bv::nwords(v.w)] }.canon();
                let l = v.add(&k.negate());
                simrt::call(Plan::default(), || l.own().add(&k.own())).0
            }
            _ => Outcome::Done(v.own()),
        };
        // (wrong arithmetic is not this property's concern)
        let made = match made {
            Outcome::Done(m) if rd(&m) == *v => m,
            _ => {
                rep.count("probe:value not produced");
                v.own()
            }
        };
        let mut written = None;
        for f in [st.f, None] {
            let (o, fired, a) = go(None, Plan { fail_at: f, sticky: false }, || match st.src {
                Src::View => write(&v.r(), kind),
                _ => write(&made, kind),
            });
            rep.see(a);
            match o {
                Outcome::Done(b) => {
                    written = Some(b);
                    break;
                }
                o if !fired => return rep.fail(n, "write-fails", format!("writing {v:?} as {kind:?}: {}", crate::arr::desc(&o))),
                _ => rep.fault("allocation refused"),
            }
        }
        let Some(mut bytes) = written else { return rep.fail(n, "write-fails", format!("writing {v:?} as {kind:?} failed without a fault")) };
        rep.ops += 2;
        rep.see(&bytes);
        if st.upper && radix == 16 {
            bytes.make_ascii_uppercase();
        }
        let intact = bytes.clone();
        for d in &st.dmg {
            damage(&mut bytes, d, &last);
        }
        last = intact.clone();
        let damaged = bytes != intact;
        if damaged {
            rep.fault(match &st.dmg[0] {
                Damage::Truncate(_) => "torn write",
                Damage::Behead(_) => "lost head",
                Damage::Flip(..) => "bit flip",
                Damage::Set(..) => "corrupted byte",
                Damage::Dup(..) => "duplicated bytes",
                Damage::Swap(..) | Damage::Reverse => "reordered bytes",
                Damage::Insert(..) => "foreign bytes",
                Damage::Stale => "stale record",
                Damage::Zero(..) => "zeroed region",
                Damage::Wide(..) => "mangled encoding",
            });
        }
        let w = st.w.map_or(v.w, |w| w.min(700));
        if dec && w > 128 {
            continue;
        }
        if w > 0 {
            dirty = dirty.fit(w).xor(&V { w, x: vec![simrt::rng::mix(n as u64, 1); bv::nwords(w)] }.canon());
        }
        rep.sig((kind, st.src, st.read, damaged, v.w, w));
        if kind == Kind::Bytes {
            if w != v.w {
                continue;
            }
            bytes.truncate((w as usize).div_ceil(8));
            let mut got = None;
            for f in [st.f, None] {
                let (o, fired, _) = go(None, Plan { fail_at: f, sticky: false }, || BitVecValue::from_bytes_le(&bytes, w));
                match o {
                    Outcome::Done(x) => {
                        got = Some(rd(&x));
                        break;
                    }
                    _ if fired => rep.fault("allocation refused"),
                    _ if damaged => break,
                    o => return rep.fail(n, "read-fails", format!("reading {v:?} back from its bytes: {}", crate::arr::desc(&o))),
                }
            }
            let Some(x) = got else { continue };
            rep.see(&x);
            if x.w != w || !x.is_canon() {
                return rep.fail(n, "bits-beyond-width", format!("bytes {bytes:x?} read at width {w} give {x:?}"));
            }
            if !damaged && x != *v {
                return rep.fail(n, "round-trip", format!("{v:?} written as bytes {bytes:x?} reads back as {x:?}"));
            }
            continue;
        }
        let t = text_of(&bytes);
        // read it back
        let mut how = st.read;
        if how == How::FromText && radix == 10 || (how == How::FromText && t.len() > 1500) || (w == 0 && how != How::New) {
            how = How::New;
        }
        let mut got: Option<Result<V, ()>> = None;
        for f in [st.f, None] {
            let mut dest = dirty.own();
            let (o, fired, _) = go(None, Plan { fail_at: f, sticky: false }, || match how {
                How::New => BitVecValue::from_str_radix(&t, radix, w).map(|x| Some(x)).map_err(|_| ()),
                How::FromText if radix == 2 => BitVecValue::from_bit_str(&t).map(|x| Some(x)).map_err(|_| ()),
                How::FromText => BitVecValue::from_hex_str(&t).map(|x| Some(x)).map_err(|_| ()),
                How::Assign => dest.assign_from_str_radix(&t, radix).map(|_| None).map_err(|_| ()),
                How::AssignView => BitVecValueMutRef::from(&mut dest).assign_from_str_radix(&t, radix).map(|_| None).map_err(|_| ()),
            });
            match o {
                Outcome::Done(Ok(Some(x))) => got = Some(Ok(rd(&x))),
                Outcome::Done(Ok(None)) => got = Some(Ok(rd(&dest))),
                Outcome::Done(Err(_)) => got = Some(Err(())),
                _ if fired => {
                    rep.fault("allocation refused");
                    continue;
                }
                o => {
                    return rep.fail(n, "panic", format!("reading {t:?} (base {radix}, width {w}, {how:?}): {}", crate::arr::desc(&o)));
                }
            }
            break;
        }
        let Some(got) = got else { return rep.fail(n, "read-fails", format!("reading {t:?} failed without a fault")) };
        rep.see(&got);
        let own_width = !damaged && w == v.w && how != How::FromText;
        match got {
            Err(()) => {
                if own_width {
                    return rep.fail(n, "refused", format!("{v:?} written as {t:?} (base {radix}) is refused when read back at width {w}, {how:?}"));
                }
                rep.count("probe:refused");
            }
            Ok(x) => {
                if how != How::FromText && x.w != w || !x.is_canon() {
                    return rep.fail(n, "bits-beyond-width", format!("{t:?} (base {radix}) read at width {w} ({how:?}) gives {x:?}"));
                }
                if own_width && x != *v {
                    return rep.fail(n, "round-trip", format!("{v:?} written as {t:?} (base {radix}) reads back as {x:?} ({how:?})"));
                }
                match read_numeral(&t, radix, x.w) {
                    Numeral::Exactly(e) | Numeral::Maybe(e) => {
                        rep.count("probe:read");
                        if e != x {
                            return rep.fail(n, "misread", format!("{t:?} (base {radix}) read at width {} ({how:?}) gives {x:?}, it denotes {e:?}", x.w));
                        }
                    }
                    Numeral::Refuse => {
                        return rep.fail(n, "accepted", format!("{t:?} (base {radix}) read at width {} ({how:?}) gives {x:?} instead of an error", x.w));
                    }
                }
            }
        }
    }
}
