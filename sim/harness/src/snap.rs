//! C09: snapshots on a simulated disk, crashes, restarts with other hash keys. The oracle is a twin
//! that runs the same history and is never serialized.
use crate::bv::{self, rd, V};
use crate::plan::go;
use crate::rep::Rep;
use baa::*;
use serde::{Deserialize, Serialize};
use simrt::rng::Rng;
use simrt::{Outcome, Plan};
use std::collections::BTreeSet;
use std::io;

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Scn {
    pub hash: u64,
    pub fill: u8,
    pub steps: Vec<Step>,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Step {
    pub c: u8,
    pub op: Op,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Op {
    New { s: usize, dense: bool, iw: u32, d: V },
    NewBare { s: usize, iw: u32, d: V },
    FromSlice { s: usize, ty: u8, v: Vec<u64> },
    NewBv { s: usize, v: V },
    Store { s: usize, i: V, d: V, n: u32, inc: u64 },
    Clear { s: usize },
    Clone { s: usize, t: usize },
    MakeDense { s: usize },
    ToBare { s: usize, t: usize },
    Compare { s: usize, t: usize },
    BvUpd { s: usize, how: u8, v: V },
    Drop { s: usize },
    Snapshot(Write),
    Crash(Read),
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Write {
    pub fmt: Fmt,
    /// longest write the disk accepts at once
    pub chunk: u32,
    /// every n-th write is interrupted
    pub eintr: u32,
    /// the disk is full after so many bytes
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub full: Option<u32>,
    /// the process dies after so many bytes
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub crash: Option<u32>,
    /// so many of them had not reached the disk
    pub lost: u32,
    /// refuse this allocation
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub oom: Option<u64>,
    /// how the process restarts after a crash
    pub again: Read,
}
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct Read {
    /// hash keys of the new process
    pub h: u64,
    pub chunk: u32,
    pub eintr: u32,
    /// an I/O error at this offset (once)
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub eio: Option<u32>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub oom: Option<u64>,
    /// restores from memory instead of through a reader
    #[serde(default)]
    pub whole: bool,
}
#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Fmt {
    Json,
    JsonPretty,
    /// through an in-memory document
    JsonTree,
    Cbor,
    Bincode,
}

const SLOTS: usize = 5;

fn gen_read(r: &mut Rng) -> Read {
    Read {
        h: r.next() >> 20,
        chunk: *r.pick(&[1u32, 2, 3, 7, 64, 512, 1 << 20]),
        eintr: *r.pick(&[0u32, 0, 2, 5]),
        eio: if r.chance(1, 6) { Some(r.below(200) as u32) } else { None },
        oom: if r.chance(1, 6) { Some(r.below(30)) } else { None },
        whole: r.chance(1, 3),
    }
}

fn gen_write(r: &mut Rng, wcrash: u64, size: u64) -> Write {
    let c = r.chance(1, wcrash);
    let f = !c && r.chance(1, 8);
    Write {
        fmt: *r.pick(&[Fmt::Json, Fmt::Json, Fmt::JsonPretty, Fmt::JsonTree, Fmt::Cbor, Fmt::Cbor, Fmt::Bincode, Fmt::Bincode]),
        chunk: *r.pick(&[1u32, 3, 16, 64, 512, 1 << 20]),
        eintr: *r.pick(&[0u32, 0, 2, 3]),
        full: if f { Some(r.below(size) as u32) } else { None },
        crash: if c { Some(if r.chance(1, 3) { r.below(4000.max(size)) } else { r.below(size) } as u32) } else { None },
        lost: if r.chance(1, 2) { 0 } else { r.below(64) as u32 },
        oom: if r.chance(1, 10) { Some(r.below(12)) } else { None },
        again: gen_read(r),
    }
}

/// Few steps, but hundreds to tens of thousands of elements.
fn gen_bulk(r: &mut Rng) -> Scn {
    let n = if r.chance(1, 12) {
        *r.pick(&[10_000u32, 17_000, 33_000, 66_000])
    } else {
        *r.pick(&[129, 200, 255, 256, 257, 300, 512, 600, 1_023, 1_024, 1_030, 2_050, 4_100])
    };
    let dw = *r.pick(&[1u32, 8, 9, 33, 64, 64, 65, 130]);
    let mut log = 0;
    while (1u32 << log) < n {
        log += 1;
    }
    let iw = *r.pick(&[log, log, log + 1, 16, 20, 33, 63, 64, 64, 65, 130]).max(&log);
    let d = bv::gen(r, dw, &[]);
    if r.chance(1, 4) {
        // a large dense array that is mostly the same
        let iw = *r.pick(&[16u32, 17, 17, 18]);
        let dw = *r.pick(&[1u32, 8, 8, 16, 32, 64, 70]);
        let d = bv::gen(r, dw, &[]);
        let mut steps = vec![Op::New { s: 0, dense: true, iw, d: d.clone() }];
        for _ in 0..r.below(4) {
            steps.push(Op::Store { s: 0, i: bv::gen(r, iw, &[]), d: bv::gen(r, dw, &[]), n: r.range(1, 5) as u32, inc: r.below(3) });
        }
        steps.push(Op::Snapshot(gen_write(r, 6, 1 << iw)));
        steps.push(Op::Crash(gen_read(r)));
        steps.push(Op::Store { s: 0, i: bv::gen(r, iw, &[]), d, n: r.range(1, 5) as u32, inc: 0 });
        let steps = steps.into_iter().map(|op| Step { c: 0, op }).collect();
        return Scn { hash: r.next() >> 16, fill: *r.pick(&[0u8, 0xa5, 0xff]), steps };
    }
    let mut steps = vec![match r.below(4) {
        0 | 1 if iw <= 16 => Op::New { s: 0, dense: true, iw, d: d.clone() },
        2 => Op::New { s: 0, dense: false, iw, d: d.clone() },
        3 if n <= 5_000 => Op::FromSlice { s: 0, ty: r.below(3) as u8, v: (0..n).map(|_| if r.chance(1, 2) { r.below(3) } else { r.next() }).collect() },
        _ => Op::NewBare { s: 0, iw, d: d.clone() },
    }];
    steps.push(Op::Store { s: 0, i: bv::gen(r, iw, &[]), d: bv::gen(r, dw, &[]), n, inc: r.below(3) });
    for _ in 0..r.range(2, 7) {
        steps.push(match r.below(12) {
            0 => Op::Store { s: 0, i: bv::gen(r, iw, &[]), d: d.clone(), n: r.range(1, n as u64) as u32, inc: r.below(2) },
            1 => Op::Clone { s: 0, t: 1 },
            2 => Op::ToBare { s: 0, t: 1 },
            3 => Op::MakeDense { s: 0 },
            4 => Op::Clear { s: 0 },
            5 => {
                let w = r.range(1_000, 70_000) as u32;
                Op::NewBv { s: 2, v: bv::gen(r, w, &[]) }
            }
            6..=9 => Op::Snapshot(gen_write(r, 4, n as u64 * 30)),
            _ => Op::Crash(gen_read(r)),
        });
    }
    let steps = steps.into_iter().map(|op| Step { c: 0, op }).collect();
    Scn { hash: r.next() >> 16, fill: *r.pick(&[0u8, 0xa5, 0xff]), steps }
}

pub fn gen(_prop: &str, r: &mut Rng, long: bool) -> Scn {
    if r.chance(1, 150) {
        return gen_bulk(r);
    }
    let n = if long { r.range(10, 120) } else { r.range(4, 40) };
    let iws = [0u32, 1, 2, 3, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 32, 33, 63, 64, 64, 65, 66, 70, 128, 130, 200];
    let dws = [1u32, 1, 2, 3, 7, 8, 8, 9, 31, 32, 33, 63, 64, 64, 65, 66, 127, 128, 129, 192, 193, 256];
    let types: Vec<(u32, u32)> = (0..2).map(|_| (*r.pick(&iws), *r.pick(&dws))).collect();
    let pool: Vec<V> = (0..4).map(|_| bv::gen(r, 200, &[])).collect();
    let mut steps = vec![];
    let wcrash = *r.pick(&[2u64, 4, 10]);
    for _ in 0..n {
        let (s, t) = (r.idx(SLOTS), r.idx(SLOTS));
        let (iw, dw) = *r.pick(&types);
        let op = match r.below(34) {
            0..=2 => Op::New { s, dense: iw <= 12 && r.chance(1, 2), iw, d: bv::gen(r, dw, &pool) },
            3 | 4 => Op::NewBare { s, iw, d: bv::gen(r, dw, &pool) },
            5 => {
                let n = *r.pick(&[0usize, 1, 2, 3, 5, 8, 17, 100]);
                Op::FromSlice { s, ty: r.below(3) as u8, v: (0..n).map(|_| if r.chance(1, 2) { r.below(3) } else { r.next() }).collect() }
            }
            6..=8 => {
                let w = if r.chance(1, 30) { 0 } else { bv::gen_width_big(r, 577) };
                Op::NewBv { s, v: bv::gen(r, w, &pool) }
            }
            9..=15 => Op::Store {
                s,
                i: bv::gen(r, iw, &pool),
                d: bv::gen(r, dw, &pool),
                n: if r.chance(1, 3) { r.range(1, 40) as u32 } else { 1 },
                inc: r.below(3),
            },
            16 => Op::Clear { s },
            17 => Op::Clone { s, t },
            18 => Op::MakeDense { s },
            19 => Op::ToBare { s, t },
            20 => Op::Compare { s, t },
            21 => {
                let w = bv::gen_width(r, 577);
                Op::BvUpd { s, how: r.below(6) as u8, v: bv::gen(r, w, &pool) }
            }
            22 => Op::Drop { s },
            23..=29 => Op::Snapshot(gen_write(r, wcrash, 300)),
            _ => Op::Crash(gen_read(r)),
        };
        steps.push(Step { c: r.below(3) as u8, op });
    }
    Scn { hash: r.next() >> 16, fill: *r.pick(&[0u8, 0xa5, 0xff]), steps }
}

// ---------------------------------------------------------------------------------------- the disk

/// The file being written: accepts short pieces, interrupts, runs full, dies.
struct Wr<'a> {
    p: &'a Write,
    out: Vec<u8>,
    calls: u32,
    stat: &'a mut Stat,
}
#[derive(Default)]
struct Stat {
    short: u64,
    eintr: u64,
    full: bool,
    crashed: bool,
    eio: u64,
    nanos: u64,
    budget: u64,
}
impl io::Write for Wr<'_> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        simrt::unarmed(|| {
            self.calls += 1;
            self.stat.nanos += 40_000;
            if self.stat.crashed {
                return Err(io::ErrorKind::BrokenPipe.into());
            }
            if self.p.eintr > 0 && self.calls % self.p.eintr == 1 {
                self.stat.eintr += 1;
                return Err(io::ErrorKind::Interrupted.into());
            }
            let mut n = b.len().min(self.p.chunk.max(1) as usize);
            if let Some(c) = self.p.crash {
                n = n.min((c as usize).saturating_sub(self.out.len()));
                if n == 0 && !b.is_empty() {
                    self.stat.crashed = true;
                    return Err(io::ErrorKind::BrokenPipe.into());
                }
            }
            if let Some(c) = self.p.full {
                n = n.min((c as usize).saturating_sub(self.out.len()));
                if n == 0 && !b.is_empty() {
                    self.stat.full = true;
                    return Err(io::Error::from_raw_os_error(libc::ENOSPC));
                }
            }
            if n < b.len() {
                self.stat.short += 1;
            }
            self.stat.nanos += n as u64 * 10;
            self.out.extend_from_slice(&b[..n]);
            Ok(n)
        })
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
struct Rd<'a> {
    p: &'a Read,
    b: &'a [u8],
    at: usize,
    calls: u32,
    eio: Option<u32>,
    stat: &'a mut Stat,
}
impl io::Read for Rd<'_> {
    fn read(&mut self, out: &mut [u8]) -> io::Result<usize> {
        simrt::unarmed(|| {
            self.calls += 1;
            self.stat.nanos += 20_000;
            if self.p.eintr > 0 && self.calls % self.p.eintr == 1 {
                self.stat.eintr += 1;
                return Err(io::ErrorKind::Interrupted.into());
            }
            if let Some(e) = self.eio {
                if self.at >= e as usize {
                    self.eio = None;
                    self.stat.eio += 1;
                    return Err(io::Error::from_raw_os_error(libc::EIO));
                }
            }
            let n = out.len().min(self.p.chunk.max(1) as usize).min(self.b.len() - self.at);
            if n < out.len() {
                self.stat.short += 1;
            }
            out[..n].copy_from_slice(&self.b[self.at..self.at + n]);
            self.at += n;
            Ok(n)
        })
    }
}

#[derive(Default)]
struct File {
    bytes: Vec<u8>,
    fmt: Option<Fmt>,
    /// the bytes are everything that was to be written
    complete: bool,
    seq: u64,
    twin: Vec<Option<Item>>,
    /// what the serialized objects looked like
    exact: Vec<Option<String>>,
    loose: Vec<bool>,
}

#[derive(Serialize, Deserialize)]
struct Snap {
    seq: u64,
    items: Vec<Option<Item>>,
}
#[derive(Serialize)]
struct SnapRef<'a> {
    seq: u64,
    items: &'a Vec<Option<Item>>,
}
#[derive(Serialize, Deserialize, Clone)]
enum Item {
    Arr(ArrayValue),
    Bare(SparseArrayValue),
    Bv(BitVecValue),
}

fn write(fmt: Fmt, s: &SnapRef, w: &mut Wr) -> Result<(), String> {
    match fmt {
        Fmt::Json => serde_json::to_writer(w, s).map_err(|e| e.to_string()),
        Fmt::JsonPretty => serde_json::to_writer_pretty(w, s).map_err(|e| e.to_string()),
        Fmt::JsonTree => {
            let t = serde_json::to_value(s).map_err(|e| e.to_string())?;
            serde_json::to_writer(w, &t).map_err(|e| e.to_string())
        }
        Fmt::Cbor => ciborium::into_writer(s, w).map_err(|e| e.to_string()),
        Fmt::Bincode => bincode::serialize_into(w, s).map_err(|e| e.to_string()),
    }
}
fn read(fmt: Fmt, r: &mut Rd) -> Result<Snap, String> {
    if r.p.whole {
        let b = r.b;
        return match fmt {
            Fmt::Json | Fmt::JsonPretty => serde_json::from_slice(b).map_err(|e| e.to_string()),
            Fmt::JsonTree => {
                let t: serde_json::Value = serde_json::from_slice(b).map_err(|e| e.to_string())?;
                serde_json::from_value(t).map_err(|e| e.to_string())
            }
            Fmt::Cbor => ciborium::from_reader(b).map_err(|e| e.to_string()),
            Fmt::Bincode => bincode::deserialize(b).map_err(|e| e.to_string()),
        };
    }
    match fmt {
        Fmt::Json | Fmt::JsonPretty => serde_json::from_reader(r).map_err(|e| e.to_string()),
        Fmt::JsonTree => {
            let t: serde_json::Value = serde_json::from_reader(r).map_err(|e| e.to_string())?;
            serde_json::from_value(t).map_err(|e| e.to_string())
        }
        Fmt::Cbor => ciborium::from_reader(r).map_err(|e| e.to_string()),
        Fmt::Bincode => bincode::deserialize_from(r).map_err(|e| e.to_string()),
    }
}

// --------------------------------------------------------------------------------------- the world

struct World<'a> {
    /// what lives in the simulated process
    sub: Vec<Option<Item>>,
    /// the same, never serialized
    twin: Vec<Option<Item>>,
    /// the default was chosen by a dense-to-sparse conversion, which may break ties by hash order
    loose: Vec<bool>,
    disk: [File; 2],
    seq: u64,
    /// hash keys of the current process
    h: u64,
    pool: Vec<V>,
    rep: &'a mut Rep,
    step: usize,
    restores: u64,
}

pub fn run(_prop: &str, scn: &Scn, rep: &mut Rep) {
    simrt::set_fill(scn.fill);
    let mut pool = BTreeSet::new();
    for s in &scn.steps {
        if let Op::Store { i, n, .. } = &s.op {
            pool.insert(i.clone());
            pool.insert(i.add(&V::u((*n).max(1) as u64 - 1, i.w)));
        }
    }
    let none = || (0..SLOTS).map(|_| None).collect::<Vec<_>>();
    let mut w = World {
        sub: none(),
        twin: none(),
        loose: vec![false; SLOTS],
        disk: Default::default(),
        seq: 0,
        h: scn.hash,
        pool: pool.into_iter().take(40).collect(),
        rep,
        step: 0,
        restores: 0,
    };
    for (n, s) in scn.steps.iter().enumerate() {
        w.step = n;
        w.exec(&s.op);
        w.rep.sig(s.c);
        if w.rep.over() {
            return;
        }
    }
    // the faults have stopped: one snapshot and restart per format must work
    for fmt in [Fmt::Json, Fmt::Bincode, Fmt::Cbor] {
        w.step = scn.steps.len();
        let plain = Read { h: simrt::rng::mix(scn.hash, fmt as u64), chunk: 1 << 20, ..Default::default() };
        let wr = Write { fmt, chunk: 1 << 20, eintr: 0, full: None, crash: None, lost: 0, oom: None, again: plain.clone() };
        w.snapshot(&wr);
        if !w.rep.over() {
            w.restart(&plain);
        }
        if w.rep.over() {
            return;
        }
    }
}

fn indices(iw: u32, pool: &[V]) -> Vec<V> {
    if iw <= 7 {
        return (0..1u64 << iw).map(|k| V::u(k, iw)).collect();
    }
    let mut s: BTreeSet<V> = pool.iter().map(|p| p.fit(iw)).collect();
    s.insert(V::zero(iw));
    s.insert(V::ones(iw));
    for k in 0..6u64 {
        s.insert(V { w: iw, x: (0..bv::nwords(iw) as u64).map(|j| simrt::rng::mix(k, j)).collect() }.canon());
        s.insert(V::u(k, iw));
    }
    s.into_iter().collect()
}

/// Everything a user can see of an object.
fn look(it: &Item, pool: &[V], entries: bool) -> String {
    let idx = |iw: u32| indices(iw, pool);
    let (o, _) = simrt::call(Plan::default(), || match it {
        Item::Arr(a) => {
            let v: Vec<V> = idx(a.index_width()).iter().map(|i| rd(&a.select(i.r()))).collect();
            format!("{}x{} {} {v:?}", a.index_width(), a.data_width(), if a.is_dense() { "dense" } else if a.is_sparse() { "sparse" } else { "?" })
        }
        Item::Bare(a) => {
            let v: Vec<V> = idx(a.index_width()).iter().map(|i| rd(&a.select(i.r()))).collect();
            let e = if entries {
                let mut e: Vec<(V, V)> = a.non_default_entries().map(|(i, d)| (rd(&i), rd(&d))).collect();
                e.sort();
                format!("default {:?} entries {e:?}", rd(&a.default()))
            } else {
                String::new()
            };
            format!("{}x{} {v:?} {e}", a.index_width(), a.data_width())
        }
        Item::Bv(b) => {
            let x = if b.width() == 0 { String::new() } else { format!("{} {} {:?}", b.to_bit_str(), b.to_hex_str(), b.to_u64()) };
            format!("{:?} {} {x} {b:?}", rd(b), b.is_zero())
        }
    });
    match o {
        Outcome::Done(s) => s,
        o => format!("ended with {}", crate::arr::desc(&o)),
    }
}

fn short(s: &str) -> String {
    let n = s.char_indices().nth(400).map_or(s.len(), |x| x.0);
    s[..n].to_string()
}

impl World<'_> {
    fn wrong(&mut self, class: &str, msg: String) {
        self.rep.fail(self.step, class, msg)
    }

    fn compare_with_twin(&mut self, when: &str) {
        for s in 0..SLOTS {
            let (Some(a), Some(b)) = (&self.sub[s], &self.twin[s]) else {
                if self.sub[s].is_some() != self.twin[s].is_some() {
                    return self.wrong("harness", format!("slot {s} {when}"));
                }
                continue;
            };
            let (x, y) = (look(a, &self.pool, !self.loose[s]), look(b, &self.pool, !self.loose[s]));
            self.rep.see((s, &x));
            if x != y {
                let msg = format!("slot {s} {when}: {}\nwithout serialization: {}", short(&x), short(&y));
                return self.wrong("differs", msg);
            }
            // and they compare as the object compares with its own clone
            let (o, _) = simrt::call(Plan::default(), || match (a, b) {
                (Item::Arr(a), Item::Arr(b)) if a.index_width() <= 16 || a.is_sparse() => (a.is_equal(b), b.is_equal(a)) == (b.is_equal(&b.clone()), b.clone().is_equal(b)) ,
                (Item::Bv(a), Item::Bv(b)) => {
                    use std::hash::{BuildHasher, RandomState};
                    let st = RandomState::new();
                    (a == b, b == a, a.cmp(b), st.hash_one(a) == st.hash_one(b)) == (b == &b.clone(), &b.clone() == b, b.cmp(b), true)
                }
                _ => true,
            });
            if !matches!(o, Outcome::Done(true)) {
                let msg = format!("slot {s} {when}: the restored object does not compare equal to the original {}", short(&y));
                return self.wrong("compare", msg);
            }
        }
    }

    /// the same operation on the subject and on its twin
    fn both<T>(&mut self, name: &str, s: usize, mut f: impl FnMut(&mut Vec<Option<Item>>) -> T) -> bool {
        let sub = &mut self.sub;
        let (o, _, _) = go(Some(self.h), Plan::default(), || {
            f(sub);
        });
        let twin = &mut self.twin;
        let (p, _) = simrt::call(Plan::default(), || {
            f(twin);
        });
        self.rep.ops += 1;
        self.rep.sig((name, s, o.kind()));
        if o.kind() != p.kind() {
            let msg = format!("{name} on slot {s}: {}, without serialization: {}", crate::arr::desc(&o), crate::arr::desc(&p));
            self.wrong("differs", msg);
            return false;
        }
        o.kind() == "done"
    }

    fn exec(&mut self, op: &Op) {
        match op {
            Op::New { s, dense, iw, d } => {
                let s = s % SLOTS;
                let dense = *dense && *iw <= 18;
                let own = d.own();
                self.both("new", s, |x| x[s] = Some(Item::Arr(if dense { ArrayValue::new_dense(*iw, &own) } else { ArrayValue::new_sparse(*iw, &own) })));
                self.loose[s] = false;
            }
            Op::NewBare { s, iw, d } => {
                let s = s % SLOTS;
                let own = d.own();
                self.both("new", s, |x| x[s] = Some(Item::Bare(SparseArrayValue::new(*iw, &own))));
                self.loose[s] = false;
            }
            Op::FromSlice { s, ty, v } => {
                let s = s % SLOTS;
                if v.len() > 6000 {
                    return;
                }
                self.both("from slice", s, |x| {
                    x[s] = Some(Item::Arr(match ty % 3 {
                        0 => v.iter().map(|b| b & 1 == 1).collect::<Vec<bool>>().as_slice().into(),
                        1 => v.iter().map(|b| *b as u8).collect::<Vec<u8>>().as_slice().into(),
                        _ => v.as_slice().into(),
                    }))
                });
                self.loose[s] = false;
            }
            Op::NewBv { s, v } => {
                let s = s % SLOTS;
                let v = v.own();
                self.both("value", s, |x| x[s] = Some(Item::Bv(v.clone())));
                self.loose[s] = false;
            }
            Op::Store { s, i, d, n, inc } => {
                let s = s % SLOTS;
                let Some((iw, dw)) = self.ty(s) else { return };
                let (mut i, mut d) = (i.fit(iw), d.fit(dw));
                let mut list = vec![];
                for _ in 0..(*n).clamp(1, 70_000) {
                    list.push((i.own(), d.own()));
                    i = i.add(&V::u(1, iw));
                    d = d.add(&V::u(*inc, dw));
                }
                self.both("store", s, |x| {
                    for (i, d) in &list {
                        match x[s].as_mut().unwrap() {
                            Item::Arr(a) => a.store(i, d),
                            Item::Bare(a) => a.store(i, d),
                            Item::Bv(_) => unreachable!(),
                        }
                    }
                });
            }
            Op::Clear { s } => {
                let s = s % SLOTS;
                if self.sub[s].is_none() {
                    return;
                }
                self.both("clear", s, |x| match x[s].as_mut().unwrap() {
                    Item::Arr(a) => a.clear(),
                    Item::Bare(a) => a.clear(),
                    Item::Bv(b) => b.clear(),
                });
                self.loose[s] = false;
            }
            Op::Clone { s, t } => {
                let (s, t) = (s % SLOTS, t % SLOTS);
                if self.sub[s].is_none() {
                    return;
                }
                self.both("clone", s, |x| x[t] = x[s].clone());
                self.loose[t] = self.loose[s];
            }
            Op::MakeDense { s } => {
                let s = s % SLOTS;
                match self.ty(s) {
                    Some((iw, _)) if iw <= 12 => {}
                    _ => return,
                }
                self.both("make_dense", s, |x| {
                    if let Item::Arr(a) = x[s].as_mut().unwrap() {
                        a.make_dense()
                    }
                });
            }
            Op::ToBare { s, t } => {
                let (s, t) = (s % SLOTS, t % SLOTS);
                let Some(Item::Arr(a)) = &self.sub[s] else { return };
                let dense = a.is_dense();
                self.both("to sparse", s, |x| {
                    let Some(Item::Arr(a)) = &x[s] else { unreachable!() };
                    let b = SparseArrayValue::from(a.clone());
                    x[t] = Some(Item::Bare(b));
                });
                self.loose[t] = dense;
            }
            Op::Compare { s, t } => {
                let (s, t) = (s % SLOTS, t % SLOTS);
                let eq = |v: &Vec<Option<Item>>| -> Option<String> {
                    let (o, _) = simrt::call(Plan::default(), || match (&v[s], &v[t]) {
                        (Some(Item::Arr(a)), Some(Item::Arr(b))) if a.index_width() <= 12 => Some(format!("{:?} {:?} {}", a.is_equal(b), b.is_equal(a), a == b)),
                        (Some(Item::Bv(a)), Some(Item::Bv(b))) => Some(format!("{} {} {:?}", a == b, b == a, a.cmp(b))),
                        _ => None,
                    });
                    match o {
                        Outcome::Done(r) => r,
                        o => Some(crate::arr::desc(&o)),
                    }
                };
                let (x, y) = (eq(&self.sub), eq(&self.twin));
                self.rep.ops += 1;
                self.rep.sig(("compare", s, t, &x));
                if x != y {
                    let msg = format!("comparing slots {s} and {t} gives {x:?}, without serialization {y:?}");
                    return self.wrong("differs", msg);
                }
            }
            Op::BvUpd { s, how, v } => {
                let s = s % SLOTS;
                let Some(Item::Bv(b)) = &self.sub[s] else { return };
                let w = b.width();
                if w == 0 {
                    return;
                }
                let v = v.fit(w);
                let own = v.own();
                let hex = v.hex_str();
                self.both("update", s, |x| {
                    let Some(Item::Bv(b)) = &mut x[s] else { unreachable!() };
                    match how % 6 {
                        0 => b.assign(&own),
                        1 => b.set_bit(v.low() as u32 % w),
                        2 => b.clear_bit(v.low() as u32 % w),
                        3 => *b = b.xor(&own),
                        4 => *b = b.add(&own),
                        _ => b.assign_from_str_radix(&hex, 16).unwrap(),
                    }
                });
            }
            Op::Drop { s } => {
                let s = s % SLOTS;
                self.both("drop", s, |x| x[s] = None);
                self.loose[s] = false;
            }
            Op::Snapshot(w) => return self.snapshot(w),
            Op::Crash(r) => return self.restart(r),
        }
        if !self.rep.over() && self.restores > 0 {
            self.compare_with_twin("after an operation on restored state");
        }
    }

    fn ty(&self, s: usize) -> Option<(u32, u32)> {
        match &self.sub[s] {
            Some(Item::Arr(a)) => Some((a.index_width(), a.data_width())),
            Some(Item::Bare(a)) => Some((a.index_width(), a.data_width())),
            _ => None,
        }
    }

    fn snapshot(&mut self, w: &Write) {
        let mut fmt = w.fmt;
        let wide = self.sub.iter().flatten().any(|i| match i {
            Item::Arr(a) => a.is_sparse() && a.index_width() > 64,
            Item::Bare(a) => a.index_width() > 64,
            Item::Bv(_) => false,
        });
        if wide && matches!(fmt, Fmt::Json | Fmt::JsonPretty | Fmt::JsonTree) {
            // structured map keys cannot be represented
            fmt = Fmt::Cbor;
        }
        self.seq += 1;
        let to = (self.seq % 2) as usize;
        let mut stat = Stat::default();
        let items = std::mem::take(&mut self.sub);
        let snap = SnapRef { seq: self.seq, items: &items };
        let mut wr = Wr { p: w, out: vec![], calls: 0, stat: &mut stat };
        let (o, fired, allocs) = go(Some(self.h), Plan { fail_at: w.oom, sticky: false }, || write(fmt, &snap, &mut wr));
        let mut bytes = std::mem::take(&mut wr.out);
        let exact: Vec<Option<String>> = items.iter().map(|i| i.as_ref().map(|i| look(i, &self.pool, true))).collect();
        self.sub = items;
        self.rep.ops += 1;
        self.rep.sig(("snapshot", fmt, o.kind(), stat.crashed, stat.full));
        // (the order of map entries in the bytes depends on the hash keys of this run only)
        self.rep.see((&bytes, allocs));
        self.rep.sim_nanos += stat.nanos + 5_000_000;
        self.rep.add("fault:short write", stat.short);
        self.rep.add("fault:interrupted write", stat.eintr);
        self.rep.fired += (stat.short > 0) as u64 + (stat.eintr > 0) as u64;
        let ok = match o {
            Outcome::Done(Ok(())) => true,
            Outcome::Done(Err(_)) if stat.crashed => {
                self.rep.fault("crash while writing a snapshot");
                false
            }
            Outcome::Done(Err(_)) if stat.full => {
                self.rep.fault("disk full");
                false
            }
            Outcome::Done(Err(e)) => return self.wrong("refused", format!("snapshot as {fmt:?} failed: {e}")),
            Outcome::Oom if fired => {
                self.rep.fault("allocation refused");
                false
            }
            o => return self.wrong("panic", format!("snapshot as {fmt:?}: {}", crate::arr::desc(&o))),
        };
        let whole = bytes.len();
        // the tail of what was written may still be in memory when the process dies
        let dies = w.crash.is_some();
        if dies && w.lost > 0 {
            bytes.truncate(whole.saturating_sub(w.lost as usize));
            self.rep.fault("torn snapshot");
        }
        self.disk[to] = File {
            complete: ok && bytes.len() == whole,
            bytes,
            fmt: Some(fmt),
            seq: self.seq,
            twin: self.twin.clone(),
            exact,
            loose: self.loose.clone(),
        };
        if dies {
            self.restart(&w.again)
        }
    }

    fn restart(&mut self, r: &Read) {
        // the process is gone
        let old = std::mem::take(&mut self.sub);
        go(None, Plan::default(), move || drop(old));
        self.h = r.h;
        self.rep.fault("crash");
        let mut best: Option<(usize, Snap)> = None;
        for k in 0..2 {
            let Some(fmt) = self.disk[k].fmt else { continue };
            // interrupted by faults at first, then again without
            for faults in [true, false] {
                let f = &self.disk[k];
                let mut stat = Stat { budget: 0, ..Default::default() };
                let p = Read { eio: if faults { r.eio } else { None }, ..r.clone() };
                let mut reader = Rd { p: &p, b: &f.bytes, at: 0, calls: 0, eio: p.eio, stat: &mut stat };
                let plan = Plan { fail_at: if faults { r.oom } else { None }, sticky: false };
                let (o, fired, allocs) = go(Some(r.h), plan, || read(fmt, &mut reader));
                self.rep.ops += 1;
                self.rep.sim_nanos += stat.nanos + 1_000_000;
                self.rep.add("fault:short read", stat.short);
                self.rep.add("fault:interrupted read", stat.eintr);
                self.rep.add("fault:read error", stat.eio);
                self.rep.fired += (stat.short > 0) as u64 + (stat.eintr > 0) as u64 + (stat.eio > 0) as u64;
                self.rep.sig(("restore", fmt, o.kind(), f.complete, stat.eio > 0));
                self.rep.see((o.kind(), allocs, fired));
                let what = format!("{fmt:?} snapshot {} ({} bytes{})", f.seq, f.bytes.len(), if f.complete { "" } else { ", tail lost" });
                match o {
                    Outcome::Done(Ok(s)) => {
                        if !f.complete {
                            return self.wrong("torn-accepted", format!("{what} was restored"));
                        }
                        if s.seq != f.seq || s.items.len() != SLOTS {
                            return self.wrong("differs", format!("{what} yields sequence number {}", s.seq));
                        }
                        if best.as_ref().map_or(true, |b| b.1.seq < s.seq) {
                            best = Some((k, s));
                        }
                        break;
                    }
                    Outcome::Done(Err(e)) => {
                        if f.complete && stat.eio == 0 && !fired {
                            return self.wrong("refused", format!("complete {what} is refused: {e}"));
                        }
                        if !f.complete {
                            self.rep.count("probe:snapshot with lost tail refused");
                        }
                    }
                    Outcome::Oom if fired => self.rep.fault("allocation refused"),
                    o => return self.wrong("panic", format!("restoring {what}: {}", crate::arr::desc(&o))),
                }
            }
        }
        self.restores += 1;
        match best {
            None => {
                self.sub = (0..SLOTS).map(|_| None).collect();
                self.twin = (0..SLOTS).map(|_| None).collect();
                self.loose = vec![false; SLOTS];
                self.rep.count("probe:restart without any complete snapshot");
            }
            Some((k, s)) => {
                self.rep.count("probe:restored");
                let f = &self.disk[k];
                self.twin = f.twin.clone();
                self.loose = f.loose.clone();
                let exact = f.exact.clone();
                self.sub = s.items;
                for j in 0..SLOTS {
                    let now = self.sub[j].as_ref().map(|i| look(i, &self.pool, true));
                    if now != exact[j] {
                        let t = |x: &Option<String>| short(x.as_deref().unwrap_or("nothing"));
                        let msg = format!("slot {j} restored from {:?} is {}\nit was {}", f.fmt.unwrap(), t(&now), t(&exact[j]));
                        return self.wrong("differs", msg);
                    }
                }
                self.compare_with_twin("after restart");
            }
        }
    }
}
