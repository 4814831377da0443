mod arr;
mod prog;
mod mem;
mod keys;
mod text;
mod iso;
mod snap;
mod store;
mod int;
mod bv;
mod child;
mod plan;
mod rep;
mod shrink;
mod worlds;

use child::End;
use serde_json::{json, Value as J};
use std::collections::{BTreeMap, BTreeSet};
use std::time::Instant;

#[global_allocator]
static GLOBAL: simrt::SimAlloc = simrt::SimAlloc;

fn args() -> BTreeMap<String, String> {
    let mut m = BTreeMap::new();
    let mut it = std::env::args().skip(2);
    while let Some(k) = it.next() {
        m.insert(k.trim_start_matches('-').to_string(), it.next().unwrap_or_default());
    }
    m
}

/// one seed per run
fn run_seed(prop: &str, seed: u64, idx: u64) -> u64 {
    let p = prop.bytes().fold(0u64, |a, b| a * 257 + b as u64);
    simrt::rng::mix(simrt::rng::mix(seed, p), idx)
}

fn fixed_addresses() {
    // best effort: the same addresses in every process
    unsafe {
        let p = libc::personality(0xffff_ffff);
        if p >= 0 && p & libc::ADDR_NO_RANDOMIZE == 0 && std::env::var_os("SIM_REEXEC").is_none() {
            if libc::personality((p | libc::ADDR_NO_RANDOMIZE) as _) >= 0 {
                std::env::set_var("SIM_REEXEC", "1");
                use std::os::unix::process::CommandExt;
                let _ = std::process::Command::new("/proc/self/exe").args(std::env::args().skip(1)).exec();
            }
        }
    }
}

fn main() {
    fixed_addresses();
    simrt::init();
    let cmd = std::env::args().nth(1).unwrap_or_default();
    let a = args();
    let num = |k: &str, d: u64| a.get(k).map_or(d, |v| v.parse().unwrap_or_else(|_| panic!("bad --{k}")));
    let prop = a.get("prop").cloned().unwrap_or_default();
    match cmd.as_str() {
        "worker" => worker(&prop, num("seed", 1), num("from", 0), num("count", 100), num("stride", 1), num("long", 0) == 1, num("secs", 600)),
        "gen" => println!("{}", serde_json::to_string_pretty(&worlds::gen(&prop, run_seed(&prop, num("seed", 1), num("idx", 0)), num("long", 0) == 1)).unwrap()),
        "shrink" => {
            let j: J = serde_json::from_slice(&std::fs::read(&a["in"]).unwrap()).unwrap();
            let scn = j["scenario"].clone();
            let prop = j["property"].as_str().unwrap().to_string();
            let End::Report(r) = child::run_isolated(&prop, &scn) else { panic!("cannot run the scenario") };
            if r.viol.is_none() {
                println!("{}", json!({"reproduced": false}));
                std::process::exit(3);
            }
            let before = scn.to_string().len();
            let (scn, r) = match r.pinned.clone() {
                // a schedule found by random pre-emption becomes an explicit one
                Some(p) => match child::run_isolated(&prop, &p) {
                    End::Report(q) if q.viol.is_some() => (p, q),
                    _ => (scn, r),
                },
                None => (scn, r),
            };
            let (best, rep, tries) = shrink::Shrinker::new(&prop, scn, r, num("secs", 60)).run();
            let mut o = j.clone();
            o["scenario"] = best.clone();
            o["violation"] = json!(rep.viol);
            o["trace"] = json!(format!("{:016x}", rep.trace));
            o["shrink"] = json!({"tries": tries, "bytes_before": before, "bytes_after": best.to_string().len()});
            println!("{}", serde_json::to_string_pretty(&o).unwrap());
        }
        "replay" => {
            let j: J = serde_json::from_slice(&std::fs::read(&a["in"]).unwrap()).unwrap();
            let prop = j["property"].as_str().unwrap().to_string();
            match child::run_isolated(&prop, &j["scenario"]) {
                End::Report(r) => {
                    let same = j["trace"].as_str().map_or(true, |t| t == format!("{:016x}", r.trace));
                    println!("{}", json!({"violation": r.viol, "known": r.known, "same_trace": same}));
                    std::process::exit(r.viol.is_some() as i32);
                }
                End::Invalid => panic!("not a scenario"),
                End::Harness(e) => panic!("{e}"),
            }
        }
        // runs every seed twice and compares what was observed
        "selftest" => {
            let (mut n, mut bad) = (0, 0);
            for idx in num("from", 0)..num("from", 0) + num("count", 200) {
                let scn = worlds::gen(&prop, run_seed(&prop, num("seed", 1), idx), false);
                let text = scn.to_string();
                let scn2: J = serde_json::from_str(&text).unwrap();
                let f = |s: &J| match child::run_isolated(&prop, s) {
                    End::Report(r) => serde_json::to_string(&r).unwrap(),
                    End::Invalid => "invalid".into(),
                    End::Harness(e) => e,
                };
                let (x, y) = (f(&scn), f(&scn2));
                n += 1;
                if x != y {
                    bad += 1;
                    if bad < 4 {
                        println!("seed {idx} differs:\n{x}\n{y}");
                    }
                }
            }
            println!("{n} seeds executed twice, {bad} differ");
            std::process::exit((bad > 0) as i32);
        }
        _ => {
            eprintln!("usage: sim worker|gen|shrink|replay|selftest ...");
            std::process::exit(2);
        }
    }
}

fn worker(prop: &str, seed: u64, from: u64, count: u64, stride: u64, long: bool, secs: u64) {
    let t0 = Instant::now();
    let mut runs = 0u64;
    let mut ops = 0;
    let mut fired = 0;
    let mut faulty = 0;
    let mut nanos = 0;
    let mut counts: BTreeMap<String, u64> = BTreeMap::new();
    let mut known: BTreeMap<String, String> = BTreeMap::new();
    let mut sigs = BTreeSet::new();
    let mut nontrivial = BTreeSet::new();
    let mut samples = vec![];
    let mut viol = J::Null;
    let mut err = J::Null;
    let mut skipped = 0;
    let mut i = from;
    while i < from + count * stride {
        if t0.elapsed().as_secs() >= secs {
            skipped = (from + count * stride - i) / stride;
            break;
        }
        let s = run_seed(prop, seed, i);
        let scn = worlds::gen(prop, s, long);
        match child::run_isolated(prop, &scn) {
            End::Report(r) => {
                runs += 1;
                ops += r.ops;
                fired += r.fired;
                faulty += (r.fired > 0) as u64;
                nanos += r.sim_nanos;
                for (k, v) in &r.counts {
                    *counts.entry(k.clone()).or_default() += v;
                }
                for (k, v) in &r.known {
                    known.entry(k.clone()).or_insert(v.clone());
                }
                sigs.insert(r.sig);
                if r.ops >= 3 {
                    nontrivial.insert(r.sig);
                }
                if samples.len() < 2 && r.fired > 0 && scn.to_string().len() < 3000 {
                    samples.push(json!({"run": i, "seed": format!("{s:016x}"), "operations": r.ops, "faults": r.fired, "scenario": scn}));
                }
                if let Some(v) = &r.viol {
                    viol = json!({"property": prop, "base_seed": seed, "run": i, "seed": format!("{s:016x}"), "violation": v, "scenario": scn});
                    break;
                }
            }
            End::Invalid => {
                err = json!(format!("run {i}: scenario does not survive serialisation"));
                break;
            }
            End::Harness(e) => {
                err = json!(format!("run {i}: {e}"));
                break;
            }
        }
        i += stride;
    }
    let edges = simrt::edges_total();
    println!(
        "{}",
        json!({"runs": runs, "ops": ops, "fired": fired, "faulty_runs": faulty, "sim_nanos": nanos, "counts": counts, "known": known,
            "sigs": sigs.iter().map(|s| format!("{s:016x}")).collect::<Vec<_>>(),
            "nontrivial_sigs": nontrivial.iter().map(|s| format!("{s:016x}")).collect::<Vec<_>>(), "samples": samples, "violation": viol, "error": err, "skipped": skipped,
            "wall": t0.elapsed().as_secs_f64(), "edges_total": edges, "debug_assertions": cfg!(debug_assertions)})
    );
}
