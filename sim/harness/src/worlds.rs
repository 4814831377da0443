//! Dispatch from property to simulated world. Scenarios travel as JSON.
use crate::rep::Rep;
use serde_json::Value as J;
use simrt::rng::Rng;


pub fn gen(prop: &str, seed: u64, long: bool) -> J {
    let mut r = Rng::new(seed);
    let r = &mut r;
    match prop {
        "C01" | "C02" | "C03" | "C04" => serde_json::to_value(crate::arr::gen(prop, r, long)),
        "C05" | "C06" => serde_json::to_value(crate::int::gen(prop, r, long)),
        "C07" | "C08" => serde_json::to_value(crate::store::gen(prop, r, long)),
        "C09" => serde_json::to_value(crate::snap::gen(prop, r, long)),
        "C10" => serde_json::to_value(crate::iso::gen(prop, r, long)),
        "C11" => serde_json::to_value(crate::text::gen(prop, r, long)),
        "C12" => serde_json::to_value(crate::keys::gen(prop, r, long)),
        "C13" => serde_json::to_value(crate::mem::gen(prop, r, long)),
        "C14" => serde_json::to_value(crate::prog::gen(prop, r, long)),
        _ => panic!("unknown property {prop}"),
    }
    .unwrap()
}

/// None: not a scenario of this world (shrinking produces such candidates).
pub fn run(prop: &str, scn: &J, rep: &mut Rep) -> Option<()> {
    simrt::BUDGET.store(64 << 20, std::sync::atomic::Ordering::Relaxed);
    fn p<T: serde::de::DeserializeOwned>(j: &J) -> Option<T> {
        T::deserialize(j).ok()
    }
    match prop {
        "C01" | "C02" | "C03" | "C04" => {
            let s: crate::arr::Scn = p(scn)?;
            simrt::with_hash_seed(s.hash, || crate::arr::run(prop, &s, rep));
        }
        "C05" | "C06" => {
            let s: crate::int::Scn = p(scn)?;
            simrt::with_hash_seed(s.hash, || crate::int::run(prop, &s, rep));
        }
        "C07" | "C08" => {
            let s: crate::store::Scn = p(scn)?;
            simrt::with_hash_seed(s.hash, || crate::store::run(prop, &s, rep));
        }
        "C09" => {
            let s: crate::snap::Scn = p(scn)?;
            simrt::with_hash_seed(s.hash, || crate::snap::run(prop, &s, rep));
        }
        "C10" => {
            let s: crate::iso::Scn = p(scn)?;
            simrt::with_hash_seed(s.hash, || crate::iso::run(prop, &s, rep));
        }
        "C11" => {
            let s: crate::text::Scn = p(scn)?;
            simrt::with_hash_seed(s.hash, || crate::text::run(prop, &s, rep));
        }
        "C12" => {
            let s: crate::keys::Scn = p(scn)?;
            simrt::with_hash_seed(s.hash, || crate::keys::run(prop, &s, rep));
        }
        "C13" => {
            let s: crate::mem::Scn = p(scn)?;
            simrt::with_hash_seed(s.hash, || crate::mem::run(prop, &s, rep));
        }
        "C14" => {
            let s: crate::prog::Scn = p(scn)?;
            simrt::with_hash_seed(s.hash, || crate::prog::run(prop, &s, rep));
        }
        _ => return None,
    }
    Some(())
}
