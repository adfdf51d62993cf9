//! What a property's check consists of, and type-erased access to it.

use crate::run::{Decisions, Env, Fail, Res, RunOut};
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::Value;
use simrt::rng::{mix, Rng};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;

pub trait Prop: 'static {
    type Sc: Serialize + DeserializeOwned + Clone + Send + 'static;
    const ID: &'static str;
    /// Runs of the quick tier.
    const QUICK: u64;
    /// How cases are made and what makes one non-trivial.
    const RULE: &'static str;
    const REAL: &'static str;
    const STUB: &'static str;

    /// The k-th scenario of a series; `big` asks for an expensive one.
    fn gen(rng: &mut Rng, k: u64) -> Self::Sc;
    /// Brings a shrunk scenario back into the valid range.
    fn fix(_sc: &mut Self::Sc) -> bool {
        true
    }
    fn run(sc: &Self::Sc, env: &mut Env) -> Res;
}

pub struct Entry {
    pub id: &'static str,
    pub quick: u64,
    pub rule: &'static str,
    pub real: &'static str,
    pub stub: &'static str,
    pub gen: fn(u64, u64) -> Value,
    pub fix: fn(&Value) -> Option<Value>,
    pub run: fn(&Value, u64, Option<Decisions>, PathBuf, bool) -> RunOut,
}

pub fn seed_of(base: u64, id: &str, k: u64) -> u64 {
    let mut h = mix(0x70_70, base);
    for b in id.bytes() {
        h = mix(h, b as u64);
    }
    mix(h, k) >> 1
}

pub const fn entry<P: Prop>() -> Entry {
    Entry {
        id: P::ID,
        quick: P::QUICK,
        rule: P::RULE,
        real: P::REAL,
        stub: P::STUB,
        gen: |seed, k| {
            serde_json::to_value(P::gen(&mut Rng::stream(seed, "scenario"), k)).unwrap()
        },
        fix: |v| {
            let mut sc: P::Sc = serde_json::from_value(v.clone()).ok()?;
            if P::fix(&mut sc) {
                serde_json::to_value(sc).ok()
            } else {
                None
            }
        },
        run: |v, seed, replay, scratch, tracing| {
            let sc: P::Sc = serde_json::from_value(v.clone()).expect("scenario");
            on_thread(move || {
                let mut env = Env::new(seed, replay, scratch, tracing);
                let res = catch_unwind(AssertUnwindSafe(|| P::run(&sc, &mut env)));
                match res {
                    Ok(Ok(())) => {}
                    Ok(Err(f)) => env.out.fail = Some(f),
                    Err(p) => {
                        let msg = p
                            .downcast_ref::<String>()
                            .cloned()
                            .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                            .unwrap_or_default();
                        // A panic in our own code is our error, one in the code under test is not.
                        let loc = simrt::last_panic();
                        let ours = loc.starts_with("src/") || loc.contains("/verif/sim/") || loc.is_empty();
                        let kind = if ours { "harness" } else { "panic" };
                        env.out.fail = Some(Fail { kind: kind.into(), msg: format!("at {loc}: {msg}") });
                    }
                }
                env.finish();
                env.out
            })
        },
    }
}

/// Each run has a thread of its own, so that no thread-local state carries over.
fn on_thread<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
    std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(f)
        .unwrap()
        .join()
        .unwrap_or_else(|_| panic!("run thread died"))
}
