//! One run: a scenario executed in one or more simulated worlds, and what came of it.

use serde::{Deserialize, Serialize};
use simrt::choice::{Source, KINDS};
use simrt::rng::{mix, Rng};
use simrt::{Cfg, Enter, PanicRec, Sim, Stop, NO_NODE};
use std::collections::{BTreeMap, BTreeSet};
use std::future::Future;
use std::path::PathBuf;
use std::sync::{Arc, Mutex};

/// A property violation: `kind` says which demand was broken, `msg` how.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Fail {
    pub kind: String,
    pub msg: String,
}

pub type Res<T = ()> = Result<T, Fail>;

#[macro_export]
macro_rules! fail {
    ($kind:expr, $($a:tt)*) => {
        return Err($crate::run::Fail { kind: ($kind).to_string(), msg: format!($($a)*) })
    };
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $kind:expr, $($a:tt)*) => {
        if !$c { $crate::fail!($kind, $($a)*) }
    };
}

pub type Decisions = Vec<Vec<(u64, u32)>>;

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct RunOut {
    pub fail: Option<Fail>,
    /// Failures matching a recorded finding.
    pub worlds: u64,
    pub steps: u64,
    pub polls_multi: u64,
    pub sim_ns: u64,
    pub decisions: u64,
    pub counters: BTreeMap<String, u64>,
    pub kinds: [u64; KINDS],
    pub kinds_nonzero: [u64; KINDS],
    pub trace: u64,
    /// Oracle comparisons made.
    pub checks: u64,
    pub nontrivial: bool,
    pub faulty: bool,
    pub cover: BTreeSet<u64>,
    pub sample: String,
    #[serde(skip)]
    pub logs: Decisions,
    pub log_text: Vec<String>,
}

pub struct Env {
    seed: u64,
    replay: Option<Decisions>,
    pub out: RunOut,
    pub scratch: PathBuf,
    pub tracing: bool,
    pub rng: Rng,
    sims: Vec<Arc<Sim>>,
}

impl Env {
    pub fn new(seed: u64, replay: Option<Decisions>, scratch: PathBuf, tracing: bool) -> Self {
        // Some randomness is drawn once per thread; the first world shall not pay for it.
        {
            let sim = Sim::new(Cfg::default(), Source::Replay(Default::default(), 0), mix(seed, 78));
            let _enter = sim.enter();
            std::hint::black_box(std::collections::hash_map::RandomState::new());
            std::hint::black_box(rand::thread_rng());
        }
        Env {
            seed,
            replay,
            out: RunOut::default(),
            scratch,
            tracing,
            rng: Rng::stream(seed, "env"),
            sims: Vec::new(),
        }
    }

    /// A fresh world.  Its entropy depends on the run's seed and `salt` only.
    pub fn world_salt(&mut self, cfg: &Cfg, salt: u64) -> World {
        let k = self.out.worlds;
        self.world_as(cfg, salt, k)
    }

    /// The same, deciding everything as any other world with the same `stream`.
    pub fn world_as(&mut self, cfg: &Cfg, salt: u64, stream: u64) -> World {
        let k = self.out.worlds;
        self.out.worlds += 1;
        let src = match &self.replay {
            Some(d) => Source::Replay(d.get(k as usize).cloned().unwrap_or_default(), 0),
            None => Source::Random(Rng::stream(mix(self.seed, stream), "decisions")),
        };
        let sim = Sim::new(cfg.clone(), src, mix(mix(self.seed, 77), salt));
        if self.tracing {
            sim.lock().trace = Some(Vec::new());
        }
        self.sims.push(sim.clone());
        let enter = sim.enter();
        World { sim, _enter: Some(enter) }
    }

    pub fn world(&mut self, cfg: &Cfg) -> World {
        let k = self.out.worlds;
        self.world_salt(cfg, k)
    }

    /// Ends a world.
    pub fn done(&mut self, w: World) {
        drop(w);
    }

    /// Books all worlds of the run.
    pub fn finish(&mut self) {
        for sim in std::mem::take(&mut self.sims) {
            self.book(&sim);
        }
    }

    fn book(&mut self, sim: &Arc<Sim>) {
        let mut st = sim.lock();
        let o = &mut self.out;
        o.steps += st.steps;
        o.polls_multi += st.polls_multi;
        o.sim_ns += sim.now();
        o.decisions += st.choice.total();
        for (k, v) in st.counters.map.iter() {
            *o.counters.entry(k.to_string()).or_insert(0) += v;
        }
        for i in 0..KINDS {
            o.kinds[i] += st.choice.counts[i];
            o.kinds_nonzero[i] += st.choice.nonzero[i];
        }
        o.trace = mix(o.trace, st.trace_hash);
        o.logs.push(st.choice.log.iter().map(|&(i, _, v)| (i, v)).collect());
        if let Some(t) = st.trace.take() {
            o.log_text.push(format!("--- world {}", o.logs.len() - 1));
            o.log_text.extend(t);
        }
        drop(st);
        let fs = sim.fs.lock().unwrap_or_else(|e| e.into_inner());
        if fs.failures > 0 {
            *o.counters.entry("file-io-failed".into()).or_insert(0) += fs.failures;
        }
    }

    pub fn cover(&mut self, key: &[u64]) {
        let mut h = 0x1234;
        for &k in key {
            h = mix(h, k);
        }
        if self.out.cover.len() < 64 {
            self.out.cover.insert(h);
        }
    }

    pub fn count(&mut self, k: &str, v: u64) {
        *self.out.counters.entry(k.to_string()).or_insert(0) += v;
    }

    pub fn checked(&mut self, n: u64) {
        self.out.checks += n;
    }
}

pub struct World {
    pub sim: Arc<Sim>,
    _enter: Option<Enter>,
}

impl Drop for World {
    fn drop(&mut self) {
        self.sim.shutdown();
    }
}

pub type Slot<T> = Arc<Mutex<Option<T>>>;

impl World {
    /// Runs `f` as a task of party `node`; the slot is filled when it finishes.
    pub fn party<T: Send + 'static>(
        &self,
        node: u32,
        f: impl Future<Output = T> + Send + 'static,
    ) -> Slot<T> {
        let slot: Slot<T> = Arc::new(Mutex::new(None));
        let s = slot.clone();
        self.sim.spawn_on(
            node,
            Box::pin(async move {
                let v = f.await;
                *s.lock().unwrap() = Some(v);
            }),
        );
        slot
    }

    pub fn outer<T: Send + 'static>(&self, f: impl Future<Output = T> + Send + 'static) -> Slot<T> {
        self.party(NO_NODE, f)
    }

    pub fn run(&self) -> Stop {
        self.sim.run()
    }

    pub fn panics(&self) -> Vec<PanicRec> {
        self.sim.panics.lock().unwrap_or_else(|e| e.into_inner()).clone()
    }

    /// No simulated code may have panicked.
    pub fn no_panics(&self) -> Res {
        match self.panics().first() {
            None => Ok(()),
            Some(p) => fail!(
                "panic",
                "party {} panicked at {}: {}",
                p.node as i32,
                p.loc,
                p.msg.chars().take(200).collect::<String>()
            ),
        }
    }

    /// Runs to the end, demanding that nothing panics and no limit is hit.
    pub fn run_clean(&self) -> Res {
        let stop = self.run();
        self.no_panics()?;
        ensure!(
            stop == Stop::Quiescent,
            "no-progress",
            "stopped by {:?} after {} steps, {} ns",
            stop,
            self.sim.lock().steps,
            self.sim.now()
        );
        Ok(())
    }
}

pub fn take<T>(s: &Slot<T>) -> Option<T> {
    s.lock().unwrap().take()
}

/// Takes every party's result or reports who never finished.
pub fn take_all<T>(slots: &[Slot<T>], what: &str) -> Res<Vec<T>> {
    let got: Vec<Option<T>> = slots.iter().map(take).collect();
    let missing: Vec<usize> = (0..got.len()).filter(|&i| got[i].is_none()).collect();
    ensure!(missing.is_empty(), "blocked", "{what}: no result at {missing:?} although nothing is left to happen");
    Ok(got.into_iter().map(|x| x.unwrap()).collect())
}

pub async fn nap(ns: u64) {
    if ns > 0 {
        tokio::time::sleep(std::time::Duration::from_nanos(ns)).await
    }
}
