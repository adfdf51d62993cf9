//! C04: the barrier.

use super::programs;
use crate::gen::{self, SEC, US};
use crate::mpc::{self, Transport};
use crate::prop::Prop;
use crate::run::{nap, take_all, Env, Res};
use crate::{ensure, fail};
use scalable_mpc::protocol::network::{message_from_each_party, sync, Recipient, SendMessage};
use serde::{Deserialize, Serialize};
use simrt::rng::Rng;
use simrt::Cfg;
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Sc {
    cfg: Cfg,
    n: u32,
    tr: Transport,
    reps: u32,
    /// Contexts of the rounds run between two barriers, reused in every repetition.
    rounds: u32,
    /// How the round of one context works: 0 everyone to everyone, 1 everyone to a leader who
    /// answers all.
    style: u32,
    /// Work between the phases, per (party, repetition, phase).
    work: Vec<u64>,
    /// A party that never enters the last barrier.
    absent: Option<u32>,
    /// Context id of the barrier.
    #[serde(default)]
    id: Vec<u8>,
    /// Instead: repetitions of a benchmark program, which have barriers between them.
    #[serde(default)]
    prog: Option<programs::Sc>,
}

pub struct Barrier;

fn word(p: u32, r: u32, c: u32, x: u32) -> Vec<u8> {
    [p, r, c, x].iter().flat_map(|v| v.to_le_bytes()).collect()
}

type Log = Arc<Mutex<Vec<(u64, u32, u32, bool)>>>;

impl Prop for Barrier {
    type Sc = Sc;
    const ID: &'static str = "C04";
    const QUICK: u64 = 120_000;
    const RULE: &'static str = "a case is a party count, transport, number of repetitions of barrier + rounds on reused context ids, work times per party and phase, possibly one party that stays out of the last barrier, and a world with scheduling, latency, stalls and pauses; or two to five repetitions of a whole benchmark program; it is non-trivial when two or more parties pass two or more repetitions with rounds between them, or one stays out";
    const REAL: &'static str = "sync, message_from_each_party, receive routing, local and TCP networks; in one case of 600 the whole benchmark programs";
    const STUB: &'static str = "executor, clock, TCP sockets; entropy and thread pool of the programs; with transport Links also the network below send/recv";

    fn gen(rng: &mut Rng, k: u64) -> Sc {
        let tr = rng.pick(&[Transport::Links, Transport::Local, Transport::Tcp, Transport::Tcp]);
        let n = gen::parties(rng, k, &[1, 2, 2, 3, 3, 4, 5, 7], if tr == Transport::Tcp { 70 } else { 300 });
        let mut cfg = gen::timing(rng, n);
        if tr == Transport::Tcp {
            gen::stream(rng, &mut cfg);
        }
        gen::benign_faults(rng, &mut cfg, n, 1500);
        let reps = if n > 30 { rng.range(1, 2) } else { rng.range(1, 5) } as u32;
        let p = rng.pick(&[0, 200, 800]);
        let most = rng.pick(&[3, 3, 3, 500]) * SEC;
        let work = (0..n * reps * 2).map(|_| if rng.p(p) { rng.log(US, most) } else { 0 }).collect();
        Sc {
            cfg,
            n,
            tr,
            reps,
            rounds: rng.range(1, 3) as u32,
            style: rng.below(2) as u32,
            work,
            absent: if rng.p(200) { Some(rng.below(n as u64) as u32) } else { None },
            id: match rng.below(4) {
                0 => Vec::new(),
                1 => (0..rng.log(1, 230)).map(|_| rng.next() as u8).filter(|&b| b != b'r').collect(),
                _ => b"sync".to_vec(),
            },
            prog: (k % 300 == 150).then(|| {
                let mut sc = programs::gen_sc(rng, false);
                sc.reps = if sc.reps > 3 { sc.reps.min(5) } else { rng.range(2, 4) as u32 };
                sc.circ.gates.truncate(3);
                sc.circ.outputs = vec![1];
                if rng.p(700) {
                    sc.cfg.faults.clear();
                    let span = rng.pick(&[1000, 4000, 16_000]);
                    gen::stalls(rng, &mut sc.cfg, sc.par.n, span);
                }
                programs::fix_sc(&mut sc);
                sc
            }),
        }
    }

    fn fix(sc: &mut Sc) -> bool {
        if sc.n == 0 || sc.n > 300 || sc.reps == 0 || sc.reps > 30 || sc.rounds > 20 {
            return false;
        }
        if let Some(p) = &mut sc.prog {
            return p.reps <= 10 && programs::fix_sc(p);
        }
        if sc.id.len() > 230 || sc.id.first() == Some(&b'r') {
            return false;
        }
        sc.cfg.starve = sc.cfg.starve.min(sc.n - 1);
        sc.absent = sc.absent.map(|a| a % sc.n);
        // Barriers must alternate with rounds.
        sc.reps == 1 || sc.rounds > 0
    }

    fn run(sc: &Sc, env: &mut Env) -> Res {
        if let Some(p) = &sc.prog {
            env.count("program-runs", 1);
            return programs::all_succeed(p, env);
        }
        let w = env.world(&sc.cfg);
        let log: Log = Arc::default();
        let (sc2, log2, sim) = (sc.clone(), log.clone(), Arc::downgrade(&w.sim));
        let slots = mpc::start(&w, sc.tr, sc.n, true, move |p, net| {
            let (sc, log, sim) = (sc2.clone(), log2.clone(), sim.clone());
            async move {
                let n = sc.n as usize;
                let note = |rep: u32, leave: bool| {
                    let step = sim.upgrade().map_or(0, |s| s.step_no());
                    log.lock().unwrap().push((step, p, rep, leave));
                };
                let work = |r: u32, k: u32| sc.work.get(((p * sc.reps + r) * 2 + k) as usize).copied().unwrap_or(0);
                let mut bad = None;
                for r in 0..sc.reps {
                    nap(work(r, 0)).await;
                    if r + 1 == sc.reps && sc.absent == Some(p) {
                        std::future::pending::<()>().await;
                    }
                    note(r, false);
                    sync(sc.id.clone(), &net, n).await;
                    note(r, true);
                    nap(work(r, 1)).await;
                    let mut tasks = Vec::new();
                    for c in 0..sc.rounds {
                        let net = net.clone();
                        let id = vec![b'r', c as u8];
                        let (style, sn) = (sc.style, sc.n);
                        tasks.push(tokio::spawn(async move {
                            if style == 0 {
                                net.send(SendMessage { proto_id: id.clone(), to: Recipient::All, data: word(p, r, c, 0) });
                                let got = message_from_each_party(id, &net, sn as usize).await;
                                let want: Vec<_> = (0..sn).map(|q| word(q, r, c, 0)).collect();
                                return if got == want { None } else { Some(format!("party {p} repetition {r} context #{c}: round data of another repetition or party")) };
                            }
                            let leader = c % sn;
                            net.send(SendMessage { proto_id: id.clone(), to: Recipient::One(leader as u16), data: word(p, r, c, 1) });
                            if p == leader {
                                let got = message_from_each_party(id.clone(), &net, sn as usize).await;
                                let want: Vec<_> = (0..sn).map(|q| word(q, r, c, 1)).collect();
                                if got != want {
                                    return Some(format!("leader {p} repetition {r} context #{c}: data of another repetition"));
                                }
                                net.send(SendMessage { proto_id: id.clone(), to: Recipient::All, data: word(p, r, c, 2) });
                            }
                            let m = net.recv(id).await;
                            if m.data != word(leader, r, c, 2) {
                                return Some(format!("party {p} repetition {r} context #{c}: answer of another repetition"));
                            }
                            None
                        }));
                    }
                    for t in tasks {
                        match t.await {
                            Ok(None) => {}
                            Ok(Some(m)) => bad = bad.or(Some(m)),
                            Err(_) => bad = bad.or(Some("round panicked".into())),
                        }
                    }
                }
                // The handle stays until everyone is done.
                (net, bad)
            }
        })?;
        let stop = w.run();
        w.no_panics()?;
        ensure!(stop == simrt::Stop::Quiescent, "no-progress", "stopped by {stop:?}");
        let mut entered = vec![0u32; sc.reps as usize];
        let mut left = vec![0u32; sc.reps as usize];
        for &(step, p, r, leave) in log.lock().unwrap().iter() {
            if leave {
                ensure!(
                    entered[r as usize] == sc.n,
                    "early-release",
                    "party {p} left barrier {r} at step {step} when only {} of {} parties had entered",
                    entered[r as usize],
                    sc.n
                );
                left[r as usize] += 1;
                env.checked(1);
            } else {
                entered[r as usize] += 1;
            }
        }
        if sc.absent.is_some() {
            let last = sc.reps as usize - 1;
            ensure!(entered[last] == sc.n - 1, "blocked", "only {} of {} parties reached the last barrier", entered[last], sc.n - 1);
            ensure!(left[last] == 0, "early-release", "{} parties left a barrier one party never entered", left[last]);
        } else {
            let outs = take_all(&slots, "barriers and rounds")?;
            for (_, bad) in outs {
                if let Some(m) = bad {
                    fail!("mixed-repetitions", "{m}");
                }
            }
        }
        env.out.nontrivial = sc.n >= 2 && ((sc.reps >= 2 && sc.rounds > 0) || sc.absent.is_some()) && w.sim.lock().polls_multi > 0;
        env.out.sample = format!("n={} {:?} repetitions={} rounds={} style={} absent={:?}", sc.n, sc.tr, sc.reps, sc.rounds, sc.style, sc.absent);
        env.cover(&[sc.n as u64, sc.tr as u64, sc.reps as u64, sc.rounds as u64, sc.style as u64]);
        env.done(w);
        Ok(())
    }
}
