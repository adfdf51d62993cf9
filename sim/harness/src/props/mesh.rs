//! C02: the full mesh forms and every link is bound to the right peer.

use crate::ensure;
use crate::gen::{self, MS, SEC, US};
use crate::nets::{self, NetKind};
use crate::prop::Prop;
use crate::run::{take_all, Env, Res};
use scalable_mpc::protocol::network::{Recipient, SendMessage};
use serde::{Deserialize, Serialize};
use simrt::rng::Rng;
use simrt::Cfg;
use std::collections::BTreeSet;
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Sc {
    cfg: Cfg,
    n: u32,
    net: NetKind,
    /// When each party starts.
    start: Vec<u64>,
    /// Broadcast instead of one message per peer.
    all: bool,
}

pub struct Mesh;

impl Prop for Mesh {
    type Sc = Sc;
    const ID: &'static str = "C02";
    const QUICK: u64 = 120_000;
    const RULE: &'static str = "a case is a party count, start time per party and a world with refused, lost and slow connection attempts, latency, scheduling and stalls; it is non-trivial when at least two parties form a network over simulated TCP and at least one connection attempt was refused or delayed or the scheduler had a choice";
    const REAL: &'static str = "setup_tcp_network / setup_local_network, connect loop, accept loop, per-peer tasks, send, recv";
    const STUB: &'static str = "executor, clock, TCP sockets (simulated)";

    fn gen(rng: &mut Rng, k: u64) -> Sc {
        let n = match k % 400 {
            // Ids beyond one byte.
            15 if k % 20_000 == 15 => rng.range(257, 262),
            13 => rng.range(40, 70),
            14 => rng.range(16, 40),
            _ => rng.pick(&[1, 2, 2, 3, 3, 4, 4, 5, 6, 8, 10]),
        } as u32;
        let net = rng.pick(&[NetKind::Tcp, NetKind::Tcp, NetKind::Tcp, NetKind::TcpLocalhost, NetKind::Local]);
        let mut cfg = gen::timing(rng, n);
        if n <= 16 {
            gen::stream(rng, &mut cfg);
        }
        cfg.connect_p = rng.pick(&[0, 100, 400, 800]);
        gen::benign_faults(rng, &mut cfg, n, 200);
        let style = rng.below(5);
        let mut start: Vec<u64> = (0..n)
            .map(|i| match style {
                0 => 0,
                1 => rng.below(50 * US),
                2 => rng.log(1, 5 * SEC),
                3 => (n - i) as u64 * rng.pick(&[10 * US, 300 * MS, 1100 * MS]),
                _ => i as u64 * rng.pick(&[10 * US, 300 * MS, 1100 * MS]),
            })
            .collect();
        if n <= 16 && rng.p(60) {
            let p = rng.below(n as u64) as usize;
            start[p] = rng.log(10 * SEC, 2500 * SEC);
        }
        Sc { cfg, n, net, start, all: rng.p(300) }
    }

    fn fix(sc: &mut Sc) -> bool {
        if sc.n == 0 || sc.n > 600 {
            return false;
        }
        sc.cfg.starve = sc.cfg.starve.min(sc.n - 1);
        true
    }

    fn run(sc: &Sc, env: &mut Env) -> Res {
        let w = env.world(&sc.cfg);
        let n = sc.n;
        let up: Arc<Mutex<Vec<u64>>> = Arc::default();
        let (sc2, up2, sim) = (sc.clone(), up.clone(), w.sim.clone());
        let sim = Arc::downgrade(&sim);
        // Every party greets every other one; the greeting names sender and addressee.
        let slots = nets::start(&w, sc.net, n, &sc.start, move |p, _stats, net| {
            let sc = sc2.clone();
            if let Some(s) = sim.upgrade() {
                up2.lock().unwrap().push(s.now());
            }
            async move {
                for to in 0..sc.n {
                    net.send(SendMessage {
                        proto_id: b"hello".to_vec(),
                        to: if sc.all { Recipient::All } else { Recipient::One(to as u16) },
                        data: [p.to_le_bytes(), if sc.all { [9; 4] } else { to.to_le_bytes() }].concat(),
                    });
                    if sc.all {
                        break;
                    }
                }
                let mut got = Vec::new();
                for _ in 0..sc.n {
                    let m = net.recv(b"hello".to_vec()).await;
                    got.push((m.from as u32, m.data));
                }
                (net, got)
            }
        });
        w.run_clean()?;
        let outs = take_all(&slots, "network setup and one greeting each")?;
        for (p, (_net, got)) in outs.iter().enumerate() {
            let mut seen = BTreeSet::new();
            for (from, data) in got {
                let a = u32::from_le_bytes(data[..4].try_into().unwrap());
                let b = u32::from_le_bytes(data[4..].try_into().unwrap());
                ensure!(*from == a, "wrong-peer", "party {p} got the greeting of {a} marked as from {from}");
                ensure!(sc.all || b as usize == p, "wrong-addressee", "the greeting of {a} for {b} arrived at {p}");
                ensure!(seen.insert(a), "duplicate", "party {p} got two greetings of {a}");
                env.checked(1);
            }
        }
        // Refused attempts are repeated after a second each; lost ones by the peer's clock.
        let last_start = sc.start.iter().max().copied().unwrap_or(0);
        let held: u64 = sc
            .cfg
            .faults
            .iter()
            .map(|f| match f.kind {
                simrt::FaultKind::Pause { ns, .. } | simrt::FaultKind::Stall { ns, .. } | simrt::FaultKind::Isolate { ns, .. } => ns,
                _ => 0,
            })
            .sum();
        let refused = w.sim.lock().counters.map.iter().filter(|(k, _)| k.contains("refused")).map(|(_, v)| *v).sum::<u64>();
        let worst = up.lock().unwrap().iter().max().copied().unwrap_or(0);
        let quiet = sc.cfg.connect_p == 0 && sc.cfg.faults.is_empty();
        if sc.net != NetKind::Local && quiet {
            // Nothing was refused at random: one retry per peer after the last one listens.
            let slack = 6 * SEC + 40 * (sc.cfg.lat_max + sc.cfg.lat_min) + w.sim.lock().steps * sc.cfg.step_ns + held;
            ensure!(worst <= last_start + slack, "slow", "the last party started at {last_start} ns but setup ended only at {worst} ns");
        }
        let multi = w.sim.lock().polls_multi;
        env.out.nontrivial = n >= 2 && sc.net != NetKind::Local && (refused > 0 || multi > 0);
        env.out.sample = format!("n={n} {:?} start={:?}", sc.net, &sc.start[..sc.start.len().min(6)]);
        env.cover(&[n as u64, sc.net as u64, refused.min(5)]);
        drop(outs);
        env.done(w);
        Ok(())
    }
}
