//! C01: every message arrives exactly once, intact, in order, correctly attributed.

use crate::gen;
use crate::nets::{self, NetKind};
use crate::prop::Prop;
use crate::run::{nap, Env, Res, World};
use crate::{ensure, fail};
use scalable_mpc::protocol::network::{ReceivedMessage, Recipient, SendMessage};
use serde::{Deserialize, Serialize};
use simrt::rng::Rng;
use simrt::{Cfg, Stop};
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Msg {
    pub from: u32,
    /// None: to everyone.
    pub to: Option<u32>,
    pub id: u32,
    pub len: u32,
    /// Wait before sending this message.
    pub nap: u64,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Sc {
    pub cfg: Cfg,
    pub n: u32,
    pub net: NetKind,
    /// Lengths of the context ids in use.
    pub ids: Vec<u32>,
    pub msgs: Vec<Msg>,
    /// Delay before the receiver of an id starts, per (party, id) index; missing: 0.
    pub late: Vec<u64>,
    /// Send before the network of everyone is known to be up.
    pub early: bool,
    /// One sending task per id instead of one per party.
    pub split: bool,
    pub fill: u8,
}

pub struct Delivery;

/// Distinct ids of the wished lengths; some are prefixes of others.
fn make_ids(lens: &[u32], fill: u8) -> Vec<Vec<u8>> {
    let mut out: Vec<Vec<u8>> = Vec::new();
    for (i, &l) in lens.iter().enumerate() {
        let l = (l as usize).min(255);
        let mut id = vec![fill; l];
        let mut k = i as u64;
        while out.contains(&id) {
            if l == 0 {
                id = vec![i as u8, (i >> 8) as u8, fill];
                break;
            }
            k += 1;
            let p = (k % l as u64) as usize;
            id[p] = id[p].wrapping_add((1 + k / l as u64) as u8);
        }
        while out.contains(&id) {
            id.push(i as u8);
            id.push((i >> 8) as u8);
        }
        out.push(id);
    }
    out
}

fn content(sc: &Sc, k: usize) -> Vec<u8> {
    gen::bytes(0xda7a + k as u64, sc.msgs[k].len as usize)
}

type Got = Arc<Mutex<BTreeMap<(u32, u32), Vec<ReceivedMessage>>>>;

impl Prop for Delivery {
    type Sc = Sc;
    const ID: &'static str = "C01";
    const QUICK: u64 = 60_000;
    const RULE: &'static str = "a case is a party count, transport, set of context ids, list of messages with sizes, recipients and pauses, receive delays and a world (scheduler, yields, select order, latency, segment sizes, socket window, stalls); it is non-trivial when at least two messages cross between two different parties and the scheduler had a choice at least once";
    const REAL: &'static str = "setup_tcp_network / setup_local_network with all their tasks, send, recv; tokio channels, locks, io helpers and select!";
    const STUB: &'static str = "executor, clock, TCP sockets (simulated)";

    fn gen(rng: &mut Rng, k: u64) -> Sc {
        let big = k % 60 == 7;
        let many = k % 200 == 11;
        let net = rng.pick(&[NetKind::Tcp, NetKind::Tcp, NetKind::TcpLocalhost, NetKind::Local]);
        let n = match (many, net) {
            (true, NetKind::Local) => rng.pick(&[64, 100, 256, 257, 300]),
            (true, _) => rng.range(20, 40),
            _ => rng.pick(&[1, 2, 2, 3, 3, 4, 5, 7]),
        } as u32;
        let mut cfg = gen::timing(rng, n);
        if net != NetKind::Local {
            gen::stream(rng, &mut cfg);
        }
        gen::benign_faults(rng, &mut cfg, n, 3000);
        let flood = k % 1000 == 333;
        let wide = k % 500 == 123;
        let huge = k % 4000 == 1013;
        if big || many || flood || wide || huge {
            // Tiny pieces of huge messages only cost time.
            cfg.seg = rng.pick(&[0, 2, 3]);
            cfg.wnd = rng.pick(&[0, 1 << 16, 1 << 20]);
            cfg.yield_p = cfg.yield_p.min(10);
        }
        let ni = match (wide, flood) {
            (true, _) => rng.range(20, 300),
            (_, true) => rng.range(1, 2),
            _ => rng.range(1, 6),
        };
        let ids: Vec<u32> = (0..ni)
            .map(|_| match rng.below(6) {
                0 => 0,
                1 => 1,
                2 => 255,
                3 => rng.range(120, 130) as u32,
                _ => rng.range(1, 40) as u32,
            })
            .collect();
        let nm = match (many, flood, wide, huge) {
            (true, ..) => 60,
            (_, true, ..) => rng.log(1000, 10_000),
            (_, _, true, _) => 400,
            (_, _, _, true) => 2,
            _ => rng.log(1, 50),
        };
        let small = cfg.seg == 1 || (cfg.wnd != 0 && cfg.wnd < 100);
        let focus = rng.p(300);
        let msgs = (0..nm)
            .map(|_| Msg {
                from: if focus && rng.p(800) { 0 } else { rng.below(n as u64) as u32 },
                to: if rng.p(350) { None } else { Some(rng.below(n as u64) as u32) },
                id: rng.below(ni) as u32,
                len: {
                    let l = gen::msg_len(rng, big);
                    match (flood, huge, small) {
                        (true, ..) => l.min(20),
                        (_, true, _) => rng.log(1 << 21, 1 << 25) as u32,
                        (_, _, true) => l.min(400),
                        _ => l,
                    }
                },
                nap: if !flood && rng.p(150) { rng.log(gen::US, 2 * gen::SEC) } else { 0 },
            })
            .collect();
        let late = (0..n * ni as u32)
            .map(|_| if rng.p(if flood { 800 } else { 300 }) { rng.log(gen::US, 5 * gen::SEC) } else { 0 })
            .collect();
        Sc { cfg, n, net, ids, msgs, late, early: rng.p(512), split: rng.p(300), fill: rng.pick(&[0, 0, 255, 7]) }
    }

    fn fix(sc: &mut Sc) -> bool {
        if sc.n == 0 || sc.n > 600 || sc.ids.is_empty() {
            return false;
        }
        let (n, ni) = (sc.n, sc.ids.len() as u32);
        sc.cfg.starve = sc.cfg.starve.min(n - 1);
        sc.msgs.iter_mut().for_each(|m| {
            m.from %= n;
            m.to = m.to.map(|t| t % n);
            m.id %= ni;
        });
        true
    }

    fn run(sc: &Sc, env: &mut Env) -> Res {
        let w = env.world(&sc.cfg);
        let r = exchange(sc, &w)?;
        let multi = w.sim.lock().polls_multi;
        w.no_panics()?;
        ensure!(r.stop == Stop::Quiescent, "no-progress", "stopped by {:?}", r.stop);
        let crossing = compare(sc, &r, false, env)?;
        env.out.nontrivial = crossing >= 2 && multi > 0;
        env.out.sample = format!("n={} {:?} ids={:?} msgs={}", sc.n, sc.net, sc.ids, sc.msgs.len());
        env.cover(&[sc.n as u64, sc.net as u64, sc.ids.len() as u64]);
        env.done(w);
        Ok(())
    }
}

pub struct Exchanged {
    pub stop: Stop,
    ids: Vec<Vec<u8>>,
    /// What every (receiver, id) must get from every sender, in order.
    want: BTreeMap<(u32, u32), BTreeMap<u32, Vec<usize>>>,
    got: BTreeMap<(u32, u32), Vec<ReceivedMessage>>,
}

/// Has every party send its messages and receive all the time.
pub fn exchange(sc: &Sc, w: &World) -> Res<Exchanged> {
    let ids = make_ids(&sc.ids, sc.fill);
    let ni = ids.len();

    let mut want: BTreeMap<(u32, u32), BTreeMap<u32, Vec<usize>>> = BTreeMap::new();
    for (k, m) in sc.msgs.iter().enumerate() {
        for to in 0..sc.n {
            if m.to.is_none() || m.to == Some(to) {
                want.entry((to, m.id)).or_default().entry(m.from).or_default().push(k);
            }
        }
    }

    let got: Got = Arc::default();
    let (sc2, ids2, got2) = (sc.clone(), ids.clone(), got.clone());
    nets::start_at(w, sc.net, sc.n, sc.early, move |p, _stats, net| {
        let (sc, ids, got) = (sc2.clone(), ids2.clone(), got2.clone());
        async move {
            let mut plans: Vec<Vec<(SendMessage, u64)>> =
                vec![Vec::new(); if sc.split { ni } else { 1 }];
            for (k, m) in sc.msgs.iter().enumerate().filter(|(_, m)| m.from == p) {
                let s = SendMessage {
                    proto_id: ids[m.id as usize].clone(),
                    to: m.to.map_or(Recipient::All, |t| Recipient::One(t as u16)),
                    data: content(&sc, k),
                };
                plans[if sc.split { m.id as usize } else { 0 }].push((s, m.nap));
            }
            for plan in plans {
                let net = net.clone();
                tokio::spawn(async move {
                    for (m, d) in plan {
                        nap(d).await;
                        net.send(m);
                    }
                    // The handle outlives its last message.
                    std::future::pending::<()>().await
                });
            }
            for (i, id) in ids.iter().cloned().enumerate() {
                let d = sc.late.get(p as usize * ni + i).copied().unwrap_or(0);
                let (net, got) = (net.clone(), got.clone());
                tokio::spawn(async move {
                    nap(d).await;
                    // One receive more than there are messages: it must stay open.
                    loop {
                        let m = net.recv(id.clone()).await;
                        got.lock().unwrap().entry((p, i as u32)).or_default().push(m);
                    }
                });
            }
        }
    })?;
    let stop = w.run();
    let got = std::mem::take(&mut *got.lock().unwrap());
    Ok(Exchanged { stop, ids, want, got })
}

/// Checks what arrived, all of it or from each sender a part without gaps.
pub fn compare(sc: &Sc, r: &Exchanged, prefix: bool, env: &mut Env) -> Res<u64> {
    let Exchanged { ids, want, got, .. } = r;
    let mut crossing = 0;
    for (&(p, i), list) in got.iter() {
        let expect = want.get(&(p, i));
        let mut next: BTreeMap<u32, usize> = BTreeMap::new();
        for m in list {
            let from = m.from as u32;
            ensure!(m.proto_id == ids[i as usize], "wrong-context", "party {p} receiving id #{i} got a message of another context");
            let seq = expect.and_then(|e| e.get(&from));
            let Some(seq) = seq else {
                fail!("unexpected", "party {p} id #{i}: message marked as from {from}, which sent none there")
            };
            let c = next.entry(from).or_insert(0);
            ensure!(*c < seq.len(), "unexpected", "party {p} id #{i}: more messages from {from} than it sent");
            let k = seq[*c];
            ensure!(
                m.data == content(sc, k),
                "wrong-content",
                "party {p} id #{i}: message {} from {from} has {} bytes instead of message #{k} with {} bytes, or other content",
                *c,
                m.data.len(),
                sc.msgs[k].len
            );
            *c += 1;
            if from != p {
                crossing += 1;
            }
            env.checked(1);
        }
    }
    if !prefix {
        for (&(p, i), by) in want.iter() {
            let list = got.get(&(p, i));
            for (&from, seq) in by {
                let c = list.map_or(0, |l| l.iter().filter(|m| m.from as u32 == from).count());
                ensure!(c == seq.len(), "lost", "party {p} id #{i}: {c} of {} messages from {from} arrived", seq.len());
            }
        }
    }
    Ok(crossing)
}
