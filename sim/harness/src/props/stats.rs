//! C05: traffic counters.

use crate::ensure;
use crate::gen::{self, SEC, US};
use crate::nets::{self, NetKind};
use crate::prop::Prop;
use crate::run::{nap, Env, Res};
use scalable_mpc::protocol::network::{Recipient, SendMessage};
use serde::{Deserialize, Serialize};
use simrt::rng::Rng;
use simrt::{Cfg, Stop};
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Msg {
    from: u32,
    to: Option<u32>,
    id: u32,
    len: u32,
    nap: u64,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Sc {
    cfg: Cfg,
    n: u32,
    net: NetKind,
    ids: Vec<u32>,
    msgs: Vec<Msg>,
    /// Ids nobody receives from; their messages count all the same.
    unread: Vec<u32>,
    /// Waits between snapshots, per party.
    looks: Vec<Vec<u64>>,
}

pub struct Counters;

#[derive(Clone, Debug)]
enum Ev {
    /// Counters for all peers, read one after the other.
    Look(Vec<(u64, u64)>),
    Total((u64, u64)),
    /// Counters around the two ends of a measurement, and its result.
    Span([Vec<(u64, u64)>; 4], Vec<(u64, u64)>),
    /// A received message (from, index among all) and the sender's counters right after.
    Got(u32, usize, (u64, u64)),
}

fn ids(lens: &[u32]) -> Vec<Vec<u8>> {
    lens.iter().enumerate().map(|(i, &l)| { let mut v = vec![i as u8; (l as usize).clamp(1, 255)]; v[0] = i as u8; v }).collect()
}

impl Prop for Counters {
    type Sc = Sc;
    const ID: &'static str = "C05";
    const QUICK: u64 = 120_000;
    const RULE: &'static str = "a case is a party count, transport, messages with sizes and context ids, times at which each party reads its counters, and a world with scheduling, latency, segment sizes and stalls; it is non-trivial when a counter was read while at least one message was still under way and two or more parties exchange messages";
    const REAL: &'static str = "Stats, receive routing and its increments, local and TCP networks";
    const STUB: &'static str = "executor, clock, TCP sockets (simulated)";

    fn gen(rng: &mut Rng, k: u64) -> Sc {
        let net = rng.pick(&[NetKind::Tcp, NetKind::Tcp, NetKind::Local]);
        let n = gen::parties(rng, k, &[1, 2, 2, 3, 3, 4, 6], if net == NetKind::Local { 300 } else { 40 });
        let mut cfg = gen::timing(rng, n);
        if net != NetKind::Local {
            gen::stream(rng, &mut cfg);
        }
        gen::benign_faults(rng, &mut cfg, n, 1500);
        let small = cfg.seg == 1 || (cfg.wnd != 0 && cfg.wnd < 100);
        let ni = rng.range(1, 4);
        let lens = (0..ni).map(|_| rng.pick(&[1, 2, 5, 20, 255])).collect();
        let msgs = (0..rng.log(1, 40))
            .map(|_| Msg {
                from: rng.below(n as u64) as u32,
                to: if rng.p(350) { None } else { Some(rng.below(n as u64) as u32) },
                id: rng.below(ni) as u32,
                len: {
                    let l = gen::msg_len(rng, k % 50 == 3 && !small);
                    if small { l.min(300) } else { l }
                },
                nap: if rng.p(200) { rng.log(US, 2 * SEC) } else { 0 },
            })
            .collect();
        let unread = (0..ni as u32).filter(|_| rng.p(200)).collect();
        // Counters beyond 32 bits, and single messages of many megabytes.
        if k % 60_000 == 2021 {
            let cfg = gen::timing(rng, 2);
            let msgs = (0..rng.range(20, 24))
                .map(|_| Msg { from: 1, to: Some(0), id: 0, len: (1 << 28) + rng.below(1 << 20) as u32, nap: rng.log(US, SEC) })
                .collect();
            let looks = (0..2).map(|_| (0..8).map(|_| rng.log(1, SEC)).collect()).collect();
            return Sc { cfg, n: 2, net: NetKind::Local, ids: vec![5], msgs, unread: vec![], looks };
        }
        if k % 6000 == 1033 && !small {
            let msgs = (0..rng.range(1, 3))
                .map(|_| Msg { from: rng.below(n as u64) as u32, to: Some(rng.below(n as u64) as u32), id: rng.below(ni) as u32, len: rng.log(1 << 22, 1 << 26) as u32, nap: 0 })
                .collect();
            cfg.seg = rng.pick(&[0, 2]);
            cfg.wnd = rng.pick(&[0, 1 << 20]);
            let looks = (0..n).map(|_| (0..rng.range(0, 4)).map(|_| rng.log(1, SEC)).collect()).collect();
            return Sc { cfg, n, net, ids: lens, msgs, unread: vec![], looks };
        }
        let looks = (0..n).map(|_| (0..if n > 30 { rng.below(2) } else { rng.range(0, 8) }).map(|_| rng.log(1, SEC)).collect()).collect();
        Sc { cfg, n, net, ids: lens, msgs, unread, looks }
    }

    fn fix(sc: &mut Sc) -> bool {
        if sc.n == 0 || sc.n > 300 || sc.ids.is_empty() {
            return false;
        }
        let (n, ni) = (sc.n, sc.ids.len() as u32);
        sc.cfg.starve = sc.cfg.starve.min(n - 1);
        sc.msgs.iter_mut().for_each(|m| {
            m.from %= n;
            m.to = m.to.map(|t| t % n);
            m.id %= ni;
        });
        true
    }

    fn run(sc: &Sc, env: &mut Env) -> Res {
        let w = env.world(&sc.cfg);
        let ids = ids(&sc.ids);
        let logs: Arc<Mutex<Vec<Vec<Ev>>>> = Arc::new(Mutex::new(vec![Vec::new(); sc.n as usize]));
        let fin: Arc<Mutex<Vec<Option<scalable_mpc::protocol::network::Stats>>>> = Arc::new(Mutex::new((0..sc.n).map(|_| None).collect()));
        let (sc2, ids2, logs2, fin2) = (sc.clone(), ids.clone(), logs.clone(), fin.clone());
        nets::start(&w, sc.net, sc.n, &[], move |p, stats, net| {
            let (sc, ids, logs) = (sc2.clone(), ids2.clone(), logs2.clone());
            fin2.lock().unwrap()[p as usize] = Some(stats.clone());
            async move {
                let (l2, s2, n2) = (logs.clone(), stats.clone(), sc.n);
                let looks = sc.looks.get(p as usize).cloned().unwrap_or_default();
                tokio::spawn(async move {
                    let every = || async {
                        let mut v = Vec::new();
                        for q in 0..n2 {
                            v.push(s2.party(q as u16).await);
                        }
                        v
                    };
                    let mut start = None;
                    for (i, d) in looks.into_iter().enumerate() {
                        nap(d).await;
                        if let Some((a, s, b)) = start.take() {
                            let s: scalable_mpc::Stats = s;
                            let c = every().await;
                            let (_, comm) = s.elapsed(&s2).await;
                            let e = every().await;
                            l2.lock().unwrap()[p as usize].push(Ev::Span([a, b, c, e], comm));
                        } else if i % 4 == 0 {
                            let a = every().await;
                            let s = scalable_mpc::Stats::now(&s2, n2).await;
                            start = Some((a, s, every().await));
                        } else if i % 4 == 2 {
                            let v = every().await;
                            l2.lock().unwrap()[p as usize].push(Ev::Look(v));
                        } else {
                            let t = s2.total().await;
                            l2.lock().unwrap()[p as usize].push(Ev::Total(t));
                        }
                    }
                });
                for (i, id) in ids.iter().cloned().enumerate() {
                    if sc.unread.contains(&(i as u32)) {
                        continue;
                    }
                    let (net, logs, stats) = (net.clone(), logs.clone(), stats.clone());
                    tokio::spawn(async move {
                        loop {
                            let m = net.recv(id.clone()).await;
                            let c = stats.party(m.from).await;
                            // The first bytes say which message it is.
                            logs.lock().unwrap()[p as usize].push(Ev::Got(m.from as u32, i, c));
                        }
                    });
                }
                for (k, m) in sc.msgs.iter().enumerate().filter(|(_, m)| m.from == p) {
                    nap(m.nap).await;
                    net.send(SendMessage {
                        proto_id: ids[m.id as usize].clone(),
                        to: m.to.map_or(Recipient::All, |t| Recipient::One(t as u16)),
                        data: if m.len > 1 << 22 { vec![0; m.len as usize] } else { gen::bytes(k as u64, m.len as usize) },
                    });
                }
                std::future::pending::<()>().await
            }
        });
        let stop = w.run();
        w.no_panics()?;
        ensure!(stop == Stop::Quiescent, "no-progress", "stopped by {stop:?}");

        // Prefix sums of what each peer sent to p.
        let sums = |p: u32, q: u32| -> Vec<(u64, u64)> {
            let mut v = vec![(0, 0)];
            for m in sc.msgs.iter().filter(|m| m.from == q && m.to.map_or(true, |t| t == p)) {
                let (a, b) = *v.last().unwrap();
                let d = m.len as u64;
                v.push((a + d, b + d + ids[m.id as usize].len() as u64));
            }
            v
        };
        let mut midway = false;
        let logs = logs.lock().unwrap().clone();
        for p in 0..sc.n {
            let all: Vec<Vec<(u64, u64)>> = (0..sc.n).map(|q| sums(p, q)).collect();
            let full: Vec<(u64, u64)> = all.iter().map(|v| *v.last().unwrap()).collect();
            let mut low = vec![(0u64, 0u64); sc.n as usize];
            // Messages handed over so far, per (sender, id).
            let mut got = vec![vec![0usize; ids.len()]; sc.n as usize];
            for ev in &logs[p as usize] {
                match ev {
                    Ev::Look(v) => {
                        for q in 0..sc.n as usize {
                            ensure!(all[q].contains(&v[q]), "not-a-prefix", "party {p} read {:?} for peer {q}; no prefix of what it sent sums to that", v[q]);
                            ensure!(v[q].0 >= low[q].0 && v[q].1 >= low[q].1, "decreased", "party {p}: counter for {q} went from {:?} to {:?}", low[q], v[q]);
                            low[q] = v[q];
                            midway |= v[q] != full[q];
                        }
                        env.checked(sc.n as u64);
                    }
                    Ev::Span([a, b, c, e], d) => {
                        ensure!(d.len() == sc.n as usize, "wrong-span", "party {p}: a measurement lists {} peers", d.len());
                        for q in 0..sc.n as usize {
                            let within = |lo: &(u64, u64), hi: &(u64, u64)| {
                                let (lo, hi) = (*lo, *hi);
                                all[q].iter().copied().filter(move |x| x.0 >= lo.0 && x.1 >= lo.1 && x.0 <= hi.0 && x.1 <= hi.1)
                            };
                            let ok = within(&a[q], &b[q]).any(|s| within(&c[q], &e[q]).any(|t| (t.0 - s.0, t.1 - s.1) == d[q]));
                            midway |= e[q] != full[q];
                            ensure!(
                                ok,
                                "wrong-span",
                                "party {p}: {:?} measured for peer {q} between counters at {:?}..{:?} and {:?}..{:?}",
                                d[q],
                                a[q],
                                b[q],
                                c[q],
                                e[q]
                            );
                        }
                        env.checked(sc.n as u64);
                    }
                    Ev::Total(t) => {
                        // A sum over peers of prefixes, at least what was seen before and at most all.
                        let lo = low.iter().fold((0, 0), |a, b| (a.0 + b.0, a.1 + b.1));
                        let hi = full.iter().fold((0, 0), |a, b| (a.0 + b.0, a.1 + b.1));
                        ensure!(
                            t.0 >= lo.0 && t.1 >= lo.1 && t.0 <= hi.0 && t.1 <= hi.1,
                            "wrong-total",
                            "party {p} read a total of {t:?}, outside {lo:?}..{hi:?}"
                        );
                        ensure!(sum_possible(&all, &low, *t), "wrong-total", "party {p} read a total of {t:?}: no choice of prefixes gives it");
                        env.checked(1);
                    }
                    Ev::Got(q, i, c) => {
                        let qi = *q as usize;
                        got[qi][*i] += 1;
                        // The shortest prefix that contains as many messages under that id.
                        let mut seen = 0;
                        let mut need = 0;
                        for (k, m) in sc.msgs.iter().filter(|m| m.from == *q && m.to.map_or(true, |t| t == p)).enumerate() {
                            if m.id as usize == *i {
                                seen += 1;
                                if seen == got[qi][*i] {
                                    need = k + 1;
                                    break;
                                }
                            }
                        }
                        let least = all[qi][need];
                        ensure!(
                            c.0 >= least.0 && c.1 >= least.1,
                            "uncounted",
                            "party {p} received message {} of peer {q} under id #{i} when the counters said {c:?}; that message is only within {least:?}",
                            got[qi][*i]
                        );
                        ensure!(all[qi].contains(c), "not-a-prefix", "party {p} read {c:?} for peer {q}");
                        env.checked(1);
                    }
                }
            }
            // At the end everything counts.
            let stats = fin.lock().unwrap()[p as usize].clone();
            ensure!(stats.is_some(), "blocked", "network setup of party {p} never ended");
            let stats = stats.unwrap();
            let n = sc.n;
            let end = w.outer(async move {
                let mut v = Vec::new();
                for q in 0..n {
                    v.push(stats.party(q as u16).await);
                }
                (v, stats.total().await)
            });
            w.run();
            let Some((v, t)) = crate::run::take(&end) else { crate::fail!("blocked", "counters of party {p} cannot be read") };
            for q in 0..n as usize {
                ensure!(v[q] == full[q], "wrong-end", "party {p}, peer {q}: counters end at {:?} instead of {:?}", v[q], full[q]);
            }
            let sum = full.iter().fold((0, 0), |a, b| (a.0 + b.0, a.1 + b.1));
            ensure!(t == sum, "wrong-total", "party {p}: total ends at {t:?} instead of {sum:?}");
            env.checked(n as u64 + 1);
        }
        env.out.nontrivial = sc.n >= 2 && midway;
        env.out.sample = format!("n={} {:?} ids={:?} msgs={} looks={}", sc.n, sc.net, sc.ids, sc.msgs.len(), sc.looks.iter().map(|l| l.len()).sum::<usize>());
        env.cover(&[sc.n as u64, sc.net as u64, sc.msgs.len() as u64]);
        env.done(w);
        Ok(())
    }
}

/// Is t a sum of one prefix per peer, each at least `low`?
fn sum_possible(all: &[Vec<(u64, u64)>], low: &[(u64, u64)], t: (u64, u64)) -> bool {
    let mut set = std::collections::BTreeSet::from([(0u64, 0u64)]);
    for (v, lo) in all.iter().zip(low) {
        let mut next = std::collections::BTreeSet::new();
        for s in &set {
            for x in v.iter().filter(|x| x.0 >= lo.0 && x.1 >= lo.1) {
                let y = (s.0 + x.0, s.1 + x.1);
                if y.0 <= t.0 && y.1 <= t.1 {
                    next.insert(y);
                }
            }
        }
        set = next;
        if set.len() > 20_000 {
            return true;
        }
    }
    set.contains(&t)
}
