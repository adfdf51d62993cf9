//! C03: a round returns the first message of every party, indexed by party.

use crate::gen::{self, SEC, US};
use crate::mpc::{self, Transport};
use crate::prop::Prop;
use crate::run::{nap, take, Env, Res};
use crate::ensure;
use scalable_mpc::protocol::network::{message_from_each_party, Recipient, SendMessage};
use serde::{Deserialize, Serialize};
use simrt::rng::Rng;
use simrt::{Cfg, Stop};
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Msg {
    from: u32,
    to: Option<u32>,
    ctx: u32,
    len: u32,
    nap: u64,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Sc {
    cfg: Cfg,
    n: u32,
    tr: Transport,
    /// Contexts with one waiting round each at every party.
    ctxs: u32,
    msgs: Vec<Msg>,
    /// Delay before each round starts waiting, per (party, context).
    late: Vec<u64>,
    /// Further rounds on the same contexts, each begun by its senders once all finished the last.
    more: u32,
}

fn later(p: u32, c: u32, r: u32) -> Vec<u8> {
    gen::bytes((1 << 40) + ((p as u64) << 20) + ((c as u64) << 10) + r as u64, ((p + r) % 4) as usize)
}

pub struct Rounds;

fn id_of(c: u32) -> Vec<u8> {
    let mut v = b"round".to_vec();
    v.extend((0..c).map(|i| i as u8));
    v
}

impl Prop for Rounds {
    type Sc = Sc;
    const ID: &'static str = "C03";
    const QUICK: u64 = 120_000;
    const RULE: &'static str = "a case is a party count, transport, contexts, a list of messages (some parties send several, some possibly none) and receive delays in a world with scheduling, latency and stalls; it is non-trivial when a round with two or more parties completed, or one had to stay open, with a duplicate or a missing sender present";
    const REAL: &'static str = "message_from_each_party, receive routing, local and TCP networks";
    const STUB: &'static str = "executor, clock, TCP sockets; with transport Links also the network below send/recv";

    fn gen(rng: &mut Rng, k: u64) -> Sc {
        let tr = rng.pick(&[Transport::Links, Transport::Local, Transport::Tcp, Transport::Tcp]);
        let n = gen::parties(rng, k, &[1, 2, 2, 3, 3, 4, 5, 7], if tr == Transport::Tcp { 70 } else { 300 });
        let mut cfg = gen::timing(rng, n);
        if tr == Transport::Tcp && n < 20 {
            gen::stream(rng, &mut cfg);
        }
        gen::benign_faults(rng, &mut cfg, n, 500);
        let ctxs = if n > 60 { 1 } else { rng.range(1, 3) as u32 };
        let more = if n > 60 { 0 } else { rng.pick(&[0, 0, 1, 3]) as u32 };
        let mut msgs = Vec::new();
        for ctx in 0..ctxs {
            let missing = more == 0 && rng.p(250);
            let skip = rng.below(n as u64) as u32;
            let dup = if more > 0 { 0 } else { rng.pick(&[0, 0, 200, 600]) };
            for from in 0..n {
                if missing && from == skip {
                    continue;
                }
                let mut m = |to| Msg {
                    from,
                    to,
                    ctx,
                    len: if rng.p(300) { 0 } else { rng.log(1, 300) as u32 },
                    nap: if rng.p(200) { rng.log(US, 3 * SEC) } else { 0 },
                };
                if dup == 200 {
                    // To each party alone, so that some can be left out.
                    let all: Vec<Msg> = (0..n).map(|t| m(Some(t))).collect();
                    msgs.extend(all);
                } else {
                    msgs.push(m(None));
                }
            }
            if dup > 0 {
                for _ in 0..rng.range(1, 2 * n as u64) {
                    let from = rng.below(n as u64) as u32;
                    if missing && from == skip {
                        continue;
                    }
                    let to = if rng.p(512) { None } else { Some(rng.below(n as u64) as u32) };
                    let at = rng.below(msgs.len() as u64 + 1) as usize;
                    let m = Msg { from, to, ctx, len: rng.log(1, 40) as u32 - 1, nap: if rng.p(200) { rng.log(US, SEC) } else { 0 } };
                    msgs.insert(at, m);
                }
            }
        }
        let late = (0..n * ctxs).map(|_| if rng.p(300) { rng.log(US, 4 * SEC) } else { 0 }).collect();
        Sc { cfg, n, tr, ctxs, msgs, late, more }
    }

    fn fix(sc: &mut Sc) -> bool {
        if sc.n == 0 || sc.n > 600 || sc.ctxs == 0 || sc.ctxs > 10 {
            return false;
        }
        let (n, c) = (sc.n, sc.ctxs);
        sc.cfg.starve = sc.cfg.starve.min(n - 1);
        sc.msgs.iter_mut().for_each(|m| {
            m.from %= n;
            m.to = m.to.map(|t| t % n);
            m.ctx %= c;
        });
        if sc.more > 0 {
            // Exactly one message to everyone from everyone.
            let mut seen = std::collections::BTreeSet::new();
            sc.msgs.retain(|m| m.to.is_none() && seen.insert((m.from, m.ctx)));
            if seen.len() as u32 != n * c || sc.more > 20 {
                return false;
            }
        }
        true
    }

    fn run(sc: &Sc, env: &mut Env) -> Res {
        let w = env.world(&sc.cfg);
        type Out = Arc<Mutex<Option<Vec<Vec<u8>>>>>;
        let wrong: Arc<Mutex<Option<String>>> = Arc::default();
        let finished: Arc<Vec<tokio::sync::watch::Sender<u32>>> = Arc::new((0..sc.ctxs).map(|_| tokio::sync::watch::channel(0).0).collect());
        let outs: Vec<Out> = (0..sc.n * sc.ctxs).map(|_| Out::default()).collect();
        let (sc2, outs2, wrong2, fin2) = (sc.clone(), outs.clone(), wrong.clone(), finished.clone());
        mpc::start(&w, sc.tr, sc.n, true, move |p, net| {
            let (sc, outs, wrong, finished) = (sc2.clone(), outs2.clone(), wrong2.clone(), fin2.clone());
            async move {
                for c in 0..sc.ctxs {
                    let (net, out) = (net.clone(), outs[(p * sc.ctxs + c) as usize].clone());
                    let d = sc.late.get((p * sc.ctxs + c) as usize).copied().unwrap_or(0);
                    let n = sc.n as usize;
                    let (wrong, finished, more) = (wrong.clone(), finished.clone(), sc.more);
                    let mut watch = finished[c as usize].subscribe();
                    let net2 = net.clone();
                    tokio::spawn(async move {
                        for r in 1..=more {
                            watch.wait_for(|&v| v >= r * n as u32).await.unwrap();
                            net2.send(SendMessage { proto_id: id_of(c), to: Recipient::All, data: later(p, c, r) });
                        }
                        std::future::pending::<()>().await
                    });
                    tokio::spawn(async move {
                        nap(d).await;
                        let r = message_from_each_party(id_of(c), &net, n).await;
                        *out.lock().unwrap() = Some(r);
                        finished[c as usize].send_modify(|v| *v += 1);
                        for r in 1..=more {
                            let got = message_from_each_party(id_of(c), &net, n).await;
                            let want: Vec<Vec<u8>> = (0..n as u32).map(|q| later(q, c, r)).collect();
                            if got != want {
                                *wrong.lock().unwrap() = Some(format!("party {p} context #{c} round {r}: not the messages of this round"));
                            }
                            finished[c as usize].send_modify(|v| *v += 1);
                        }
                        std::future::pending::<()>().await
                    });
                }
                for (k, m) in sc.msgs.iter().enumerate().filter(|(_, m)| m.from == p) {
                    nap(m.nap).await;
                    net.send(SendMessage {
                        proto_id: id_of(m.ctx),
                        to: m.to.map_or(Recipient::All, |t| Recipient::One(t as u16)),
                        data: gen::bytes(k as u64, m.len as usize),
                    });
                }
                std::future::pending::<()>().await
            }
        })?;
        let stop = w.run();
        w.no_panics()?;
        ensure!(stop == Stop::Quiescent, "no-progress", "stopped by {stop:?}");
        if let Some(m) = wrong.lock().unwrap().take() {
            crate::fail!("wrong-round", "{m}");
        }
        if sc.more > 0 {
            for (c, f) in finished.iter().enumerate() {
                let (got, want) = (*f.borrow(), sc.n * (sc.more + 1));
                ensure!(got == want, "blocked", "context #{c}: {got} of {want} rounds ended");
            }
        }
        let mut interesting = sc.more > 0 && sc.n >= 2;
        for p in 0..sc.n {
            for c in 0..sc.ctxs {
                let by: Vec<Vec<usize>> = (0..sc.n)
                    .map(|f| {
                        (0..sc.msgs.len())
                            .filter(|&k| {
                                let m = &sc.msgs[k];
                                m.from == f && m.ctx == c && m.to.map_or(true, |t| t == p)
                            })
                            .collect()
                    })
                    .collect();
                let missing = by.iter().any(|b| b.is_empty());
                interesting |= sc.n >= 2 && (missing || by.iter().any(|b| b.len() > 1));
                let got = take(&outs[(p * sc.ctxs + c) as usize]);
                match got {
                    None => ensure!(missing, "blocked", "party {p} round #{c}: everybody sent, but the round never ended"),
                    Some(v) => {
                        ensure!(!missing, "early", "party {p} round #{c} ended although {:?} sent nothing", by.iter().position(|b| b.is_empty()));
                        ensure!(v.len() == sc.n as usize, "count", "party {p} round #{c} returned {} entries", v.len());
                        for (f, d) in v.iter().enumerate() {
                            let k = by[f][0];
                            ensure!(
                                *d == gen::bytes(k as u64, sc.msgs[k].len as usize),
                                "wrong-message",
                                "party {p} round #{c}: entry {f} is not the first message party {f} sent"
                            );
                            env.checked(1);
                        }
                    }
                }
                env.checked(1);
            }
        }
        env.out.nontrivial = interesting && w.sim.lock().polls_multi > 0;
        env.out.sample = format!("n={} {:?} contexts={} msgs={}", sc.n, sc.tr, sc.ctxs, sc.msgs.len());
        env.cover(&[sc.n as u64, sc.tr as u64, sc.ctxs as u64]);
        env.done(w);
        Ok(())
    }
}
