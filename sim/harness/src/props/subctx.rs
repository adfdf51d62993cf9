//! C06: sub-contexts.

use super::{differ, material};
use crate::gen::{self, SEC, US};
use crate::mpc::{self, Transport};
use crate::prop::Prop;
use crate::run::{nap, take_all, Env, Res};
use crate::{ensure, fail};
use scalable_mpc::protocol::network::{message_from_each_party, Recipient, SendMessage};
use scalable_mpc::protocol::{ProtocolID, ProtocolIDBuilder};
use serde::{Deserialize, Serialize};
use simrt::rng::{mix, Rng};
use simrt::Cfg;
use std::collections::BTreeMap;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Node {
    /// Which context announces children: index into the list of contexts in use (0 is the root).
    ctx: u32,
    /// How many it announces.
    k: u64,
    /// Which children are used, besides the first and the last.
    picks: Vec<u64>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Sc {
    cfg: Cfg,
    n: u32,
    tr: Transport,
    root: u32,
    tree: Vec<Node>,
    late: Vec<u64>,
    /// Instead: protocols of the repository running at the same time.
    #[serde(default)]
    protos: Option<Protos>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Protos {
    /// Several instances, against the same ones run one after the other.
    Many(differ::Sc),
    /// Preprocessing, which generates all kinds of material at once, and garbling with it.
    Prep(material::Sc),
}

pub struct SubContexts;

/// The contexts in use, as one party derives them; Err when a child could not be created.
fn derive(sc: &Sc, every: bool) -> Result<Vec<ProtocolID>, String> {
    let mut seen: Vec<u128> = vec![name(&[7u8; 256][..sc.root as usize])];
    let mut ctxs: Vec<ProtocolID> = vec![vec![7u8; sc.root as usize]];
    let mut announced = Vec::new();
    for node in &sc.tree {
        let c = node.ctx as usize % ctxs.len();
        if announced.contains(&c) {
            continue;
        }
        announced.push(c);
        let parent = ctxs[c].clone();
        let mut b = ProtocolIDBuilder::new(&parent, node.k);
        let mut picks = node.picks.clone();
        picks.retain(|&p| p < node.k);
        picks.extend([0, node.k - 1]);
        picks.sort();
        picks.dedup();
        let mut at = picks.iter().peekable();
        for i in 0..node.k {
            let Some(id) = b.next() else {
                return Err(format!("a context that announced {} sub-contexts could create only {i}", node.k));
            };
            if every {
                seen.push(name(&id));
            }
            if at.peek() == Some(&&i) {
                at.next();
                ctxs.push(id);
            }
        }
    }
    let all = seen.len();
    seen.sort_unstable();
    seen.dedup();
    if seen.len() != all {
        return Err(format!("of {all} contexts in the tree, {} have the id of another", all - seen.len()));
    }
    Ok(ctxs)
}

/// Injective for all practical purposes.
fn name(id: &[u8]) -> u128 {
    let (mut a, mut b) = (id.len() as u64, 1);
    for c in id.chunks(8) {
        let mut w = [0; 8];
        w[..c.len()].copy_from_slice(c);
        a = mix(a, u64::from_le_bytes(w));
        b = mix(b, !u64::from_le_bytes(w));
    }
    (a as u128) << 64 | b as u128
}

impl Prop for SubContexts {
    type Sc = Sc;
    const ID: &'static str = "C06";
    const QUICK: u64 = 40_000;
    const RULE: &'static str = "a case is a tree of contexts (fan-outs from 1 to 70000, once 2^24, around the powers of 256 in particular) derived by every party on its own, with one message round running concurrently in every context picked, in a world with scheduling, latency and stalls; one case in twenty instead runs the repository's protocols concurrently (multiplications, transformations, garblings compared with running them one after the other, or preprocessing and garbling with its material); it is non-trivial when two or more parties run rounds in three or more contexts at once";
    const REAL: &'static str = "ProtocolIDBuilder and its use by all protocols, message routing by context id, local and TCP networks";
    const STUB: &'static str = "executor, clock, TCP sockets; with transport Links also the network below send/recv";

    fn gen(rng: &mut Rng, k: u64) -> Sc {
        let huge = k % 20_000 == 19_999;
        let n = if huge { 1 } else { rng.pick(&[1, 2, 2, 3, 4]) as u32 };
        let tr = rng.pick(&[Transport::Links, Transport::Local, Transport::Tcp, Transport::Tcp]);
        let mut cfg = gen::timing(rng, n);
        if tr == Transport::Tcp {
            gen::stream(rng, &mut cfg);
        }
        gen::benign_faults(rng, &mut cfg, n, 800);
        let mut tree = Vec::new();
        for i in 0..rng.range(1, 6) {
            let kids = match rng.below(8) {
                _ if huge && i == 0 => (1 << 24) - rng.range(0, 2),
                0 => 1,
                1 => 2,
                2 => rng.range(250, 260),
                3 => 256,
                4 if k % 20 == 0 => rng.pick(&[65535, 65536, 65537, 70000]),
                4 => rng.range(500, 520),
                5 => rng.range(127, 129),
                _ => rng.range(1, 40),
            };
            let picks = (0..rng.range(0, 4)).map(|_| rng.below(kids)).collect();
            tree.push(Node { ctx: if i == 0 { 0 } else { rng.below(8) as u32 }, k: kids, picks });
        }
        let late = (0..n * 30).map(|_| if rng.p(200) { rng.log(US, 2 * SEC) } else { 0 }).collect();
        let protos = match k % 64 {
            21 | 37 => {
                let mut s = differ::Differ::gen(rng, k);
                s.ways.truncate(1);
                s.ways[0].turns = false;
                Some(Protos::Many(s))
            }
            // More sub-protocols than one byte can tell apart.
            53 if k % (64 * 600) == 53 => Some(Protos::Prep(material::crowd(rng))),
            53 => Some(Protos::Prep(material::Material::gen(rng, 0))),
            _ => None,
        };
        Sc { cfg, n, tr, root: rng.pick(&[0, 1, 10, 200]), tree, late, protos }
    }

    fn fix(sc: &mut Sc) -> bool {
        if sc.n == 0 || sc.n > 50 || sc.root > 220 {
            return false;
        }
        sc.cfg.starve = sc.cfg.starve.min(sc.n - 1);
        let ok = match &mut sc.protos {
            Some(Protos::Many(s)) => differ::Differ::fix(s),
            Some(Protos::Prep(s)) => material::Material::fix(s),
            None => true,
        };
        ok && sc.tree.iter().all(|t| t.k >= 1 && t.k <= 20_000_000)
    }

    fn run(sc: &Sc, env: &mut Env) -> Res {
        match &sc.protos {
            Some(Protos::Many(s)) => return differ::all_ways(s, env),
            Some(Protos::Prep(s)) => return material::Material::run(s, env),
            None => {}
        }
        let w = env.world(&sc.cfg);
        let sc2 = sc.clone();
        let slots = mpc::start(&w, sc.tr, sc.n, true, move |p, net| {
            let sc = sc2.clone();
            async move {
                let ctxs = derive(&sc, p == 0)?;
                let mut tasks = Vec::new();
                for (c, id) in ctxs.iter().cloned().enumerate() {
                    let (net, n) = (net.clone(), sc.n);
                    let d = sc.late.get(p as usize * 30 + c).copied().unwrap_or(0);
                    tasks.push(tokio::spawn(async move {
                        nap(d).await;
                        let word = |q: u32| vec![q as u8, c as u8, (c >> 8) as u8];
                        net.send(SendMessage { proto_id: id.clone(), to: Recipient::All, data: word(p) });
                        let got = message_from_each_party(id, &net, n as usize).await;
                        (0..n).all(|q| got[q as usize] == word(q))
                    }));
                }
                let mut bad = Vec::new();
                for (c, t) in tasks.into_iter().enumerate() {
                    if !t.await.unwrap_or(false) {
                        bad.push(c);
                    }
                }
                Ok::<_, String>((net, ctxs, bad))
            }
        })?;
        w.run_clean()?;
        let mut first: Option<Vec<ProtocolID>> = None;
        let mut num = 0;
        // A party that could not even create its contexts explains why others wait.
        for s in &slots {
            if let Some(Err(m)) = &*s.lock().unwrap() {
                fail!("children", "{m}");
            }
        }
        for (p, out) in take_all(&slots, "rounds in all contexts")?.into_iter().enumerate() {
            let (_net, ctxs, bad) = out.unwrap();
            let mut seen: BTreeMap<&ProtocolID, usize> = BTreeMap::new();
            for (c, id) in ctxs.iter().enumerate() {
                if let Some(o) = seen.insert(id, c) {
                    fail!("same-id", "party {p}: contexts #{o} and #{c} have the same id {id:?}");
                }
            }
            ensure!(bad.is_empty(), "mixed", "party {p}: context #{} received a message of another context", bad[0]);
            num = ctxs.len();
            match &first {
                None => first = Some(ctxs),
                Some(f) => ensure!(*f == ctxs, "disagree", "parties 0 and {p} derive different ids"),
            }
            env.checked(num as u64);
        }
        env.out.nontrivial = sc.n >= 2 && num >= 3 && w.sim.lock().polls_multi > 0;
        env.out.sample = format!("n={} {:?} fan-outs={:?} contexts={num}", sc.n, sc.tr, sc.tree.iter().map(|t| t.k).collect::<Vec<_>>());
        env.cover(&[sc.n as u64, sc.tr as u64, num as u64]);
        env.done(w);
        Ok(())
    }
}
