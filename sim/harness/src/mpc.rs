//! Parties' contexts, material and networks for the protocol checks.

use crate::field::Pss;
use crate::nets::{self, NetKind};
use crate::run::{Res, Slot, World};
use scalable_mpc::math::galois::GF;
use scalable_mpc::protocol::network::{Network, ReceivedMessage, Recipient, SendMessage};
use scalable_mpc::protocol::{MPCContext, ProtocolID};
use scalable_mpc::sharing::PackedSharing;
use serde::{Deserialize, Serialize};
use simrt::rng::Rng;
use simrt::Sim;
use std::collections::{BTreeMap, VecDeque};
use std::future::Future;
use std::sync::{Arc, Mutex, Once};
use tokio::sync::mpsc::unbounded_channel;
use tokio::sync::oneshot;

pub const W: u8 = 18;
pub type G = GF<W>;

pub fn init_field() {
    static ONCE: Once = Once::new();
    ONCE.call_once(|| {
        let _o = simrt::outside();
        GF::<W>::init().unwrap();
    });
}

pub fn gf(x: u32) -> G {
    GF::from(x)
}

pub fn gfs(v: &[u32]) -> Vec<G> {
    v.iter().map(|&x| gf(x)).collect()
}

pub fn raw(x: G) -> u32 {
    u32::from(x)
}

pub fn raws<'a>(v: impl IntoIterator<Item = &'a G>) -> Vec<u32> {
    v.into_iter().map(|&x| raw(x)).collect()
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub struct Par {
    pub n: u32,
    pub t: u32,
    pub l: u32,
    /// LPN key and message lengths.
    pub k: u32,
    pub m: u32,
}

impl Par {
    pub fn new((n, t, l): (u32, u32, u32)) -> Self {
        Par { n, t, l, k: 1, m: 2 }
    }
    pub fn d(&self) -> usize {
        (self.t + self.l - 1) as usize
    }
    pub fn nn(&self) -> usize {
        self.n as usize
    }
    pub fn ll(&self) -> usize {
        self.l as usize
    }
    /// Low-degree sharings with secrets at the default positions.
    pub fn low(&self) -> Pss {
        Pss::default(self.nn(), self.d(), self.ll())
    }
    /// The same with degree n - 1.
    pub fn high(&self) -> Pss {
        Pss::default(self.nn(), self.nn() - 1, self.ll())
    }
    pub fn ctx(&self, id: u32) -> MPCContext<W> {
        let pos = PackedSharing::default_pos(self.n, self.l);
        MPCContext {
            id: id as u16,
            n: self.nn(),
            t: self.t as usize,
            l: self.ll(),
            lpn_tau: 2,
            lpn_key_len: self.k as usize,
            lpn_mssg_len: self.m as usize,
            pss: Arc::new(PackedSharing::new(self.t + self.l - 1, self.n, &pos)),
            pss_n: Arc::new(PackedSharing::new(self.n - 1, self.n, &pos)),
        }
    }
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Transport {
    /// Message-level links.
    Links,
    Local,
    Tcp,
    TcpLocalhost,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Sent {
    pub from: u32,
    pub to: u32,
    pub id: ProtocolID,
    pub data: Vec<u8>,
}

pub type Tap = Arc<Mutex<Vec<Sent>>>;
/// Changes a message on its way.
pub type Tamper = Arc<dyn Fn(&mut Sent) + Send + Sync>;

#[derive(Default)]
struct Mailbox {
    msgs: VecDeque<ReceivedMessage>,
    waiting: VecDeque<oneshot::Sender<ReceivedMessage>>,
}

type Boxes = Arc<Mutex<BTreeMap<(u32, ProtocolID), Mailbox>>>;

fn deliver(boxes: &Boxes, to: u32, mut m: ReceivedMessage) {
    let mut b = boxes.lock().unwrap();
    let mb = b.entry((to, m.proto_id.clone())).or_default();
    while let Some(w) = mb.waiting.pop_front() {
        match w.send(m) {
            Ok(()) => return,
            Err(x) => m = x,
        }
    }
    mb.msgs.push_back(m);
}

/// Networks made of simulated message links: in order per pair of parties, any delay.
pub fn links(w: &World, n: u32, tap: Option<Tap>, tamper: Option<Tamper>) -> Vec<Network> {
    let boxes: Boxes = Arc::default();
    (0..n)
        .map(|p| {
            let (ts, mut rs) = unbounded_channel::<SendMessage>();
            let (tr, mut rr) = unbounded_channel::<(ProtocolID, oneshot::Sender<ReceivedMessage>)>();
            let (b1, b2, tap, tamper, sim) = (boxes.clone(), boxes.clone(), tap.clone(), tamper.clone(), w.sim.clone());
            let sim = Arc::downgrade(&sim);
            w.party(p, async move {
                let mut last = vec![0u64; n as usize];
                while let Some(m) = rs.recv().await {
                    let to: Vec<u32> = match m.to {
                        Recipient::One(i) => vec![i as u32],
                        Recipient::All => (0..n).collect(),
                    };
                    for to in to {
                        let mut r = ReceivedMessage { proto_id: m.proto_id.clone(), from: p as u16, data: m.data.clone() };
                        if tap.is_some() || tamper.is_some() {
                            let mut sent = Sent { from: p, to, id: r.proto_id.clone(), data: r.data };
                            if let Some(f) = &tamper {
                                f(&mut sent);
                            }
                            r.data = sent.data.clone();
                            if let Some(t) = &tap {
                                t.lock().unwrap().push(sent);
                            }
                        }
                        let Some(sim) = sim.upgrade() else { return };
                        sim.count("link-messages", 1);
                        if to == p {
                            deliver(&b1, to, r);
                        } else {
                            let t = simrt::net::arrival(&sim, p, to).max(last[to as usize]);
                            last[to as usize] = t;
                            let b = b1.clone();
                            sim.at(t, move |s: &Arc<Sim>| {
                                if !s.lock().node_mut(to).dead {
                                    deliver(&b, to, r)
                                }
                            });
                        }
                    }
                }
            });
            w.party(p, async move {
                while let Some((id, tx)) = rr.recv().await {
                    let mut b = b2.lock().unwrap();
                    let mb = b.entry((p, id)).or_default();
                    match mb.msgs.pop_front() {
                        Some(m) => drop(tx.send(m)),
                        None => mb.waiting.push_back(tx),
                    }
                }
            });
            Network::new(ts, tr)
        })
        .collect()
}

/// Runs `f` at every party once its network is up.
pub fn start<T, F, Fut>(w: &World, tr: Transport, n: u32, early: bool, f: F) -> Res<Vec<Slot<T>>>
where
    T: Send + 'static,
    F: Fn(u32, Network) -> Fut + Send + Sync + 'static,
    Fut: Future<Output = T> + Send + 'static,
{
    match tr {
        Transport::Links => {
            Ok(links(w, n, None, None).into_iter().enumerate().map(|(i, h)| w.party(i as u32, f(i as u32, h))).collect())
        }
        Transport::Local => nets::start_at(w, NetKind::Local, n, early, move |p, _, h| f(p, h)),
        Transport::Tcp => nets::start_at(w, NetKind::Tcp, n, early, move |p, _, h| f(p, h)),
        Transport::TcpLocalhost => nets::start_at(w, NetKind::TcpLocalhost, n, early, move |p, _, h| f(p, h)),
    }
}

/// One column per item: the shares all parties hold of it.
pub fn columns(outs: &[Vec<u32>]) -> Vec<Vec<u32>> {
    let len = outs.iter().map(|v| v.len()).min().unwrap_or(0);
    (0..len).map(|i| outs.iter().map(|v| v[i]).collect()).collect()
}

/// A binary matrix (rows of length n) no non-zero combination of whose rows has weight t or less,
/// and whose first row is all ones.
pub fn bin_matrix(rng: &mut Rng, n: usize, t: usize, most: usize) -> Vec<Vec<u8>> {
    let full: Vec<u64> = (0..n.div_ceil(64)).map(|i| if n - 64 * i >= 64 { u64::MAX } else { (1 << (n % 64)) - 1 }).collect();
    let add = |a: &[u64], b: &[u64]| -> Vec<u64> { a.iter().zip(b).map(|(a, b)| a ^ b).collect() };
    let mut words = vec![full.clone()];
    let mut sums = vec![vec![0; full.len()], full.clone()];
    for _ in 0..60 {
        if words.len() >= most {
            break;
        }
        let c: Vec<u64> = full.iter().map(|f| rng.next() & f).collect();
        if sums.iter().all(|s| add(s, &c).iter().map(|w| w.count_ones() as usize).sum::<usize>() > t) {
            let more: Vec<Vec<u64>> = sums.iter().map(|s| add(s, &c)).collect();
            sums.extend(more);
            words.push(c);
        }
    }
    words.iter().map(|w| (0..n).map(|i| (w[i / 64] >> (i % 64) & 1) as u8).collect()).collect()
}

/// In the layout the loader of the code under test gives it.
pub fn bin_array(rows: &[Vec<u8>]) -> Arc<ndarray::Array2<G>> {
    let (r, n) = (rows.len(), rows[0].len());
    let flat = (0..n).flat_map(|i| rows.iter().map(move |row| gf(row[i] as u32))).collect();
    Arc::new(ndarray::Array2::from_shape_vec((n, r), flat).unwrap().reversed_axes())
}
