//! The networks protocols are run over.

use crate::run::{nap, take_all, Res, Slot, World};
use scalable_mpc::protocol::network::{self, Network, Stats};
use serde::{Deserialize, Serialize};
use std::future::Future;
use std::sync::Arc;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum NetKind {
    /// The repository's in-process network.
    Local,
    /// The repository's TCP network on simulated sockets, every party on its own host.
    Tcp,
    /// The same with all parties on one host.
    TcpLocalhost,
}

pub fn addresses(kind: NetKind, n: u32) -> Vec<String> {
    (0..n)
        .map(|i| match kind {
            NetKind::TcpLocalhost => format!("127.0.0.1:{}", 8000 + i),
            _ if i % 3 == 1 => format!("party{i}:{}", 9000 + i),
            _ => format!("{}:{}", simrt::net::ip_of(i), 9000 + i),
        })
        .collect()
}

/// Brings up the network and runs `f` at every party as soon as its own side is up; `delay[i]` is
/// when party i starts.
pub fn start<T, F, Fut>(w: &World, kind: NetKind, n: u32, delay: &[u64], f: F) -> Vec<Slot<T>>
where
    T: Send + 'static,
    F: Fn(u32, Stats, Network) -> Fut + Send + Sync + 'static,
    Fut: Future<Output = T> + Send + 'static,
{
    let f = Arc::new(f);
    let slots: Vec<Slot<T>> = (0..n).map(|_| Slot::default()).collect();
    let run = {
        let slots = slots.clone();
        move |i: u32, d: u64, h: (Stats, Network)| {
            let (f, slot) = (f.clone(), slots[i as usize].clone());
            async move {
                nap(d).await;
                let v = f(i, h.0, h.1).await;
                *slot.lock().unwrap() = Some(v);
            }
        }
    };
    let delay: Vec<u64> = (0..n as usize).map(|i| delay.get(i).copied().unwrap_or(0)).collect();
    match kind {
        NetKind::Local => {
            let sim = w.sim.clone();
            w.outer(async move {
                for (i, h) in network::setup_local_network(n as u16).await.into_iter().enumerate() {
                    sim.spawn_on(i as u32, Box::pin(run(i as u32, delay[i], h)));
                }
            });
        }
        _ => {
            if kind == NetKind::TcpLocalhost {
                w.sim.lock().net.shared_host = true;
            }
            let addrs = addresses(kind, n);
            for i in 0..n {
                let (addrs, run, d) = (addrs.clone(), run.clone(), delay[i as usize]);
                w.party(i, async move {
                    nap(d).await;
                    let h = network::setup_tcp_network(i as u16, &addrs).await;
                    run(i, 0, h).await
                });
            }
        }
    }
    slots
}

/// Brings the network up to the end before anything else happens.
pub fn setup_now(w: &World, kind: NetKind, n: u32) -> Res<Vec<(Stats, Network)>> {
    let slots = start(w, kind, n, &[], |_, s, h| async move { (s, h) });
    w.run_clean()?;
    take_all(&slots, "network setup")
}

/// Runs `f` at every party, over a network that is already up or that comes up meanwhile.
pub fn start_at<T, F, Fut>(w: &World, kind: NetKind, n: u32, early: bool, f: F) -> Res<Vec<Slot<T>>>
where
    T: Send + 'static,
    F: Fn(u32, Stats, Network) -> Fut + Send + Sync + 'static,
    Fut: Future<Output = T> + Send + 'static,
{
    if early {
        return Ok(start(w, kind, n, &[], f));
    }
    let hs = setup_now(w, kind, n)?;
    Ok(hs.into_iter().enumerate().map(|(i, (s, h))| w.party(i as u32, f(i as u32, s, h))).collect())
}
