//! Simulated stream sockets: ordered, bounded, segmented, delayed, resettable.

use crate::choice::Kind;
use crate::{NodeId, Sim, State, NO_NODE};
use std::collections::{BTreeMap, VecDeque};
use std::io;
use std::net::{IpAddr, Ipv4Addr, SocketAddr};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};

enum Seg {
    Data(Vec<u8>),
    Fin,
    Rst,
}

/// One end of a connection.
struct End {
    node: NodeId,
    addr: SocketAddr,
    rx: VecDeque<u8>,
    fin: bool,
    rst: bool,
    inflight: VecDeque<(u64, Seg)>,
    inflight_bytes: usize,
    last_arrival: u64,
    rwaker: Option<Waker>,
    wwaker: Option<Waker>,
    wclosed: bool,
    closed: bool,
    /// The host is gone; nothing is received or answered.
    dead: bool,
}

impl End {
    fn new(node: NodeId, addr: SocketAddr) -> Self {
        End {
            node,
            addr,
            rx: VecDeque::new(),
            fin: false,
            rst: false,
            inflight: VecDeque::new(),
            inflight_bytes: 0,
            last_arrival: 0,
            rwaker: None,
            wwaker: None,
            wclosed: false,
            closed: false,
            dead: false,
        }
    }
}

struct Listener {
    queue: VecDeque<EndId>,
    waker: Option<Waker>,
    /// Bound to every address of the host, or to one.
    ip: Option<IpAddr>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct EndId {
    conn: usize,
    side: usize,
}

#[derive(Default)]
pub struct Net {
    conns: Vec<[End; 2]>,
    listeners: BTreeMap<(NodeId, u16), Listener>,
    stall: BTreeMap<(NodeId, NodeId), u64>,
    isolate: BTreeMap<NodeId, u64>,
    crashed: Vec<NodeId>,
    /// All nodes share one host (127.0.0.1), as in the local scripts.
    pub shared_host: bool,
    next_port: u16,
    wire: BTreeMap<(NodeId, NodeId), u64>,
}

impl Net {
    /// Bytes node a has sent to node b.
    pub fn wire(&self, a: NodeId, b: NodeId) -> u64 {
        self.wire.get(&(a, b)).copied().unwrap_or(0)
    }

    pub fn stall(&mut self, a: NodeId, b: NodeId, until: u64) {
        let e = self.stall.entry((a, b)).or_insert(0);
        *e = (*e).max(until);
    }

    pub fn isolate(&mut self, n: NodeId, until: u64) {
        let e = self.isolate.entry(n).or_insert(0);
        *e = (*e).max(until);
    }

    fn blocked_until(&self, a: NodeId, b: NodeId) -> u64 {
        let s = self.stall.get(&(a, b)).copied().unwrap_or(0);
        let x = self.isolate.get(&a).copied().unwrap_or(0);
        let y = self.isolate.get(&b).copied().unwrap_or(0);
        s.max(x).max(y)
    }

    fn host(&self, node: NodeId) -> NodeId {
        if self.shared_host {
            0
        } else {
            node
        }
    }

    fn resolve(&self, from: NodeId, host: &str) -> Option<NodeId> {
        if host == "localhost" {
            return Some(self.host(from));
        }
        if let Some(n) = host.strip_prefix("party") {
            return n.parse().ok().map(|n| self.host(n));
        }
        let ip: IpAddr = host.parse().ok()?;
        self.node_of_ip(from, ip)
    }

    fn node_of_ip(&self, from: NodeId, ip: IpAddr) -> Option<NodeId> {
        if ip.is_loopback() || ip.is_unspecified() {
            return Some(self.host(from));
        }
        match ip {
            IpAddr::V4(v) => {
                let o = v.octets();
                if o[0] == 10 {
                    Some(self.host(u32::from_be_bytes([0, o[1], o[2], o[3]])))
                } else {
                    None
                }
            }
            _ => None,
        }
    }
}

/// Address of a node when every node is its own host.
pub fn ip_of(node: NodeId) -> Ipv4Addr {
    let b = node.to_be_bytes();
    Ipv4Addr::new(10, b[1], b[2], b[3])
}

fn now_lat(st: &mut State, now: u64, a: NodeId, b: NodeId) -> u64 {
    let (lo, hi, p) = (st.cfg.lat_min, st.cfg.lat_max, st.cfg.lat_p);
    let extra = if hi > lo && p != 0 {
        // In 1024ths of the range.
        st.maybe(Kind::Latency, 1025, p) as u64 * (hi - lo) / 1024
    } else {
        0
    };
    let block = st.net.blocked_until(a, b);
    if block > now {
        st.counters.add("segment-held-by-fault", 1);
    }
    now.max(block) + lo + extra
}

fn send_seg(st: &mut State, now: u64, to: EndId, seg: Seg) {
    let from_node = st.net.conns[to.conn][1 - to.side].node;
    let to_node = st.net.conns[to.conn][to.side].node;
    let t = now_lat(st, now, from_node, to_node);
    let e = &mut st.net.conns[to.conn][to.side];
    let t = t.max(e.last_arrival);
    e.last_arrival = t;
    if let Seg::Data(d) = &seg {
        e.inflight_bytes += d.len();
    }
    e.inflight.push_back((t, seg));
    st.counters.add("segments", 1);
    st.push_event(t, Box::new(move |sim| arrive(sim, to)));
}

fn arrive(sim: &Arc<Sim>, to: EndId) {
    let mut wakers: Vec<Option<Waker>> = Vec::new();
    {
        let mut st = sim.lock();
        let now = sim.now();
        let e = &mut st.net.conns[to.conn][to.side];
        // A segment may have been discarded by a crash or reset since.
        match e.inflight.front() {
            Some((t, _)) if *t <= now => {}
            _ => return,
        }
        let (_, seg) = e.inflight.pop_front().unwrap();
        if let Seg::Data(d) = &seg {
            e.inflight_bytes -= d.len();
        }
        if e.dead {
            return;
        }
        let other = EndId { conn: to.conn, side: 1 - to.side };
        match seg {
            Seg::Data(d) => {
                if e.closed {
                    st.counters.add("data-to-closed-socket", 1);
                    reset_to(&mut st, now, other);
                } else if !e.rst {
                    e.rx.extend(d);
                    wakers.push(e.rwaker.take());
                }
            }
            Seg::Fin => {
                e.fin = true;
                wakers.push(e.rwaker.take());
            }
            Seg::Rst => {
                e.rst = true;
                wakers.push(e.rwaker.take());
                wakers.push(e.wwaker.take());
            }
        }
    }
    wakers.into_iter().flatten().for_each(|w| w.wake());
}

pub fn poll_write(sim: &Arc<Sim>, id: EndId, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
    let mut st = sim.lock();
    let now = sim.now();
    let wnd = if st.cfg.wnd == 0 { 65536 } else { st.cfg.wnd as usize };
    let peer = EndId { conn: id.conn, side: 1 - id.side };
    let e = &st.net.conns[id.conn][id.side];
    if e.rst {
        return Poll::Ready(Err(io::ErrorKind::ConnectionReset.into()));
    }
    if e.wclosed || e.closed {
        return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()));
    }
    if buf.is_empty() {
        return Poll::Ready(Ok(0));
    }
    let p = &st.net.conns[peer.conn][peer.side];
    let used = p.rx.len() + p.inflight_bytes;
    if used >= wnd {
        st.net.conns[id.conn][id.side].wwaker = Some(cx.waker().clone());
        st.counters.add("write-blocked-by-window", 1);
        return Poll::Pending;
    }
    let max = buf.len().min(wnd - used);
    let n = piece(&mut st, Kind::SegWrite, max);
    if n < buf.len() {
        st.counters.add("short-write", 1);
    }
    send_seg(&mut st, now, peer, Seg::Data(buf[..n].to_vec()));
    let key = (st.net.conns[id.conn][id.side].node, st.net.conns[peer.conn][peer.side].node);
    *st.net.wire.entry(key).or_insert(0) += n as u64;
    Poll::Ready(Ok(n))
}

fn piece(st: &mut State, kind: Kind, max: usize) -> usize {
    if st.cfg.seg == 0 || max <= 1 {
        return max;
    }
    let mode = st.cfg.seg;
    // Decision v = bytes taken away from the whole buffer.
    let cut = st.choose(kind, max as u32, |r| {
        let keep = match mode {
            1 => r.range(1, 4.min(max as u64)),
            2 => r.log(1, max as u64),
            _ => (max as u64).min(1460),
        };
        max as u32 - keep as u32
    });
    max - cut as usize
}

/// Copies arrived bytes; Ok(0) is end of stream.
pub fn poll_read(sim: &Arc<Sim>, id: EndId, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
    let (n, w) = {
        let mut st = sim.lock();
        let e = &mut st.net.conns[id.conn][id.side];
        if e.rx.is_empty() {
            if e.rst {
                return Poll::Ready(Err(io::ErrorKind::ConnectionReset.into()));
            }
            if e.fin || e.closed || buf.is_empty() {
                return Poll::Ready(Ok(0));
            }
            e.rwaker = Some(cx.waker().clone());
            return Poll::Pending;
        }
        let max = e.rx.len().min(buf.len());
        if max == 0 {
            return Poll::Ready(Ok(0));
        }
        let n = piece(&mut st, Kind::SegRead, max);
        if n < buf.len() {
            st.counters.add("short-read", 1);
        }
        let e = &mut st.net.conns[id.conn][id.side];
        for (d, s) in buf.iter_mut().zip(e.rx.drain(..n)) {
            *d = s;
        }
        (n, st.net.conns[id.conn][1 - id.side].wwaker.take())
    };
    if let Some(w) = w {
        w.wake();
    }
    Poll::Ready(Ok(n))
}

/// Whether a read would not wait.
pub fn poll_readable(sim: &Arc<Sim>, id: EndId, cx: &mut Context<'_>) -> Poll<()> {
    let mut st = sim.lock();
    let e = &mut st.net.conns[id.conn][id.side];
    if !e.rx.is_empty() || e.rst || e.fin || e.closed {
        return Poll::Ready(());
    }
    e.rwaker = Some(cx.waker().clone());
    Poll::Pending
}

/// Whether a write would not wait.
pub fn poll_writable(sim: &Arc<Sim>, id: EndId, cx: &mut Context<'_>) -> Poll<()> {
    let mut st = sim.lock();
    let wnd = if st.cfg.wnd == 0 { 65536 } else { st.cfg.wnd as usize };
    let p = &st.net.conns[id.conn][1 - id.side];
    let full = p.rx.len() + p.inflight_bytes >= wnd;
    let e = &mut st.net.conns[id.conn][id.side];
    if !full || e.rst || e.wclosed || e.closed {
        return Poll::Ready(());
    }
    e.wwaker = Some(cx.waker().clone());
    Poll::Pending
}

/// Arrived bytes without taking them.
pub fn poll_peek(sim: &Arc<Sim>, id: EndId, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
    if poll_readable(sim, id, cx).is_pending() {
        return Poll::Pending;
    }
    let st = sim.lock();
    let e = &st.net.conns[id.conn][id.side];
    if e.rx.is_empty() && e.rst {
        return Poll::Ready(Err(io::ErrorKind::ConnectionReset.into()));
    }
    let n = buf.len().min(e.rx.len());
    buf.iter_mut().zip(&e.rx).for_each(|(d, s)| *d = *s);
    Poll::Ready(Ok(n))
}

/// No more writes from this end.
pub fn shutdown_write(sim: &Arc<Sim>, id: EndId) {
    let mut st = sim.lock();
    let now = sim.now();
    let e = &mut st.net.conns[id.conn][id.side];
    if e.wclosed || e.closed || e.rst {
        return;
    }
    e.wclosed = true;
    send_seg(&mut st, now, EndId { conn: id.conn, side: 1 - id.side }, Seg::Fin);
}

/// The last handle of this end is gone.
pub fn close(sim: &Arc<Sim>, id: EndId) {
    let mut st = sim.lock();
    close_locked(&mut st, sim.now(), id);
}

fn close_locked(st: &mut State, now: u64, id: EndId) {
    let e = &mut st.net.conns[id.conn][id.side];
    if e.closed {
        return;
    }
    e.closed = true;
    if e.dead || e.rst {
        return;
    }
    let unread = !e.rx.is_empty();
    e.rx.clear();
    let w = e.wclosed;
    let peer = EndId { conn: id.conn, side: 1 - id.side };
    if unread {
        // Data the program never read is thrown away and the peer is told by a reset.
        st.counters.add("close-with-unread-data", 1);
        reset_to(st, now, peer);
    } else if !w {
        send_seg(st, now, peer, Seg::Fin);
    }
}

/// Resets the connection; what was sent before and has not arrived yet may be lost.
fn reset_to(st: &mut State, now: u64, to: EndId) {
    if st.maybe(Kind::ResetLoss, 2, 512) != 0 {
        let e = &mut st.net.conns[to.conn][to.side];
        let lost = !e.inflight.is_empty();
        e.inflight.clear();
        e.inflight_bytes = 0;
        if lost {
            st.counters.add("data-lost-by-reset", 1);
        }
    }
    send_seg(st, now, to, Seg::Rst);
}

/// The host closes everything a dead process left open.
pub fn close_all(sim: &Arc<Sim>, node: NodeId) {
    let mut st = sim.lock();
    let now = sim.now();
    let ids: Vec<EndId> = st
        .net
        .conns
        .iter()
        .enumerate()
        .flat_map(|(conn, c)| {
            (0..2).filter(move |&s| c[s].node == node).map(move |side| EndId { conn, side })
        })
        .collect();
    for id in ids {
        close_locked(&mut st, now, id);
    }
    if !st.net.shared_host {
        st.net.listeners.retain(|k, _| k.0 != node);
    }
}

/// The node's host vanishes: what it had in flight may be lost, nobody hears from it again.
pub fn blackhole(sim: &Arc<Sim>, node: NodeId) {
    let mut st = sim.lock();
    st.net.crashed.push(node);
    for c in st.net.conns.iter_mut() {
        for s in 0..2 {
            if c[s].node == node {
                c[s].dead = true;
                let p = &mut c[1 - s];
                p.inflight.clear();
                p.inflight_bytes = 0;
            }
        }
    }
}

pub fn reset_between(sim: &Arc<Sim>, a: NodeId, b: NodeId) {
    let mut wakers = Vec::new();
    {
        let mut st = sim.lock();
        for c in st.net.conns.iter_mut() {
            let pair = (c[0].node, c[1].node);
            if pair == (a, b) || pair == (b, a) {
                for e in c.iter_mut() {
                    e.inflight.clear();
                    e.inflight_bytes = 0;
                    e.rst = true;
                    wakers.push(e.rwaker.take());
                    wakers.push(e.wwaker.take());
                }
            }
        }
    }
    wakers.into_iter().flatten().for_each(|w| w.wake());
}

pub fn addrs(sim: &Arc<Sim>, id: EndId) -> (SocketAddr, SocketAddr) {
    let st = sim.lock();
    let c = &st.net.conns[id.conn];
    (c[id.side].addr, c[1 - id.side].addr)
}

#[derive(Clone, Copy, Debug)]
pub struct ListenId(NodeId, u16, SocketAddr);

impl ListenId {
    pub fn addr(&self) -> SocketAddr {
        self.2
    }
}

pub fn split_host(s: &str) -> io::Result<(String, u16)> {
    let bad = || io::Error::new(io::ErrorKind::InvalidInput, "invalid socket address");
    let (h, p) = s.rsplit_once(':').ok_or_else(bad)?;
    Ok((h.to_string(), p.parse().map_err(|_| bad())?))
}

pub fn bind(sim: &Arc<Sim>, host: &str, port: u16) -> io::Result<ListenId> {
    let node = sim.node();
    let mut st = sim.lock();
    let ip: Option<IpAddr> = match host.parse::<IpAddr>() {
        Ok(ip) if ip.is_unspecified() => None,
        Ok(ip) => Some(ip),
        Err(_) => None,
    };
    let key_node = st.net.host(node);
    let port = if port == 0 { ephemeral(&mut st) } else { port };
    if st.net.listeners.contains_key(&(key_node, port)) {
        return Err(io::ErrorKind::AddrInUse.into());
    }
    st.net.listeners.insert(
        (key_node, port),
        Listener { queue: VecDeque::new(), waker: None, ip },
    );
    let addr = SocketAddr::new(ip.unwrap_or(IpAddr::V4(Ipv4Addr::UNSPECIFIED)), port);
    Ok(ListenId(key_node, port, addr))
}

fn ephemeral(st: &mut State) -> u16 {
    let p = st.net.next_port.max(32768);
    st.net.next_port = if p == 60999 { 32768 } else { p + 1 };
    p
}

pub fn poll_accept(sim: &Arc<Sim>, l: ListenId, cx: &mut Context<'_>) -> Poll<io::Result<EndId>> {
    let mut st = sim.lock();
    let Some(ls) = st.net.listeners.get_mut(&(l.0, l.1)) else {
        return Poll::Ready(Err(io::ErrorKind::InvalidInput.into()));
    };
    match ls.queue.pop_front() {
        Some(id) => Poll::Ready(Ok(id)),
        None => {
            ls.waker = Some(cx.waker().clone());
            Poll::Pending
        }
    }
}

pub fn unbind(sim: &Arc<Sim>, l: ListenId) {
    let mut st = sim.lock();
    if let Some(ls) = st.net.listeners.remove(&(l.0, l.1)) {
        let now = sim.now();
        for id in ls.queue {
            // Never accepted: the peer sees a reset.
            st.net.conns[id.conn][id.side].closed = true;
            send_seg(&mut st, now, EndId { conn: id.conn, side: 1 - id.side }, Seg::Rst);
        }
    }
}

#[derive(Default)]
struct Pending {
    done: Option<io::Result<EndId>>,
    waker: Option<Waker>,
    gone: bool,
}

/// A connection attempt; dropping it abandons the attempt.
pub struct Connecting(Arc<Mutex<Pending>>, Arc<Sim>);

impl Connecting {
    pub fn poll(&self, cx: &mut Context<'_>) -> Poll<io::Result<EndId>> {
        let mut p = self.0.lock().unwrap();
        match p.done.take() {
            Some(r) => Poll::Ready(r),
            None => {
                p.waker = Some(cx.waker().clone());
                Poll::Pending
            }
        }
    }
}

impl Drop for Connecting {
    fn drop(&mut self) {
        let left = {
            let mut p = self.0.lock().unwrap();
            p.gone = true;
            p.done.take()
        };
        if let Some(Ok(id)) = left {
            close(&self.1, id);
        }
    }
}

fn complete(slot: &Arc<Mutex<Pending>>, r: io::Result<EndId>) {
    let w = {
        let mut p = slot.lock().unwrap();
        p.done = Some(r);
        p.waker.take()
    };
    if let Some(w) = w {
        w.wake()
    }
}

pub fn connect(sim: &Arc<Sim>, host: &str, port: u16) -> Connecting {
    let slot = Arc::new(Mutex::new(Pending::default()));
    let me = sim.node();
    let mut st = sim.lock();
    let now = sim.now();
    let Some(target) = st.net.resolve(me, host) else {
        let s = slot.clone();
        st.push_event(now, Box::new(move |_| complete(&s, Err(io::Error::other("unknown host")))));
        return Connecting(slot, sim.clone());
    };
    let p = st.cfg.connect_p;
    let what = st.maybe(Kind::Connect, 4, p);
    let mut t = now_lat(&mut st, now, me, target);
    st.counters.add("connect-attempts", 1);
    match what {
        1 => {
            st.counters.add("connect-refused-by-fault", 1);
            let s = slot.clone();
            st.push_event(t, Box::new(move |_| complete(&s, Err(io::ErrorKind::ConnectionRefused.into()))));
            return Connecting(slot, sim.clone());
        }
        2 => {
            st.counters.add("connect-timeout-by-fault", 1);
            let s = slot.clone();
            st.push_event(
                t + 30_000_000_000,
                Box::new(move |_| complete(&s, Err(io::ErrorKind::TimedOut.into()))),
            );
            return Connecting(slot, sim.clone());
        }
        3 => {
            st.counters.add("connect-slow-by-fault", 1);
            t += 3_000_000_000;
        }
        _ => {}
    }
    let s = slot.clone();
    st.push_event(t, Box::new(move |sim| syn(sim, s, me, target, port)));
    drop(st);
    Connecting(slot, sim.clone())
}

fn syn(sim: &Arc<Sim>, slot: Arc<Mutex<Pending>>, me: NodeId, target: NodeId, port: u16) {
    if slot.lock().unwrap().gone {
        return;
    }
    {
        let mut st = sim.lock();
        let now = sim.now();
        if st.net.crashed.contains(&target) {
            st.push_event(
                now + 30_000_000_000,
                Box::new(move |_| complete(&slot, Err(io::ErrorKind::TimedOut.into()))),
            );
            return;
        }
        let back = now_lat(&mut st, now, target, me);
        let ip = IpAddr::V4(if st.net.shared_host { Ipv4Addr::LOCALHOST } else { ip_of(me) });
        let tip = IpAddr::V4(if st.net.shared_host { Ipv4Addr::LOCALHOST } else { ip_of(target) });
        let open = match st.net.listeners.get(&(target, port)) {
            Some(l) => l.ip.is_none() || l.ip == Some(tip) || l.ip.unwrap().is_loopback(),
            None => false,
        };
        if !open {
            st.counters.add("connect-refused-not-listening", 1);
            st.push_event(back, Box::new(move |_| complete(&slot, Err(io::ErrorKind::ConnectionRefused.into()))));
            return;
        }
        let my_port = ephemeral(&mut st);
        let conn = st.net.conns.len();
        // Which node really answers is known to the listener owner only; with a shared host the
        // server end belongs to whoever accepts it.
        let mut srv = End::new(if st.net.shared_host { NO_NODE } else { target }, SocketAddr::new(tip, port));
        let mut cli = End::new(me, SocketAddr::new(ip, my_port));
        srv.last_arrival = now;
        cli.last_arrival = back;
        st.net.conns.push([cli, srv]);
        // The server learns of it with the last step of the handshake, which needs the client to
        // be there still.
        st.push_event(
            back,
            Box::new(move |sim| {
                if slot.lock().unwrap().gone {
                    sim.lock().counters.add("connect-abandoned", 1);
                    return;
                }
                complete(&slot, Ok(EndId { conn, side: 0 }));
                let mut st = sim.lock();
                let now = sim.now();
                let at = now_lat(&mut st, now, me, target);
                st.push_event(at, Box::new(move |sim| established(sim, conn, target, port)));
            }),
        );
    }
}

fn established(sim: &Arc<Sim>, conn: usize, target: NodeId, port: u16) {
    let id = EndId { conn, side: 1 };
    let waker = {
        let mut st = sim.lock();
        match st.net.listeners.get_mut(&(target, port)) {
            Some(l) => {
                l.queue.push_back(id);
                l.waker.take()
            }
            None => {
                let now = sim.now();
                st.net.conns[id.conn][id.side].closed = true;
                send_seg(&mut st, now, EndId { conn, side: 0 }, Seg::Rst);
                None
            }
        }
    };
    if let Some(w) = waker {
        w.wake()
    }
}

/// Called when a server end is handed to a program.
pub fn adopt(sim: &Arc<Sim>, id: EndId) {
    let node = sim.node();
    sim.lock().net.conns[id.conn][id.side].node = node;
}

/// When something sent now from a to b would arrive, for message-level links.
pub fn arrival(sim: &Arc<Sim>, a: NodeId, b: NodeId) -> u64 {
    let mut st = sim.lock();
    let now = sim.now();
    now_lat(&mut st, now, a, b)
}
