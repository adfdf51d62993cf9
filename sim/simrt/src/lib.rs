//! Seeded whole-system simulator: executor, clock, sockets, files, entropy and faults.
//!
//! One run lives on one thread (plus one parked thread per simulated process, only one of which
//! ever runs at a time).  Everything that could differ between two executions is a decision drawn
//! through `choice`.

pub mod choice;
pub mod fs;
pub mod interpose;
pub mod net;
pub mod process;
pub mod rng;

use choice::{Choice, Kind, Source, KINDS};
use rng::{mix, Rng};
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::cmp::Reverse;
use std::collections::{BTreeMap, BinaryHeap};
use std::future::Future;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering};
use std::sync::{Arc, Mutex, MutexGuard, Weak};
use std::task::{Context, Wake, Waker};

pub type BoxFut = Pin<Box<dyn Future<Output = ()> + Send>>;
pub type NodeId = u32;
pub type TaskId = u32;

/// Node id of harness tasks that belong to no party.
pub const NO_NODE: NodeId = u32::MAX;

/// Knobs of one simulated world.  All zero is the plainest world.
#[derive(Clone, Debug, Default, Serialize, Deserialize, PartialEq)]
#[serde(default)]
pub struct Cfg {
    /// 0 fifo, 1 uniform, 2 lifo, 3 random priorities, 4 mostly fifo, 5 starve one node, 6 bursts
    pub sched: u8,
    /// Node starved (sched 5).
    pub starve: u32,
    /// Probability (of 1024) of a spurious cooperative yield.
    pub yield_p: u32,
    /// Random select! branch order.
    pub select: bool,
    /// Simulated cost of one task step.
    pub step_ns: u64,
    /// Extra latency range added to each segment.
    pub lat_min: u64,
    pub lat_max: u64,
    /// Probability (of 1024) that a segment is delayed at all beyond lat_min.
    pub lat_p: u32,
    /// 0 whole buffers, 1 tiny pieces, 2 any size, 3 at most 1460 bytes
    pub seg: u8,
    /// Bytes a link holds before writes block (0: 64 KiB).
    pub wnd: u32,
    /// Probability (of 1024) that a connection attempt is refused, lost or slow.
    pub connect_p: u32,
    /// Parallel worker count seen by data-parallel code (0: 1).
    pub ray_threads: u32,
    /// Probability (of 1024) of reversing a join / pretending it was stolen.
    pub ray_p: u32,
    /// Probability (of 1024) of a short or interrupted file transfer.
    pub fs_p: u32,
    pub faults: Vec<Fault>,
    pub max_steps: u64,
    pub max_ns: u64,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Fault {
    /// Fires when this many task steps have been executed.
    pub step: u64,
    pub kind: FaultKind,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum FaultKind {
    /// The node's tasks do not run for a while.
    Pause { node: u32, ns: u64 },
    /// Nothing travels from a to b for a while.
    Stall { a: u32, b: u32, ns: u64 },
    /// Nothing travels to or from the node for a while.
    Isolate { node: u32, ns: u64 },
    /// The connection(s) between a and b are reset.
    Reset { a: u32, b: u32 },
    /// The process dies; its host closes its sockets.
    Kill { node: u32 },
    /// The host dies: nothing more comes from it and nobody is told.
    HostCrash { node: u32 },
}

impl FaultKind {
    pub fn name(&self) -> &'static str {
        match self {
            FaultKind::Pause { .. } => "pause-node",
            FaultKind::Stall { .. } => "stall-link",
            FaultKind::Isolate { .. } => "isolate-node",
            FaultKind::Reset { .. } => "reset-connection",
            FaultKind::Kill { .. } => "kill-process",
            FaultKind::HostCrash { .. } => "crash-host",
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Stop {
    /// Nothing can run and no timer is pending.
    Quiescent,
    StepLimit,
    TimeLimit,
    Requested,
}

#[derive(Clone, Debug)]
pub struct PanicRec {
    pub node: NodeId,
    pub msg: String,
    pub loc: String,
    /// Innermost frames are not kept; the message and place are enough to tell panics apart.
    pub step: u64,
}

/// Counted events, by name.
#[derive(Clone, Debug, Default)]
pub struct Counters {
    pub map: std::collections::BTreeMap<&'static str, u64>,
}

impl Counters {
    pub fn add(&mut self, k: &'static str, v: u64) {
        *self.map.entry(k).or_insert(0) += v;
    }
}

type Event = Box<dyn FnOnce(&Arc<Sim>) + Send>;

struct Timed {
    at: u64,
    seq: u64,
    ev: Event,
}
impl PartialEq for Timed {
    fn eq(&self, o: &Self) -> bool {
        (self.at, self.seq) == (o.at, o.seq)
    }
}
impl Eq for Timed {}
impl PartialOrd for Timed {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Timed {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        (self.at, self.seq).cmp(&(o.at, o.seq))
    }
}

struct Slot {
    fut: Option<BoxFut>,
    proc: Option<Arc<process::Proc>>,
    node: NodeId,
    queued: bool,
    alive: bool,
    waker: Waker,
    prio: u64,
}

#[derive(Default, Clone)]
pub struct Node {
    pub paused_until: u64,
    pub dead: bool,
    pub args: Vec<String>,
    pub stdout: Vec<u8>,
    /// How much had been written when.
    pub marks: Vec<(usize, u64)>,
    pub threads: u32,
    pub exit: Option<i32>,
}

pub struct State {
    pub cfg: Cfg,
    pub choice: Choice,
    heap: BinaryHeap<Reverse<Timed>>,
    seq: u64,
    tasks: Vec<Slot>,
    ready: Vec<TaskId>,
    pub nodes: Vec<Node>,
    pub net: net::Net,
    pub counters: Counters,
    pub steps: u64,
    pub polls_multi: u64,
    pub trace_hash: u64,
    pub trace: Option<Vec<String>>,
    next_fault: usize,
    stop: bool,
    last_node: NodeId,
    prio_rng: Rng,
}

/// One entropy stream per node.
struct Entropy {
    seed: u64,
    salts: BTreeMap<NodeId, u64>,
    streams: BTreeMap<NodeId, Rng>,
}

impl Entropy {
    fn of(&mut self, node: NodeId) -> &mut Rng {
        let salt = self.salts.get(&node).copied().unwrap_or(0);
        let seed = mix(mix(self.seed, node as u64), salt);
        self.streams.entry(node).or_insert_with(|| Rng::stream(seed, "entropy"))
    }
}

pub struct Sim {
    st: Mutex<State>,
    pub fs: Mutex<fs::Fs>,
    now: AtomicU64,
    entropy: Mutex<Entropy>,
    cur_node: AtomicU32,
    cur_task: AtomicU32,
    pub panics: Mutex<Vec<PanicRec>>,
    step_at: AtomicU64,
}

struct TaskWaker {
    sim: Weak<Sim>,
    id: TaskId,
}

impl Wake for TaskWaker {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        if let Some(sim) = self.sim.upgrade() {
            sim.lock().make_ready(self.id);
        }
    }
}

thread_local! {
    static CTX: Cell<*const Sim> = const { Cell::new(std::ptr::null()) };
}

/// The simulator of this thread, if it runs inside one.
pub fn current() -> Option<Arc<Sim>> {
    let p = CTX.try_with(|c| c.get()).unwrap_or(std::ptr::null());
    if p.is_null() {
        return None;
    }
    // The pointer comes from an Arc kept alive by the guard that set it.
    unsafe {
        Arc::increment_strong_count(p);
        Some(Arc::from_raw(p))
    }
}

fn with_ctx<R>(f: impl FnOnce(&Sim) -> R) -> Option<R> {
    let p = CTX.try_with(|c| c.get()).unwrap_or(std::ptr::null());
    if p.is_null() {
        None
    } else {
        Some(f(unsafe { &*p }))
    }
}

pub fn in_sim() -> bool {
    CTX.try_with(|c| !c.get().is_null()).unwrap_or(false)
}

pub struct Enter {
    prev: *const Sim,
    _sim: Arc<Sim>,
}

impl Drop for Enter {
    fn drop(&mut self) {
        CTX.with(|c| c.set(self.prev));
    }
}

/// Temporarily leave the simulator (real time, real files) on this thread.
pub struct Outside(*const Sim);
pub fn outside() -> Outside {
    Outside(CTX.with(|c| c.replace(std::ptr::null())))
}
impl Drop for Outside {
    fn drop(&mut self) {
        CTX.with(|c| c.set(self.0));
    }
}

impl State {
    fn make_ready(&mut self, id: TaskId) {
        let s = &mut self.tasks[id as usize];
        if s.alive && !s.queued {
            s.queued = true;
            self.ready.push(id);
        }
    }

    pub fn choose(&mut self, kind: Kind, n: u32, gen: impl FnOnce(&mut Rng) -> u32) -> u32 {
        self.choice.choose(kind, n, gen)
    }

    /// 0, or with probability p/1024 something in 1..n.
    pub fn maybe(&mut self, kind: Kind, n: u32, p: u32) -> u32 {
        if p == 0 || n <= 1 {
            return 0;
        }
        self.choice.choose(kind, n, |r| {
            if r.p(p) {
                1 + r.below(n as u64 - 1) as u32
            } else {
                0
            }
        })
    }

    fn pick(&mut self) -> usize {
        let n = self.ready.len();
        if n == 1 {
            return 0;
        }
        self.polls_multi += 1;
        let tasks = &self.tasks;
        let ready = &self.ready;
        let cfg = &self.cfg;
        let last = self.last_node;
        let gen = |r: &mut Rng| -> u32 {
            (match cfg.sched {
                1 => r.below(n as u64) as usize,
                2 => n - 1,
                3 => (0..n).max_by_key(|&i| tasks[ready[i] as usize].prio).unwrap(),
                4 => {
                    if r.p(100) {
                        r.below(n as u64) as usize
                    } else {
                        0
                    }
                }
                5 => (0..n)
                    .find(|&i| tasks[ready[i] as usize].node != cfg.starve)
                    .unwrap_or(0),
                6 => {
                    if r.p(990) {
                        (0..n)
                            .find(|&i| tasks[ready[i] as usize].node == last)
                            .unwrap_or_else(|| r.below(n as u64) as usize)
                    } else {
                        r.below(n as u64) as usize
                    }
                }
                _ => 0,
            }) as u32
        };
        self.choice.choose(Kind::Pick, n as u32, gen) as usize
    }

    pub fn node_mut(&mut self, n: NodeId) -> &mut Node {
        let n = n as usize;
        if self.nodes.len() <= n {
            self.nodes.resize(n + 1, Node::default());
        }
        &mut self.nodes[n]
    }

    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.trace.is_some() {
            let s = f();
            self.trace.as_mut().unwrap().push(s);
        }
    }

    fn push_event(&mut self, at: u64, ev: Event) {
        self.seq += 1;
        let seq = self.seq;
        self.heap.push(Reverse(Timed { at, seq, ev }));
    }
}

impl Sim {
    pub fn new(cfg: Cfg, src: Source, entropy_seed: u64) -> Arc<Sim> {
        let prio_seed = entropy_seed ^ 0xabcdef;
        let mut faults = cfg.faults.clone();
        faults.sort_by_key(|f| f.step);
        let mut cfg = cfg;
        cfg.faults = faults;
        if cfg.max_steps == 0 {
            cfg.max_steps = 50_000_000;
        }
        if cfg.max_ns == 0 {
            cfg.max_ns = 3_600_000_000_000;
        }
        Arc::new(Sim {
            st: Mutex::new(State {
                cfg,
                choice: Choice::new(src),
                heap: BinaryHeap::new(),
                seq: 0,
                tasks: Vec::new(),
                ready: Vec::new(),
                nodes: Vec::new(),
                net: net::Net::default(),
                counters: Counters::default(),
                steps: 0,
                polls_multi: 0,
                trace_hash: 0,
                trace: None,
                next_fault: 0,
                stop: false,
                last_node: NO_NODE,
                prio_rng: Rng::new(prio_seed),
            }),
            fs: Mutex::new(fs::Fs::default()),
            now: AtomicU64::new(0),
            entropy: Mutex::new(Entropy { seed: entropy_seed, salts: BTreeMap::new(), streams: BTreeMap::new() }),
            cur_node: AtomicU32::new(NO_NODE),
            cur_task: AtomicU32::new(u32::MAX),
            panics: Mutex::new(Vec::new()),
            step_at: AtomicU64::new(0),
        })
    }

    pub fn lock(&self) -> MutexGuard<'_, State> {
        self.st.lock().unwrap_or_else(|e| e.into_inner())
    }

    pub fn enter(self: &Arc<Self>) -> Enter {
        let prev = CTX.with(|c| c.replace(Arc::as_ptr(self)));
        Enter { prev, _sim: self.clone() }
    }

    pub fn now(&self) -> u64 {
        self.now.load(Ordering::Relaxed)
    }

    pub fn step_no(&self) -> u64 {
        self.step_at.load(Ordering::Relaxed)
    }

    pub fn fill_entropy(&self, buf: &mut [u8]) {
        self.entropy.lock().unwrap_or_else(|e| e.into_inner()).of(self.node()).fill(buf)
    }

    fn rand_u64(&self) -> u64 {
        self.entropy.lock().unwrap_or_else(|e| e.into_inner()).of(self.node()).next()
    }

    /// Gives a node an entropy stream other than its usual one.
    pub fn salt_node(&self, node: NodeId, salt: u64) {
        self.entropy.lock().unwrap_or_else(|e| e.into_inner()).salts.insert(node, salt);
    }

    pub fn node(&self) -> NodeId {
        self.cur_node.load(Ordering::Relaxed)
    }

    pub fn set_node(&self, n: NodeId) -> NodeId {
        self.cur_node.swap(n, Ordering::Relaxed)
    }

    pub fn count(&self, k: &'static str, v: u64) {
        self.lock().counters.add(k, v)
    }

    /// Runs `ev` at a simulated time.
    pub fn at(&self, at: u64, ev: impl FnOnce(&Arc<Sim>) + Send + 'static) {
        self.lock().push_event(at, Box::new(ev))
    }

    pub fn after(&self, d: u64, ev: impl FnOnce(&Arc<Sim>) + Send + 'static) {
        self.at(self.now().saturating_add(d), ev)
    }

    fn add_slot(
        self: &Arc<Self>,
        node: NodeId,
        fut: Option<BoxFut>,
        proc: Option<Arc<process::Proc>>,
    ) -> TaskId {
        let mut st = self.lock();
        let id = st.tasks.len() as TaskId;
        let waker = Waker::from(Arc::new(TaskWaker { sim: Arc::downgrade(self), id }));
        let prio = st.prio_rng.next();
        // A task spawned by a node that is already dead never runs.
        let alive = node == NO_NODE || !st.node_mut(node).dead;
        st.tasks.push(Slot { fut, proc, node, queued: false, alive, waker, prio });
        st.make_ready(id);
        if !alive {
            let fut = st.tasks[id as usize].fut.take();
            drop(st);
            drop(fut);
        }
        id
    }

    pub fn spawn_on(self: &Arc<Self>, node: NodeId, fut: BoxFut) -> TaskId {
        self.add_slot(node, Some(fut), None)
    }

    /// Spawns on the node of the running task.
    pub fn spawn(self: &Arc<Self>, fut: BoxFut) -> TaskId {
        self.spawn_on(self.node(), fut)
    }

    /// Drops the task's future as soon as it is not running.
    pub fn cancel(self: &Arc<Self>, id: TaskId) {
        let node;
        let fut = {
            let mut st = self.lock();
            let s = &mut st.tasks[id as usize];
            s.alive = false;
            node = s.node;
            s.fut.take()
        };
        self.drop_as(node, fut);
    }

    fn drop_as<T>(&self, node: NodeId, v: T) {
        let prev = self.set_node(node);
        let _ = catch_unwind(AssertUnwindSafe(|| drop(v)));
        self.set_node(prev);
    }

    /// Drops all tasks of a node (its runtime shut down).
    pub fn drop_tasks(self: &Arc<Self>, node: NodeId) {
        let futs: Vec<_> = {
            let mut st = self.lock();
            st.tasks
                .iter_mut()
                .filter(|s| s.node == node && s.proc.is_none())
                .filter_map(|s| {
                    s.alive = false;
                    s.fut.take()
                })
                .collect()
        };
        for f in futs {
            self.drop_as(node, f);
        }
    }

    /// The process of `node` is gone: tasks vanish, the host closes its sockets.
    pub fn end_process(self: &Arc<Self>, node: NodeId) {
        self.lock().node_mut(node).dead = true;
        self.drop_tasks(node);
        net::close_all(self, node);
        let procs: Vec<_> = {
            let st = self.lock();
            st.tasks
                .iter()
                .enumerate()
                .filter(|(_, s)| s.node == node && s.alive)
                .filter_map(|(i, s)| s.proc.clone().map(|p| (i as TaskId, p)))
                .collect()
        };
        for (id, p) in procs {
            p.request_kill();
            self.lock().make_ready(id);
        }
    }

    pub fn crash_host(self: &Arc<Self>, node: NodeId) {
        net::blackhole(self, node);
        self.end_process(node);
    }

    pub fn request_stop(&self) {
        self.lock().stop = true;
    }

    fn apply_fault(self: &Arc<Self>, k: FaultKind) {
        {
            let mut st = self.lock();
            st.counters.add(k.name(), 1);
            let now = self.now();
            st.note(|| format!("[{now}] fault {k:?}"));
        }
        let now = self.now();
        match k {
            FaultKind::Pause { node, ns } => {
                let mut st = self.lock();
                let n = st.node_mut(node);
                n.paused_until = n.paused_until.max(now + ns);
            }
            FaultKind::Stall { a, b, ns } => self.lock().net.stall(a, b, now + ns),
            FaultKind::Isolate { node, ns } => self.lock().net.isolate(node, now + ns),
            FaultKind::Reset { a, b } => net::reset_between(self, a, b),
            FaultKind::Kill { node } => self.end_process(node),
            FaultKind::HostCrash { node } => self.crash_host(node),
        }
    }

    /// Runs until nothing is left to do or a limit is hit.
    pub fn run(self: &Arc<Self>) -> Stop {
        loop {
            let mut st = self.lock();
            if st.stop {
                st.stop = false;
                return Stop::Requested;
            }
            if st.steps >= st.cfg.max_steps {
                return Stop::StepLimit;
            }
            let now = self.now();
            if now > st.cfg.max_ns {
                return Stop::TimeLimit;
            }
            if st.next_fault < st.cfg.faults.len()
                && st.cfg.faults[st.next_fault].step <= st.steps
            {
                let k = st.cfg.faults[st.next_fault].kind.clone();
                st.next_fault += 1;
                drop(st);
                self.apply_fault(k);
                continue;
            }
            if let Some(Reverse(top)) = st.heap.peek() {
                if top.at <= now {
                    let Reverse(t) = st.heap.pop().unwrap();
                    drop(st);
                    (t.ev)(self);
                    continue;
                }
            }
            if st.ready.is_empty() {
                match st.heap.peek() {
                    Some(Reverse(top)) => {
                        let at = top.at;
                        self.now.store(at, Ordering::Relaxed);
                        continue;
                    }
                    None => return Stop::Quiescent,
                }
            }
            let i = st.pick();
            let id = st.ready.remove(i);
            let slot = &mut st.tasks[id as usize];
            slot.queued = false;
            if !slot.alive {
                continue;
            }
            let node = slot.node;
            if node != NO_NODE {
                let until = st.node_mut(node).paused_until;
                if until > now {
                    let w = st.tasks[id as usize].waker.clone();
                    st.push_event(until, Box::new(move |_| w.wake()));
                    continue;
                }
            }
            st.steps += 1;
            self.step_at.store(st.steps, Ordering::Relaxed);
            let step_ns = st.cfg.step_ns;
            st.last_node = node;
            st.trace_hash = mix(st.trace_hash, ((id as u64) << 8) ^ 1);
            if st.cfg.sched == 3 && st.prio_rng.below(64) == 0 {
                let p = st.prio_rng.next();
                st.tasks[id as usize].prio = p >> 8;
            }
            st.note(|| format!("[{now}] task {id} node {node}"));
            let slot = &mut st.tasks[id as usize];
            let waker = slot.waker.clone();
            let proc = slot.proc.clone();
            let fut = slot.fut.take();
            drop(st);

            self.now.store(now + step_ns, Ordering::Relaxed);
            self.cur_node.store(node, Ordering::Relaxed);
            self.cur_task.store(id, Ordering::Relaxed);
            if let Some(p) = proc {
                if p.resume() {
                    self.lock().tasks[id as usize].alive = false;
                    let code = p.exit_code();
                    self.lock().node_mut(node).exit = Some(code);
                    self.end_process(node);
                }
            } else if let Some(mut fut) = fut {
                let mut cx = Context::from_waker(&waker);
                let res = catch_unwind(AssertUnwindSafe(|| fut.as_mut().poll(&mut cx)));
                let done = !matches!(res, Ok(std::task::Poll::Pending));
                let keep = {
                    let mut st = self.lock();
                    let s = &mut st.tasks[id as usize];
                    if done {
                        s.alive = false;
                    }
                    if s.alive {
                        s.fut = Some(fut);
                        None
                    } else {
                        Some(fut)
                    }
                };
                if let Some(f) = keep {
                    self.drop_as(node, f);
                }
            }
            self.cur_node.store(NO_NODE, Ordering::Relaxed);
            self.cur_task.store(u32::MAX, Ordering::Relaxed);
        }
    }

    /// Drops every task and event; must be called before the simulator is discarded.
    pub fn shutdown(self: &Arc<Self>) {
        loop {
            let (futs, evs, procs) = {
                let mut st = self.lock();
                let futs: Vec<_> = st
                    .tasks
                    .iter_mut()
                    .filter_map(|s| {
                        s.alive = s.alive && s.proc.is_some();
                        s.fut.take().map(|f| (s.node, f))
                    })
                    .collect();
                let procs: Vec<_> = st
                    .tasks
                    .iter_mut()
                    .filter(|s| s.alive)
                    .filter_map(|s| {
                        s.alive = false;
                        s.proc.take()
                    })
                    .collect();
                let evs = std::mem::take(&mut st.heap);
                (futs, evs, procs)
            };
            if futs.is_empty() && evs.is_empty() && procs.is_empty() {
                break;
            }
            for p in procs {
                p.request_kill();
                while !p.resume() {}
            }
            for (n, f) in futs {
                self.drop_as(n, f);
            }
            let _ = catch_unwind(AssertUnwindSafe(|| drop(evs)));
        }
    }

    pub fn decisions(&self) -> (u64, [u64; KINDS], [u64; KINDS]) {
        let st = self.lock();
        (st.choice.total(), st.choice.counts, st.choice.nonzero)
    }
}

// ---- entry points used by the patched crates -------------------------------------------------

/// Should the running task yield now, although it could go on?
pub fn coop_yield() -> bool {
    with_ctx(|s| {
        let mut st = s.lock();
        let p = st.cfg.yield_p;
        p != 0 && st.maybe(Kind::Yield, 2, p) != 0
    })
    .unwrap_or(false)
}

/// First branch polled by select!.
pub fn select_start(n: u32) -> u32 {
    with_ctx(|s| {
        let mut st = s.lock();
        if st.cfg.select {
            st.choose(Kind::Select, n, |r| r.below(n as u64) as u32)
        } else {
            0
        }
    })
    .unwrap_or(0)
}

/// (run second half first, first half looks stolen, second half looks stolen)
pub fn join_order() -> (bool, bool, bool) {
    with_ctx(|s| {
        let mut st = s.lock();
        let p = st.cfg.ray_p;
        if p == 0 {
            return (false, false, false);
        }
        let o = st.maybe(Kind::RayOrder, 2, p) != 0;
        let m = st.maybe(Kind::RayStolen, 4, p);
        (o, m & 1 != 0, m & 2 != 0)
    })
    .unwrap_or((false, false, false))
}

pub fn worker_threads() -> usize {
    with_ctx(|s| {
        let node = s.node();
        let mut st = s.lock();
        let per_node = if node != NO_NODE { st.node_mut(node).threads } else { 0 };
        let n = if per_node != 0 { per_node } else { st.cfg.ray_threads };
        n.max(1) as usize
    })
    .unwrap_or(1)
}

pub fn set_worker_threads(n: usize) {
    with_ctx(|s| {
        let node = s.node();
        if node != NO_NODE {
            s.lock().node_mut(node).threads = n.max(1) as u32;
        }
    });
}

pub fn process_args() -> Option<Vec<String>> {
    with_ctx(|s| {
        let node = s.node();
        if node == NO_NODE {
            return None;
        }
        Some(s.lock().node_mut(node).args.clone())
    })
    .flatten()
}

/// Simulated entropy; false outside a simulation.
pub fn entropy(buf: &mut [u8]) -> bool {
    with_ctx(|s| s.fill_entropy(buf)).is_some()
}

/// The same, eight bytes at a time.
pub fn rand_u64() -> Option<u64> {
    with_ctx(|s| s.rand_u64())
}

/// Waker-based timer: wakes `w` at time `at`.
pub fn timer(at: u64, w: Waker) {
    with_ctx(|s| s.at(at, move |_| w.wake()));
}

pub fn now_ns() -> u64 {
    with_ctx(|s| s.now()).expect("time is only available inside the simulator")
}

/// Records panics of simulated code instead of printing them.
thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

/// Where this thread panicked last.
pub fn last_panic() -> String {
    LAST_PANIC.with(|l| l.borrow().clone())
}

pub fn install_panic_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "panic".into());
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let _ = LAST_PANIC.try_with(|l| *l.borrow_mut() = loc.clone());
        let rec = with_ctx(|s| {
            s.panics.lock().unwrap_or_else(|e| e.into_inner()).push(PanicRec {
                node: s.node(),
                msg: msg.clone(),
                loc: loc.clone(),
                step: s.step_no(),
            })
        });
        if rec.is_none() || std::env::var_os("SIM_PANICS").is_some() {
            default(info);
        }
    }));
}
