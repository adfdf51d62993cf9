//! C21: initialising several fields, from several threads, with allocations that fail.
//!
//! What a field's initialisation leaves behind is global to the process, so every history runs in
//! a process of its own (`dst fields`), which takes the scenario and reports what happened.  Its
//! threads run one at a time: a step goes on until it returns, is parked at an allocation or at
//! the first touch of a page of a table being built, or sleeps on a lock another step holds.

use crate::field::slow_mul;
use crate::prop::Prop;
use crate::run::{Env, Res};
use crate::{ensure, fail};
use rand::SeedableRng;
use scalable_mpc::math::galois::GF;
use serde::{Deserialize, Serialize};
use simrt::interpose::{arm_malloc, disarm_malloc};
use simrt::rng::{mix, Rng};
use std::cell::Cell;
use std::io::{Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU32, AtomicUsize, Ordering::SeqCst};
use std::sync::mpsc;
use std::time::{Duration, Instant};

/// x^w + …, as published with the tables.
const POLY: [u64; 21] = [
    0, 0, 0o7, 0o13, 0o23, 0o45, 0o103, 0o211, 0o435, 0o1021, 0o2011, 0o4005, 0o10123, 0o20033, 0o42103, 0o100003,
    0o210013, 0o400011, 0o1000201, 0o2000047, 0o4000011,
];

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Op {
    Init(u8),
    /// Arithmetic and sampling, only done once an initialisation has succeeded.
    Use(u8),
    /// Sampling, at any time.
    Sample(u8),
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Park {
    None,
    /// At the k-th allocation.
    Alloc(u32),
    /// When the page so many 256ths into the k-th allocation is first touched.
    Touch(u32, u32),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Step {
    thread: u32,
    op: Op,
    /// Which of its allocations fails.
    fails: Option<u32>,
    park: Park,
    /// How many more steps begin before it is let go.
    hold: u32,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Sc {
    seed: u64,
    steps: Vec<Step>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Ev {
    /// Step begins while so many others are under way.
    Begin(usize, usize),
    Skip(usize),
    Parked(usize),
    Blocked(usize),
    /// Result of an initialisation, whether an allocation was made to fail, and their number.
    Init(usize, bool, bool, u32),
    Good(usize, u64),
    Bad(usize, String),
    Panic(usize, String),
    Hang,
    End,
}

macro_rules! by_w {
    ($w:expr, $f:ident, $a:tt, $($k:literal)*) => {
        match $w { $($k => $f::<$k> $a,)* w => panic!("field 2^{w}") }
    };
}
macro_rules! each_w {
    ($w:expr, $f:ident $a:tt) => { by_w!($w, $f, $a, 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20) };
}

fn init<const W: u8>() -> bool {
    GF::<W>::init().is_ok()
}

fn arith<const W: u8>(seed: u64) -> Result<u64, String> {
    let w = W as u32;
    let (order, poly) = (1u64 << w, POLY[W as usize]);
    let mut rng = Rng::new(seed);
    let mut n = 0;
    for k in 0..60u64 {
        let edge = [0, 1, 2, order - 1, order / 2];
        let (a, b) = if k < 25 { (edge[(k / 5) as usize], edge[(k % 5) as usize]) } else { (rng.below(order), rng.below(order)) };
        let (a, b) = (a as u32, b as u32);
        let (x, y) = (GF::<W>::from(a), GF::<W>::from(b));
        let p: u32 = (x * y).into();
        if p != slow_mul(a, b, w, poly) {
            return Err(format!("GF(2^{w}): {a} * {b} = {p}, not {}", slow_mul(a, b, w, poly)));
        }
        let s: u32 = (x + y).into();
        if s != a ^ b {
            return Err(format!("GF(2^{w}): {a} + {b} = {s}"));
        }
        n += 2;
        if b != 0 {
            let q: u32 = (x / y).into();
            if q as u64 >= order || slow_mul(q, b, w, poly) != a {
                return Err(format!("GF(2^{w}): {a} / {b} = {q}"));
            }
            n += 1;
        }
    }
    Ok(n)
}

fn sample<const W: u8>(seed: u64) -> Result<u64, String> {
    let order = 1u64 << W;
    let mut rng = rand::rngs::StdRng::seed_from_u64(seed);
    let n = if W <= 5 { 200 * order } else { 100 };
    let mut counts = [0u32; 32];
    let (mut ones, mut zeros) = (0u64, 0u64);
    for _ in 0..n {
        let v: u32 = GF::<W>::rand(&mut rng).into();
        if v as u64 >= order {
            return Err(format!("GF(2^{W}): sampled {v}"));
        }
        ones |= v as u64;
        zeros |= !v as u64;
        if W <= 5 {
            counts[v as usize] += 1;
        }
    }
    if ones != order - 1 || zeros & (order - 1) != order - 1 {
        return Err(format!("GF(2^{W}): {n} samples, some bit never varied (set {ones:x}, clear {zeros:x})"));
    }
    if W <= 5 {
        if let Some(i) = counts[..order as usize].iter().position(|&c| !(90..=330).contains(&c)) {
            return Err(format!("GF(2^{W}): {i} sampled {} times of {n}", counts[i]));
        }
    }
    Ok(1)
}

// The process that runs one history.

const IDLE: u32 = 0;
const RUNNING: u32 = 1;
const PARKED: u32 = 2;
const THREADS: usize = 4;

#[allow(clippy::declare_interior_mutable_const)]
const Z: AtomicU32 = AtomicU32::new(0);
static STATE: [AtomicU32; THREADS] = [Z; THREADS];
static GO: [AtomicU32; THREADS] = [Z; THREADS];
static PAGE: AtomicUsize = AtomicUsize::new(0);

thread_local! {
    static ME: Cell<usize> = const { Cell::new(usize::MAX) };
    static PARK: Cell<Park> = const { Cell::new(Park::None) };
}

fn park() {
    let me = ME.get();
    GO[me].store(0, SeqCst);
    STATE[me].store(PARKED, SeqCst);
    while GO[me].load(SeqCst) == 0 {
        std::thread::sleep(Duration::from_micros(50));
    }
    GO[me].store(0, SeqCst);
    STATE[me].store(RUNNING, SeqCst);
}

fn on_alloc(k: u32) {
    if PARK.get() == Park::Alloc(k) {
        PARK.set(Park::None);
        park();
    }
}

extern "C" {
    fn mprotect(a: *mut u8, n: usize, prot: i32) -> i32;
    fn sigaction(sig: i32, new: *const Action, old: *mut Action) -> i32;
}

/// struct sigaction of this platform.
#[repr(C)]
struct Action {
    handler: usize,
    mask: [u64; 16],
    flags: i32,
    restorer: usize,
}

fn after_alloc(k: u32, p: *mut u8, n: usize) {
    if let Park::Touch(at, frac) = PARK.get() {
        let lo = (p as usize + 4095) & !4095;
        let hi = (p as usize + n) & !4095;
        if at == k && lo < hi && PAGE.load(SeqCst) == 0 {
            let page = lo + ((hi - lo) / 4096 * frac as usize / 256) * 4096;
            PAGE.store(page, SeqCst);
            unsafe { mprotect(page as *mut u8, 4096, 0) };
        }
    }
}

fn open_page() {
    let page = PAGE.swap(0, SeqCst);
    if page != 0 {
        unsafe { mprotect(page as *mut u8, 4096, 3) };
    }
}

/// Opens the page; whoever builds the table stops here first.
extern "C" fn on_fault(_sig: i32, info: *const u8, _ctx: *const u8) {
    let addr = unsafe { *(info.add(16) as *const usize) };
    let page = PAGE.load(SeqCst);
    if page == 0 || addr & !4095 != page {
        // Not ours: let it kill the process.
        let dfl = Action { handler: 0, mask: [0; 16], flags: 0, restorer: 0 };
        unsafe { sigaction(11, &dfl, std::ptr::null_mut()) };
        return;
    }
    open_page();
    if matches!(PARK.get(), Park::Touch(..)) {
        PARK.set(Park::None);
        park();
    }
}

fn sleeping(tid: i64) -> bool {
    let s = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).unwrap_or_default();
    s.rsplit(") ").next().is_some_and(|r| r.starts_with('S'))
}

fn perform(i: usize, st: &Step, known: bool, seed: u64) -> Ev {
    let res = catch_unwind(AssertUnwindSafe(|| match st.op {
        Op::Init(w) => {
            PARK.set(st.park);
            arm_malloc(4 << w, st.fails, Some(on_alloc), Some(after_alloc));
            let ok = each_w!(w, init());
            let (failed, n) = disarm_malloc();
            if matches!(PARK.replace(Park::None), Park::Touch(..)) {
                open_page();
            }
            Ev::Init(i, ok, failed, n)
        }
        Op::Use(w) => match each_w!(w, arith(seed)).and_then(|a| Ok(a + each_w!(w, sample(seed))?)) {
            Ok(n) => Ev::Good(i, n),
            Err(e) => Ev::Bad(i, e),
        },
        Op::Sample(w) => match each_w!(w, sample(seed)) {
            Ok(n) => Ev::Good(i, n),
            Err(e) if known => Ev::Bad(i, e),
            Err(_) => Ev::Good(i, 0),
        },
    }));
    disarm_malloc();
    res.unwrap_or_else(|_| Ev::Panic(i, simrt::last_panic()))
}

pub fn child() -> i32 {
    let mut text = String::new();
    std::io::stdin().read_to_string(&mut text).unwrap();
    let sc: Sc = serde_json::from_str(&text).unwrap();
    let act = Action { handler: on_fault as *const () as usize, mask: [0; 16], flags: 4 | 0x40000000, restorer: 0 };
    unsafe { sigaction(11, &act, std::ptr::null_mut()) };
    let say = |e: &Ev| {
        let mut o = std::io::stdout().lock();
        writeln!(o, "{}", serde_json::to_string(e).unwrap()).unwrap();
        o.flush().unwrap();
    };
    let (done, results) = mpsc::channel::<(usize, Ev)>();
    let mut tx = Vec::new();
    let mut tids = Vec::new();
    for t in 0..THREADS {
        let (a, b) = mpsc::channel::<(usize, Step, bool, u64)>();
        let (tid_tx, tid_rx) = mpsc::channel();
        let done = done.clone();
        std::thread::spawn(move || {
            ME.set(t);
            let link = std::fs::read_link("/proc/thread-self").unwrap();
            tid_tx.send(link.file_name().unwrap().to_str().unwrap().parse::<i64>().unwrap()).unwrap();
            for (i, st, known, seed) in b {
                let ev = perform(i, &st, known, seed);
                done.send((t, ev)).unwrap();
            }
        });
        tx.push(a);
        tids.push(tid_rx.recv().unwrap());
    }
    // Per thread: the step under way, whether it has been reported as parked or blocked, when to let go.
    let mut busy: Vec<Option<(usize, u32, usize)>> = vec![None; THREADS];
    let mut ok = [false; 32];
    let start = Instant::now();
    // Waits until every step under way has returned, is parked, or sleeps.
    let settle = |busy: &mut Vec<Option<(usize, u32, usize)>>, ok: &mut [bool; 32]| loop {
        while let Ok((t, ev)) = results.try_recv() {
            if let (Ev::Init(i, true, ..), _) = (&ev, t) {
                if let Op::Init(w) = sc.steps[*i].op {
                    ok[w as usize] = true;
                }
            }
            say(&ev);
            busy[t] = None;
            STATE[t].store(IDLE, SeqCst);
        }
        if start.elapsed() > Duration::from_secs(20) {
            say(&Ev::Hang);
            std::process::exit(0);
        }
        let mut quiet = true;
        for t in 0..THREADS {
            let Some((i, said, _)) = busy[t] else { continue };
            if STATE[t].load(SeqCst) == PARKED {
                if said != PARKED {
                    say(&Ev::Parked(i));
                    busy[t].as_mut().unwrap().1 = PARKED;
                }
                continue;
            }
            let asleep = (0..4).all(|_| {
                let s = sleeping(tids[t]) && STATE[t].load(SeqCst) == RUNNING;
                std::thread::sleep(Duration::from_micros(100));
                s
            });
            if !asleep || STATE[t].load(SeqCst) != RUNNING {
                quiet = false;
            } else if said != RUNNING {
                // Sleeping on a lock, unless its result has arrived meanwhile.
                match results.try_recv() {
                    Ok(r) => {
                        done.send(r).unwrap();
                        quiet = false;
                    }
                    Err(_) => {
                        say(&Ev::Blocked(i));
                        busy[t].as_mut().unwrap().1 = RUNNING;
                    }
                }
            }
        }
        if quiet {
            break;
        }
    };
    let release = |t: usize, busy: &mut Vec<Option<(usize, u32, usize)>>| {
        GO[t].store(1, SeqCst);
        while STATE[t].load(SeqCst) == PARKED {
            std::thread::yield_now();
        }
        for b in busy.iter_mut().flatten() {
            b.1 = 0;
        }
    };
    let finish_all = |busy: &mut Vec<Option<(usize, u32, usize)>>, ok: &mut [bool; 32]| loop {
        settle(busy, ok);
        match (0..THREADS).find(|&t| busy[t].is_some() && STATE[t].load(SeqCst) == PARKED) {
            Some(t) => release(t, busy),
            None if busy.iter().all(|b| b.is_none()) => break,
            // All that is left sleeps: nothing will wake it.
            None => {
                std::thread::sleep(Duration::from_millis(300));
                settle(busy, ok);
                if busy.iter().any(|b| b.is_some()) && (0..THREADS).all(|t| STATE[t].load(SeqCst) != PARKED) {
                    say(&Ev::Hang);
                    std::process::exit(0);
                }
            }
        }
    };
    for (i, st) in sc.steps.iter().enumerate() {
        let t = st.thread as usize % THREADS;
        for u in 0..THREADS {
            if busy[u].is_some_and(|b| b.2 <= i) && STATE[u].load(SeqCst) == PARKED {
                release(u, &mut busy);
                settle(&mut busy, &mut ok);
            }
        }
        if busy[t].is_some() {
            finish_all(&mut busy, &mut ok);
        }
        let known = match st.op {
            Op::Init(w) | Op::Use(w) | Op::Sample(w) => ok[w as usize],
        };
        if !known && matches!(st.op, Op::Use(_)) {
            say(&Ev::Skip(i));
            continue;
        }
        say(&Ev::Begin(i, busy.iter().flatten().count()));
        STATE[t].store(RUNNING, SeqCst);
        busy[t] = Some((i, 0, i + 1 + st.hold as usize));
        tx[t].send((i, st.clone(), known, mix(sc.seed, i as u64))).unwrap();
        settle(&mut busy, &mut ok);
    }
    finish_all(&mut busy, &mut ok);
    say(&Ev::End);
    0
}

pub struct Fields;

impl Prop for Fields {
    type Sc = Sc;
    const ID: &'static str = "C21";
    const QUICK: u64 = 30_000;
    const RULE: &'static str = "a case is a history of up to 14 steps (initialise, use, sample) over one to four fields GF(2^2)..GF(2^20) and up to four threads, in a process of its own; steps may have their first or second table allocation fail, and may be stopped at an allocation or at the first touch of some page of a table while other threads' steps begin; every arithmetic result and sample after a success is compared with polynomial arithmetic. Non-trivial: more than one field, or a failed allocation, or a step that began while another was stopped";
    const REAL: &'static str = "GF<W> (init, arithmetic, rand), galois.c, operating-system threads and locks";
    const STUB: &'static str = "allocator (may fail, may stop the caller), order of threads";

    fn gen(rng: &mut Rng, k: u64) -> Sc {
        let nf = 1 + rng.below(4) as usize;
        let big = k % 16 == 15;
        let fields: Vec<u8> = (0..nf)
            .map(|_| match rng.below(6) {
                0 => 18,
                1 => rng.range(2, 5) as u8,
                2 if big => rng.range(18, 20) as u8,
                _ => rng.range(2, 14) as u8,
            })
            .collect();
        let threads = rng.pick(&[1, 1, 2, 3, 4]);
        let (fail_p, park_p) = (rng.pick(&[0, 0, 200, 500]), if threads > 1 { rng.pick(&[0, 300, 700]) } else { 0 });
        let n = rng.range(2, 14);
        let mut steps = Vec::new();
        for _ in 0..n {
            let w = rng.pick(&fields);
            let op = match rng.below(8) {
                0..=3 => Op::Init(w),
                4..=6 => Op::Use(w),
                _ => Op::Sample(w),
            };
            let is_init = matches!(op, Op::Init(_));
            let which = rng.below(2) as u32;
            steps.push(Step {
                thread: rng.below(threads) as u32,
                op,
                fails: (is_init && rng.p(fail_p)).then(|| rng.below(2) as u32),
                park: if !is_init || !rng.p(park_p) {
                    Park::None
                } else if rng.p(400) {
                    Park::Alloc(which)
                } else {
                    Park::Touch(which, rng.below(256) as u32)
                },
                hold: rng.below(4) as u32,
            });
        }
        // Everything claimed must hold at the end, too.
        for &w in &fields {
            steps.push(Step { thread: rng.below(threads) as u32, op: Op::Use(w), fails: None, park: Park::None, hold: 0 });
        }
        Sc { seed: rng.next(), steps }
    }

    fn fix(sc: &mut Sc) -> bool {
        sc.steps.iter().all(|s| match s.op {
            Op::Init(w) | Op::Use(w) | Op::Sample(w) => (2..=20).contains(&w),
        })
    }

    fn run(sc: &Sc, env: &mut Env) -> Res {
        let mut c = Command::new(std::env::current_exe().unwrap())
            .arg("fields")
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("child process");
        c.stdin.take().unwrap().write_all(serde_json::to_string(sc).unwrap().as_bytes()).expect("scenario to the child");
        let mut text = String::new();
        c.stdout.take().unwrap().read_to_string(&mut text).expect("report of the child");
        let status = c.wait().expect("child status");
        if env.tracing {
            for l in text.lines() {
                env.out.log_text.push(format!("[fields] {l}"));
            }
        }
        let evs: Vec<Ev> = text.lines().map(|l| serde_json::from_str(l).expect("event")).collect();
        let mut h = 0;
        for l in text.bytes() {
            h = mix(h, l as u64);
        }
        env.out.trace = h;
        env.out.worlds += 1;
        env.out.steps += evs.len() as u64;
        let field = |i: usize| match sc.steps[i].op {
            Op::Init(w) | Op::Use(w) | Op::Sample(w) => w,
        };
        // Steps under way, and for each initialisation whether a failing one of its field overlapped.
        let mut open: Vec<usize> = Vec::new();
        let mut near = vec![false; sc.steps.len()];
        let mut overlap = 0;
        let mut failures = 0;
        let mut claimed: Vec<u8> = Vec::new();
        let mut inits = Vec::new();
        for ev in &evs {
            match ev {
                Ev::Begin(i, others) => {
                    overlap += (*others > 0) as u64;
                    if let Op::Init(_) = sc.steps[*i].op {
                        for &j in &open {
                            if field(j) == field(*i) {
                                near[*i] |= sc.steps[j].fails.is_some();
                                near[j] |= sc.steps[*i].fails.is_some();
                            }
                        }
                        open.push(*i);
                    }
                }
                Ev::Skip(_) => {}
                Ev::Parked(_) => env.count("parked", 1),
                Ev::Blocked(_) => env.count("blocked on a lock", 1),
                Ev::Init(i, ok, failed, _) => {
                    open.retain(|j| j != i);
                    failures += *failed as u64;
                    inits.push((*i, *ok, *failed));
                    if *ok {
                        claimed.push(field(*i));
                    }
                }
                Ev::Good(_, n) => env.checked(*n),
                Ev::Bad(i, e) => fail!("unusable", "step {i}, after a successful initialisation: {e}"),
                Ev::Panic(i, e) => fail!("panic", "step {i} ({:?}): {e}", sc.steps[*i].op),
                Ev::Hang => fail!("hangs", "steps {open:?} never return"),
                Ev::End => {}
            }
        }
        if !matches!(evs.last(), Some(Ev::End | Ev::Hang)) {
            let last = evs.iter().rev().find_map(|e| match e {
                Ev::Begin(i, _) => Some(*i),
                _ => None,
            });
            ensure!(!status.success() && last.is_some(), "harness", "the child ended early: {status}");
            let i = last.unwrap();
            fail!("died", "the process died ({status}) in step {i}, {:?}", sc.steps[i].op);
        }
        for (i, ok, failed) in inits {
            let w = field(i);
            ensure!(!(ok && failed), "claims-success", "step {i}: initialising GF(2^{w}) reports success though an allocation failed");
            ensure!(ok || failed || near[i], "refuses", "step {i}: initialising GF(2^{w}) fails though memory is there");
            env.checked(1);
        }
        env.count("failed allocations", failures);
        env.count("steps begun while another was stopped", overlap);
        claimed.sort();
        claimed.dedup();
        env.out.faulty = failures > 0;
        env.out.nontrivial = claimed.len() > 1 || failures > 0 || overlap > 0;
        env.out.sample = format!("{} steps, fields {claimed:?}, {failures} failed allocations, {overlap} overlapping", sc.steps.len());
        for s in &sc.steps {
            let (o, w) = match s.op {
                Op::Init(w) => (0, w),
                Op::Use(w) => (1, w),
                Op::Sample(w) => (2, w),
            };
            let p = match s.park {
                Park::None => 0,
                Park::Alloc(k) => 1 + k,
                Park::Touch(k, f) => 10 + 10 * k + f / 64,
            };
            env.cover(&[o, w as u64, s.fails.map_or(9, |f| f as u64), p as u64, overlap.min(3), claimed.len() as u64]);
        }
        Ok(())
    }
}
