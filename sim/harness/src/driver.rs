//! Command line: run a check, one run, a replay, or a worker's share of a check.

use crate::prop::{seed_of, Entry};
use crate::props;
use crate::run::{Decisions, Fail, RunOut};
use crate::shrink::{Shrinker, Shrunk};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use simrt::choice::{KINDS, KIND_NAMES};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{BufRead, BufReader, Read, Write};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::mpsc;
use std::time::{Duration, Instant};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Replay {
    pub property: String,
    pub seed: u64,
    pub case: u64,
    pub scenario: Value,
    /// Per world: (index, value) of every decision that is not the plain one.
    pub decisions: Option<Decisions>,
    pub fail: Option<Fail>,
    pub note: String,
}

fn env_u64(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|s| s.trim().parse().ok()).unwrap_or(d)
}

fn root() -> PathBuf {
    PathBuf::from(std::env::var("DST_ROOT").unwrap_or_else(|_| "/verif".into()))
}

fn scratch() -> PathBuf {
    let base = std::env::var("DST_SCRATCH").map(PathBuf::from).unwrap_or_else(|_| root().join("target/scratch"));
    let d = base.join(format!("p{}", std::process::id()));
    std::fs::create_dir_all(&d).expect("scratch directory");
    d
}

struct Scratch(PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

pub fn main(args: &[String]) -> i32 {
    let opt = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let num = |k: &str, d: u64| opt(k).and_then(|s| s.parse().ok()).unwrap_or(d);
    match args.first().map(|s| s.as_str()) {
        Some("list") => {
            props::ALL.iter().for_each(|e| println!("{} {}", e.id, e.quick));
            0
        }
        Some("check") => check(&args[1], args),
        Some("worker") => {
            worker(&args[1], num("--base", 1), num("--start", 0), num("--stride", 1), num("--end", 0), num("--secs", 60));
            0
        }
        Some("shrink") => shrink(Path::new(&args[1]), num("--secs", 30)),
        Some("replay") => replay(Path::new(&args[1]), args.iter().any(|a| a == "--trace")),
        Some("one") => one(&args[1], num("--base", 1), num("--case", 0), args.iter().any(|a| a == "--trace")),
        Some("fields") => props::fields::child(),
        Some("determinism") => determinism(args.get(1).map(|s| s.as_str()), num("--base", 1), num("--end", 50)),
        _ => {
            eprintln!("usage: dst list | check ID [--tier quick|thorough] | one ID --base B --case K [--trace] | replay FILE [--trace] | determinism [ID]");
            2
        }
    }
}

fn run_case(e: &Entry, base: u64, k: u64, dir: &Path, tracing: bool) -> (u64, Value, RunOut) {
    let seed = seed_of(base, e.id, k);
    let sc = (e.gen)(seed, k);
    let out = (e.run)(&sc, seed, None, dir.to_path_buf(), tracing);
    (seed, sc, out)
}

fn one(id: &str, base: u64, k: u64, tracing: bool) -> i32 {
    let e = props::find(id).expect("property");
    let dir = Scratch(scratch());
    let t = Instant::now();
    let (seed, sc, out) = run_case(e, base, k, &dir.0, tracing);
    println!("seed {seed} scenario {sc}");
    out.log_text.iter().for_each(|l| println!("{l}"));
    let mut o = out.clone();
    o.log_text.clear();
    println!("{}", serde_json::to_string(&o).unwrap());
    println!("wall {:.3}", t.elapsed().as_secs_f64());
    out.fail.is_some() as i32
}

/// Runs cases and reports each on stdout, announcing it first so that a crash can be placed.
fn worker(id: &str, base: u64, start: u64, stride: u64, end: u64, secs: u64) {
    let e = props::find(id).expect("property");
    let dir = Scratch(scratch());
    let until = Instant::now() + Duration::from_secs(secs);
    // Cases are dealt in rows, each in another order, so that heavy ones do not all meet one worker.
    let rows = end.div_ceil(stride);
    for row in 0..rows {
        let k = row * stride + (start + (row.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 33)) % stride;
        if k >= end {
            continue;
        }
        if Instant::now() >= until {
            break;
        }
        let _ = writeln!(std::io::stdout(), "B {k}");
        let _ = std::io::stdout().flush();
        let t = Instant::now();
        let (seed, sc, out) = run_case(e, base, k, &dir.0, false);
        let ms = t.elapsed().as_millis() as u64;
        let line = json!({"k": k, "seed": seed, "out": out, "ms": ms,
            "sc": if out.fail.is_some() || k < 3 { Some(&sc) } else { None },
            "logs": if out.fail.is_some() { Some(&out.logs) } else { None }});
        let _ = writeln!(std::io::stdout(), "E {line}");
        let _ = std::io::stdout().flush();
    }
    let _ = writeln!(std::io::stdout(), "D");
}

enum Ev {
    Line(usize, String),
    Eof(usize),
}

struct Work {
    child: Child,
    current: Option<(u64, Instant)>,
    done: bool,
    ended: bool,
}

fn self_cmd() -> Command {
    let mut c = Command::new(std::env::current_exe().unwrap());
    c.env("RAYON_NUM_THREADS", "1").env("MATMUL_NUM_THREADS", "1").env_remove("RUST_BACKTRACE");
    c
}

#[derive(Deserialize)]
struct Done {
    k: u64,
    seed: u64,
    out: RunOut,
    ms: u64,
    sc: Option<Value>,
    logs: Option<Decisions>,
}

#[derive(Default)]
struct Sum {
    runs: u64,
    nontrivial: BTreeSet<u64>,
    traces: BTreeSet<u64>,
    cover: BTreeSet<u64>,
    worlds: u64,
    faulty: u64,
    steps: u64,
    polls_multi: u64,
    sim_ns: u64,
    decisions: u64,
    checks: u64,
    cpu_ms: u64,
    counters: BTreeMap<String, u64>,
    kinds: [u64; KINDS],
    kinds_nonzero: [u64; KINDS],
    samples: Vec<Value>,
    max_ms: u64,
}

impl Sum {
    fn add(&mut self, d: &Done) {
        let o = &d.out;
        self.runs += 1;
        if o.nontrivial {
            self.nontrivial.insert(simrt::rng::mix(o.trace, d.seed));
        }
        self.traces.insert(o.trace);
        self.cover.extend(o.cover.iter());
        self.worlds += o.worlds;
        self.faulty += o.faulty as u64;
        self.steps += o.steps;
        self.polls_multi += o.polls_multi;
        self.sim_ns += o.sim_ns;
        self.decisions += o.decisions;
        self.checks += o.checks;
        self.cpu_ms += d.ms;
        self.max_ms = self.max_ms.max(d.ms);
        for (k, v) in &o.counters {
            *self.counters.entry(k.clone()).or_insert(0) += v;
        }
        for i in 0..KINDS {
            self.kinds[i] += o.kinds[i];
            self.kinds_nonzero[i] += o.kinds_nonzero[i];
        }
        if self.samples.len() < 3 || (d.sc.is_some() && self.samples.len() < 6) {
            self.samples.push(json!({"case": d.k, "seed": d.seed, "what": o.sample, "scenario": d.sc,
                "steps": o.steps, "interleaving": format!("{:016x}", o.trace)}));
        }
    }
}

/// Known failures that are recorded instead of reported: (property, kind).
fn known() -> Vec<(String, String, String)> {
    let text = std::fs::read_to_string(root().join("known_findings.txt")).unwrap_or_default();
    text.lines()
        .filter_map(|l| l.strip_prefix("known: property="))
        .filter_map(|l| {
            let (p, rest) = l.split_once(' ')?;
            let rest = rest.strip_prefix("kind=")?;
            let (k, what) = rest.split_once(' ')?;
            Some((p.to_string(), k.to_string(), what.to_string()))
        })
        .collect()
}

fn check(id: &str, args: &[String]) -> i32 {
    let Some(e) = props::find(id) else {
        eprintln!("no such property: {id}");
        return 2;
    };
    let opt = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let tier = opt("--tier").or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or_else(|| "quick".into());
    let thorough = tier == "thorough";
    let base = env_u64("VERIF_SEED", 1);
    let runs = env_u64("DST_RUNS", if thorough { e.quick * 40 } else { e.quick });
    let secs = env_u64("DST_SECS", if thorough { 600 } else { 150 });
    let jobs = env_u64("DST_JOBS", std::thread::available_parallelism().map_or(4, |n| n.get() as u64)).max(1);
    let hang = Duration::from_secs(env_u64("DST_HANG", 120));
    let t0 = Instant::now();

    let (tx, rx) = mpsc::channel();
    let mut works: Vec<Work> = Vec::new();
    let mut errors: Vec<String> = Vec::new();
    let mut suspects: Vec<(u64, String)> = Vec::new();
    for j in 0..jobs {
        works.push(spawn_worker(e, base, j, jobs, runs, secs, &tx, works.len()));
    }
    let mut sum = Sum::default();
    let mut failed: Vec<Done> = Vec::new();
    let mut known_hits: BTreeMap<String, u64> = BTreeMap::new();
    let known = known();
    let grace = Duration::from_secs(secs) + hang;

    while works.iter().any(|w| !w.ended) {
        match rx.recv_timeout(Duration::from_millis(200)) {
            Ok(Ev::Line(i, l)) => {
                if let Some(k) = l.strip_prefix("B ") {
                    works[i].current = k.parse().ok().map(|k| (k, Instant::now()));
                } else if let Some(j) = l.strip_prefix("E ") {
                    works[i].current = None;
                    match serde_json::from_str::<Done>(j) {
                        Ok(d) => {
                            sum.add(&d);
                            if let Some(f) = &d.out.fail {
                                if let Some(x) = known.iter().find(|x| x.0 == e.id && x.1 == f.kind) {
                                    *known_hits.entry(x.2.clone()).or_insert(0) += 1;
                                } else if f.kind == "harness" {
                                    errors.push(format!("case {}: {}", d.k, f.msg));
                                } else {
                                    failed.push(d);
                                }
                            }
                        }
                        Err(x) => errors.push(format!("unreadable worker line: {x}")),
                    }
                } else if l == "D" {
                    works[i].done = true;
                }
            }
            Ok(Ev::Eof(i)) => {
                let st = works[i].child.wait();
                works[i].ended = true;
                if !works[i].done && failed.is_empty() {
                    match works[i].current {
                        Some((k, _)) => suspects.push((k, format!("worker ended with {st:?}"))),
                        None => errors.push(format!("worker ended with {st:?} between cases")),
                    }
                }
            }
            Err(_) => {}
        }
        // A first failure ends the search.
        let stop = !failed.is_empty() || !errors.is_empty() || !suspects.is_empty() || t0.elapsed() > grace;
        for w in works.iter_mut().filter(|w| !w.ended) {
            if let Some((k, t)) = w.current {
                if t.elapsed() > hang {
                    suspects.push((k, format!("no end after {} s of wall time", hang.as_secs())));
                    w.current = None;
                    let _ = w.child.kill();
                    w.done = true;
                    continue;
                }
            }
            if stop {
                w.done = true;
                let _ = w.child.kill();
            }
        }
    }
    let search_s = t0.elapsed().as_secs_f64();

    let mut verdict = 0;
    let mut replay_path = None;
    let replays = root().join("replays");
    if let Some(d) = failed.iter().min_by_key(|d| d.out.steps) {
        let _ = std::fs::create_dir_all(&replays);
        let path = replays.join(format!("{}-{}.json", e.id, d.seed));
        let r = Replay {
            property: e.id.into(),
            seed: d.seed,
            case: d.k,
            scenario: d.sc.clone().unwrap_or(Value::Null),
            decisions: d.logs.clone(),
            fail: d.out.fail.clone(),
            note: "as found".into(),
        };
        std::fs::write(&path, serde_json::to_string_pretty(&r).unwrap()).unwrap();
        // Same history, other process: must fail the same way.
        let again = self_cmd().arg("replay").arg(&path).stdout(Stdio::piped()).output();
        match again {
            Ok(o) if o.status.code() == Some(1) => {
                let budget = env_u64("DST_SHRINK", if thorough { 120 } else { 40 });
                run_limited(self_cmd().arg("shrink").arg(&path).arg("--secs").arg(budget.to_string()), budget + 60);
                verdict = 1;
                replay_path = Some(path);
            }
            Ok(o) => errors.push(format!(
                "case {} failed ({}) but its replay ended with {:?}: not deterministic",
                d.k,
                d.out.fail.as_ref().unwrap().msg,
                o.status
            )),
            Err(x) => errors.push(format!("replay could not be started: {x}")),
        }
    } else if let Some((k, why)) = suspects.first() {
        // Confirm alone, in a fresh process.
        let seed = seed_of(base, e.id, *k);
        let mut c = self_cmd();
        c.args(["one", e.id, "--base", &base.to_string(), "--case", &k.to_string()]);
        let code = run_limited(&mut c, hang.as_secs());
        if code == Some(0) || code == Some(1) {
            errors.push(format!("case {k}: {why}, but alone it ended with {code:?}"));
        } else {
            let _ = std::fs::create_dir_all(&replays);
            let path = replays.join(format!("{}-{}.json", e.id, seed));
            let r = Replay {
                property: e.id.into(),
                seed,
                case: *k,
                scenario: (e.gen)(seed, *k),
                decisions: None,
                fail: Some(Fail { kind: "process".into(), msg: format!("{why}; alone: {code:?}") }),
                note: "the run takes its process down or never ends; replayed from the seed".into(),
            };
            std::fs::write(&path, serde_json::to_string_pretty(&r).unwrap()).unwrap();
            verdict = 1;
            replay_path = Some(path);
        }
    }

    let injected: BTreeMap<String, u64> = sum
        .counters
        .iter()
        .filter(|(k, _)| is_fault(k))
        .map(|(k, v)| (k.clone(), *v))
        .chain((0..KINDS).filter(|&i| sum.kinds_nonzero[i] > 0).map(|i| (format!("decision:{}", KIND_NAMES[i]), sum.kinds_nonzero[i])))
        .collect();
    let other: BTreeMap<String, u64> =
        sum.counters.iter().filter(|(k, _)| !is_fault(k)).map(|(k, v)| (k.clone(), *v)).collect();
    let drawn: BTreeMap<&str, u64> =
        (0..KINDS).filter(|&i| sum.kinds[i] > 0).map(|i| (KIND_NAMES[i], sum.kinds[i])).collect();
    let evidence = json!({
        "property": e.id, "tier": if thorough { "thorough" } else { "quick" }, "seed": base,
        "level": "exploration",
        "coverage": {
            "evaluations": sum.runs,
            "distinct_nontrivial": sum.nontrivial.len(),
            "rule": e.rule,
            "samples": sum.samples,
            "runs_planned": runs,
            "simulated_worlds": sum.worlds,
            "distinct_interleavings": sum.traces.len(),
            "interleaving_measure": "hash of the sequence of task ids executed, over all worlds of a run",
            "runs_with_crash_or_failure_faults": sum.faulty,
            "distinct_scenario_shapes": sum.cover.len(),
            "oracle_comparisons": sum.checks,
            "task_steps": sum.steps,
            "steps_with_a_choice": sum.polls_multi,
            "simulated_seconds": sum.sim_ns as f64 / 1e9,
            "decisions_drawn": drawn,
            "faults_injected": injected,
            "events": other,
            "seeds_per_hour": if search_s > 0.0 { (sum.runs as f64 / search_s * 3600.0) as u64 } else { 0 },
            "workers": jobs,
            "slowest_run_ms": sum.max_ms,
            "real_code": e.real,
            "stubs": e.stub,
            "known_findings_hit": known_hits,
        },
        "assumptions": ["the simulated sockets, clock and executor admit only behaviours the real ones can show", "search is by seeds; absence of a violation is not a proof"],
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": (verdict == 1) as u32,
    });
    let dir = root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    if let Err(x) = std::fs::write(dir.join(format!("{}.json", e.id)), serde_json::to_string_pretty(&evidence).unwrap()) {
        errors.push(format!("evidence not written: {x}"));
    }
    for (what, n) in &known_hits {
        println!("KNOWN-FINDING: property={} {} ({} runs)", e.id, what, n);
    }
    println!(
        "{}: {} runs ({} non-trivial, {} interleavings), {} steps, {:.1} simulated s, {:.1} s, slowest {} ms",
        e.id, sum.runs, sum.nontrivial.len(), sum.traces.len(), sum.steps, sum.sim_ns as f64 / 1e9, t0.elapsed().as_secs_f64(), sum.max_ms
    );
    if let Some(p) = replay_path {
        if let Ok(r) = serde_json::from_str::<Replay>(&std::fs::read_to_string(&p).unwrap_or_default()) {
            println!("found at case {} seed {}: {:?}", r.case, r.seed, r.fail);
        }
        println!("VIOLATION property={} replay={}", e.id, p.display());
        return 1;
    }
    if !errors.is_empty() {
        errors.iter().take(5).for_each(|x| eprintln!("check error: {x}"));
        return 2;
    }
    // Too little was looked at to say anything.
    if sum.runs == 0 || (sum.runs < runs / 10 && !thorough) {
        eprintln!("check error: only {} of {} runs finished in time", sum.runs, runs);
        return 2;
    }
    verdict
}

fn is_fault(k: &str) -> bool {
    ["pause", "stall", "isolate", "reset", "kill", "crash", "fault", "short", "interrupted", "failed", "refused", "blocked", "unread", "closed", "truncat", "malloc", "restart", "dup"]
        .iter()
        .any(|x| k.contains(x))
}

fn spawn_worker(e: &Entry, base: u64, start: u64, stride: u64, end: u64, secs: u64, tx: &mpsc::Sender<Ev>, i: usize) -> Work {
    let s = |x: u64| x.to_string();
    let mut child = self_cmd()
        .args(["worker", e.id, "--base", &s(base), "--start", &s(start), "--stride", &s(stride), "--end", &s(end), "--secs", &s(secs)])
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::inherit())
        .spawn()
        .expect("start worker");
    let out = child.stdout.take().unwrap();
    let tx = tx.clone();
    std::thread::spawn(move || {
        for l in BufReader::new(out).lines() {
            match l {
                Ok(l) => {
                    if tx.send(Ev::Line(i, l)).is_err() {
                        return;
                    }
                }
                Err(_) => break,
            }
        }
        let _ = tx.send(Ev::Eof(i));
    });
    Work { child, current: None, done: false, ended: false }
}

/// Exit code, or None when it had to be stopped.
fn run_limited(c: &mut Command, secs: u64) -> Option<i32> {
    let mut child = c.stdout(Stdio::piped()).stderr(Stdio::null()).spawn().ok()?;
    let mut out = child.stdout.take().unwrap();
    std::thread::spawn(move || {
        let mut v = Vec::new();
        let _ = out.read_to_end(&mut v);
    });
    let t = Instant::now();
    loop {
        match child.try_wait() {
            Ok(Some(s)) => return s.code(),
            _ if t.elapsed() > Duration::from_secs(secs) => {
                let _ = child.kill();
                let _ = child.wait();
                return None;
            }
            _ => std::thread::sleep(Duration::from_millis(50)),
        }
    }
}

fn load(path: &Path) -> Replay {
    serde_json::from_str(&std::fs::read_to_string(path).expect("replay file")).expect("replay file")
}

fn replay(path: &Path, tracing: bool) -> i32 {
    let r = load(path);
    let e = props::find(&r.property).expect("property");
    let dir = Scratch(scratch());
    let out = (e.run)(&r.scenario, r.seed, r.decisions.clone(), dir.0.clone(), tracing);
    out.log_text.iter().for_each(|l| println!("{l}"));
    println!("interleaving {:016x}, {} steps", out.trace, out.steps);
    match out.fail {
        Some(f) => {
            println!("fails: {}: {}", f.kind, f.msg);
            1
        }
        None => {
            println!("no failure");
            0
        }
    }
}

fn shrink(path: &Path, secs: u64) -> i32 {
    let r = load(path);
    let e = props::find(&r.property).expect("property");
    let dir = Scratch(scratch());
    let out = (e.run)(&r.scenario, r.seed, r.decisions.clone(), dir.0.clone(), false);
    if out.fail.is_none() {
        println!("does not fail");
        return 2;
    }
    let before = (r.scenario.to_string().len(), out.logs.iter().map(|l| l.len()).sum::<usize>());
    let (p2, r2) = (path.to_path_buf(), r.clone());
    let mut last = Instant::now();
    let write = move |s: &Shrunk| {
        let r = Replay {
            scenario: s.scenario.clone(),
            decisions: Some(s.decisions.clone()),
            fail: s.out.fail.clone(),
            note: format!("minimised in {} runs", s.tries),
            ..r2.clone()
        };
        let tmp = p2.with_extension("tmp");
        std::fs::write(&tmp, serde_json::to_string_pretty(&r).unwrap()).unwrap();
        std::fs::rename(&tmp, &p2).unwrap();
    };
    let w2 = write.clone();
    let save = Box::new(move |s: &Shrunk| {
        if last.elapsed() > Duration::from_secs(2) {
            last = Instant::now();
            w2(s);
        }
    });
    let s = Shrinker::new(e, r.seed, r.scenario.clone(), out, &dir.0, Duration::from_secs(secs), save).run();
    write(&s);
    println!(
        "scenario {} -> {} bytes, decisions {} -> {}, {} runs",
        before.0,
        s.scenario.to_string().len(),
        before.1,
        s.decisions.iter().map(|l| l.len()).sum::<usize>(),
        s.tries
    );
    0
}

/// Runs cases twice in this process and once in another and compares everything.
fn determinism(id: Option<&str>, base: u64, end: u64) -> i32 {
    let mut bad = 0;
    for e in props::ALL.iter().filter(|e| id.map_or(true, |i| i == e.id)) {
        let dir = Scratch(scratch());
        let mut n = 0;
        for k in 0..end {
            let strip = |o: &RunOut| serde_json::to_string(o).unwrap();
            let (_, _, a) = run_case(e, base, k, &dir.0, true);
            let (_, sc, b) = run_case(e, base, k, &dir.0, true);
            let (sa, sb) = (strip(&a), strip(&b));
            if sa != sb || a.logs != b.logs {
                println!("{} case {k}: two runs in one process differ", e.id);
                bad += 1;
            }
            // Replaying the recorded decisions gives the same run.
            let c = (e.run)(&sc, seed_of(base, e.id, k), Some(a.logs.clone()), dir.0.clone(), true);
            if strip(&c) != sa {
                println!("{} case {k}: the replay differs", e.id);
                bad += 1;
            }
            let o = self_cmd()
                .args(["one", e.id, "--base", &base.to_string(), "--case", &k.to_string(), "--trace"])
                .output()
                .unwrap();
            let text = String::from_utf8_lossy(&o.stdout).into_owned();
            let other: Vec<&str> = text.lines().filter(|l| l.starts_with('[') || l.starts_with("---")).collect();
            let mine: Vec<&str> = a.log_text.iter().map(|s| s.as_str()).collect();
            if other != mine {
                println!("{} case {k}: another process differs", e.id);
                bad += 1;
            }
            n += 1;
        }
        println!("{}: {n} cases compared", e.id);
    }
    (bad > 0) as i32
}
