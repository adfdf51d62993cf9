//! C16 and C17: the benchmark programs, whole, one simulated process per party.

use crate::circ::Circ;
use crate::gen::{self, MS, SEC, US};
use crate::mpc::{self, bin_matrix, Par};
use crate::nets::{self, NetKind};
use crate::prop::Prop;
use crate::props::garbling::small_params;
use crate::run::{Env, Res, World};
use crate::{bins, ensure};
use serde::{Deserialize, Serialize};
use serde_json::Value;
use simrt::rng::Rng;
use simrt::{Cfg, Stop};
use std::path::PathBuf;
use std::process::ExitCode;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Which {
    Garble,
    Preproc,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Sc {
    pub cfg: Cfg,
    pub par: Par,
    pub which: Which,
    pub local: bool,
    pub circ: Circ,
    pub bin: u64,
    pub tau: u32,
    pub reps: u32,
    pub save: bool,
    pub threads: u32,
    pub start: Vec<u64>,
    /// Leave out arguments that have the value meant anyway.
    pub short: bool,
    /// What the save file holds before: nothing, or so much junk.
    pub junk: u32,
    pub fs_p: u32,
    /// The n-th write fails with this error.
    pub fail_write: Option<(u32, i32)>,
    /// Nothing but this latency takes time (ms).
    #[serde(default)]
    pub calm: u32,
}

pub fn gen_sc(rng: &mut Rng, save: bool) -> Sc {
    let mut par = small_params(rng);
    if par.n > 7 {
        par = Par { k: 1, m: 2, ..Par::new((5, 1, 2)) };
    }
    let mut cfg = gen::timing(rng, par.n);
    gen::stream(rng, &mut cfg);
    if cfg.seg == 1 {
        cfg.seg = 2;
    }
    if cfg.wnd > 0 {
        cfg.wnd = cfg.wnd.max(64);
    }
    if rng.p(250) {
        let span = rng.pick(&[1000, 4000, 16_000]);
        gen::stalls(rng, &mut cfg, par.n, span);
    } else {
        gen::benign_faults(rng, &mut cfg, par.n, 3000);
    }
    let mut circ = Circ::gen(rng, par.l, false);
    circ.gates.truncate(6);
    let w = circ.num_wires();
    if circ.outputs.iter().sum::<u32>() > w {
        circ.outputs = vec![1];
    }
    let style = rng.below(4);
    let mut start: Vec<u64> = (0..par.n)
        .map(|i| match style {
            0 => 0,
            1 => rng.log(US, 5 * SEC),
            2 => i as u64 * 300 * MS,
            _ => (par.n - i) as u64 * 1100 * MS,
        })
        .collect();
    if rng.p(100) {
        // Somebody is late by minutes, or an hour.
        let p = rng.below(start.len() as u64) as usize;
        start[p] = rng.log(10 * SEC, 2500 * SEC);
    }
    let mut reps = rng.pick(&[1, 1, 1, 2, 2, 3, 0]);
    match rng.below(300) {
        0..=3 => reps = rng.range(9, 24) as u32,
        4 => reps = rng.range(250, 260) as u32,
        _ => {}
    }
    if reps > 3 {
        par = Par { k: 1, m: 2, ..Par::new((3, 1, 1)) };
        circ.gates.truncate(1);
        circ.outputs = vec![1];
        cfg.faults.clear();
        (cfg.seg, cfg.wnd, cfg.yield_p) = (0, 0, 0);
    }
    if reps <= 2 && rng.p(16) {
        // Keys and messages of realistic length.
        let (k, m) = rng.pick(&[(127, 555), (127, 555), (127, 128), (128, 555), (255, 256), (256, 257), (16, 555), (100, 600)]);
        par = Par { k, m, ..Par::new((3, 1, 1)) };
        circ.gates.truncate(1);
        circ.outputs = vec![1];
        cfg.faults.clear();
        (cfg.seg, cfg.wnd, cfg.yield_p) = (0, 0, 0);
    }
    let which = if reps < 99 && rng.p(600) { Which::Garble } else { Which::Preproc };
    Sc {
        cfg,
        par,
        which,
        local: rng.p(300),
        circ,
        bin: rng.next() >> 20,
        // Preprocessing supports one error rate only.
        tau: if which == Which::Garble { rng.pick(&[2, 2, 1, 3, 4]) } else { 2 },
        reps,
        save,
        threads: rng.pick(&[1, 1, 2, 3, 8]),
        start,
        short: rng.p(300),
        junk: 0,
        fs_p: 0,
        fail_write: None,
        calm: 0,
    }
}

pub fn fix_sc(sc: &mut Sc) -> bool {
    let p = sc.par;
    sc.cfg.starve = sc.cfg.starve.min(p.n - 1);
    sc.threads = sc.threads.clamp(1, 16);
    sc.reps = sc.reps.min(260);
    if sc.calm > 0 {
        sc.calm = sc.calm.min(5000);
        let ns = sc.calm as u64 * MS;
        let Cfg { sched, starve, select, ray_threads, ray_p, max_steps, .. } = sc.cfg;
        sc.cfg = Cfg { sched, starve, select, ray_threads, ray_p, max_steps, lat_min: ns, lat_max: ns, wnd: 1 << 24, ..Cfg::default() };
    }
    sc.tau = if sc.which == Which::Preproc { 2 } else { sc.tau.clamp(1, 6) };
    if sc.circ.gates.is_empty() {
        return false;
    }
    gen::valid_params(p.n, p.t, p.l) && p.n <= 16 && p.k >= 1 && p.k <= 300 && p.m > p.k && p.m <= 600 && sc.circ.fix()
}

pub struct Ran {
    pub stop: Stop,
    pub exits: Vec<Option<i32>>,
    pub stdout: Vec<String>,
    pub save: PathBuf,
    pub dir: PathBuf,
    /// Bytes on the wire, [from][to].
    pub wire: Vec<Vec<u64>>,
    pub write_failed: bool,
    /// When how much was printed.
    pub marks: Vec<Vec<(usize, u64)>>,
    /// When the run was over.
    pub ended: u64,
}

impl Drop for Ran {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.dir);
    }
}

pub fn run_programs(sc: &Sc, env: &mut Env) -> Res<(World, Ran)> {
    mpc::init_field();
    let (par, n) = (sc.par, sc.par.n);
    let dir = env.scratch.join("prog");
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    let kind = if sc.local { NetKind::TcpLocalhost } else { NetKind::Tcp };
    std::fs::write(dir.join("net.txt"), nets::addresses(kind, n).join("\n") + "\n").unwrap();
    std::fs::write(dir.join("circ.txt"), sc.circ.text()).unwrap();
    let rows = bin_matrix(&mut Rng::new(sc.bin), par.nn(), par.t as usize, 5);
    let text: String = (0..par.nn())
        .map(|i| rows.iter().map(|r| r[i].to_string()).collect::<Vec<_>>().join(" ") + "\n")
        .collect();
    std::fs::write(dir.join("mat.txt"), text).unwrap();
    let save = dir.join("save.json");
    if sc.junk > 0 {
        std::fs::write(&save, "#".repeat(sc.junk as usize)).unwrap();
    }

    let w = env.world(&Cfg { fs_p: sc.fs_p, ..sc.cfg.clone() });
    {
        let mut fs = w.sim.fs.lock().unwrap();
        fs.set_root(dir.to_str().unwrap());
        fs.fail_write = sc.fail_write.map(|(k, e)| (k as u64, e));
    }
    w.sim.lock().net.shared_host = sc.local;
    for p in 0..n {
        let file = |f: &str| dir.join(f).to_str().unwrap().to_string();
        let mut args = vec![if sc.which == Which::Garble { "garble" } else { "preproc" }.to_string()];
        let mut opt = |k: &str, v: String| args.extend([format!("--{k}"), v]);
        opt("id", p.to_string());
        opt("net", file("net.txt"));
        opt("circ", file("circ.txt"));
        opt("threshold", par.t.to_string());
        opt("packing-param", par.l.to_string());
        if sc.which == Which::Preproc {
            opt("binsup-mat", file("mat.txt"));
        }
        if !(sc.short && sc.tau == 2) {
            opt("lpn-error-bias", sc.tau.to_string());
        }
        if !(sc.short && par.k == 127) {
            opt("lpn-key-len", par.k.to_string());
        }
        if !(sc.short && par.m == 555) {
            opt("lpn-mssg-len", par.m.to_string());
        }
        if !(sc.short && sc.reps == 1) {
            opt("reps", sc.reps.to_string());
        }
        if !(sc.short && sc.threads == 1) {
            opt("threads", sc.threads.to_string());
        }
        if sc.save {
            opt("save", file("save.json"));
        }
        w.sim.lock().node_mut(p).args = args;
        let (sim, which, d) = (w.sim.clone(), sc.which, sc.start.get(p as usize).copied().unwrap_or(0));
        w.sim.at(d, move |s| {
            let _ = s;
            simrt::process::spawn(&sim, p, move || {
                let code = match which {
                    Which::Garble => bins::garble::verif_main(),
                    Which::Preproc => bins::preproc::verif_main(),
                };
                if format!("{code:?}") != format!("{:?}", ExitCode::SUCCESS) {
                    simrt::process::exit(1);
                }
            });
        });
    }
    let stop = w.run();
    let (exits, stdout, wire, marks) = {
        let mut st = w.sim.lock();
        let exits = (0..n).map(|p| st.node_mut(p).exit).collect();
        let stdout = (0..n).map(|p| String::from_utf8_lossy(&st.node_mut(p).stdout).into_owned()).collect();
        let wire = (0..n).map(|a| (0..n).map(|b| st.net.wire(a, b)).collect()).collect();
        let marks = (0..n).map(|p| st.node_mut(p).marks.clone()).collect();
        (exits, stdout, wire, marks)
    };
    let write_failed = sc.fail_write.is_some() && w.sim.fs.lock().unwrap().failures > 0;
    env.out.nontrivial |= w.sim.lock().polls_multi > 0;
    let ended = w.sim.now();
    Ok((w, Ran { stop, exits, stdout, save, dir, wire, write_failed, marks, ended }))
}

fn describe(w: &World, r: &Ran) -> String {
    let bad: Vec<String> = r
        .exits
        .iter()
        .enumerate()
        .filter(|(_, e)| **e != Some(0))
        .map(|(p, e)| match e {
            None => format!("party {p} never ends"),
            Some(c) => format!("party {p} exits with {c}"),
        })
        .collect();
    let first = w.panics().first().map(|p| format!("; party {} panicked at {}: {}", p.node as i32, p.loc, p.msg)).unwrap_or_default();
    format!("{}{}", bad.join(", "), first.chars().take(300).collect::<String>())
}

/// Every party ends, successfully.
pub fn all_succeed(sc: &Sc, env: &mut Env) -> Res {
    let (w, r) = run_programs(sc, env)?;
    ensure!(r.stop == Stop::Quiescent, "no-progress", "stopped by {:?}", r.stop);
    if r.exits.iter().any(|e| *e != Some(0)) {
        let kind = if r.exits.iter().any(|e| matches!(e, Some(c) if *c != 0)) { "failed" } else { "hangs" };
        return Err(crate::run::Fail { kind: kind.into(), msg: describe(&w, &r) });
    }
    ensure!(!sc.save || r.save.exists(), "no-file", "all parties succeed but nothing was saved");
    env.checked(sc.par.n as u64);
    env.done(w);
    env.out.sample = format!("{:?} {:?} reps {} save {} gates {}", sc.which, sc.par, sc.reps, sc.save, sc.circ.gates.len());
    env.cover(&[sc.which as u64, sc.par.n as u64, sc.par.l as u64, sc.reps as u64, sc.save as u64, sc.cfg.sched as u64, sc.circ.gates.len() as u64]);
    Ok(())
}

pub struct Finish;

impl Prop for Finish {
    type Sc = Sc;
    const ID: &'static str = "C16";
    const QUICK: u64 = 1500;
    const RULE: &'static str = "a case is a program (garble or preproc) with its arguments and input files, run by 3 to 7 simulated processes over simulated TCP, start times, and a world with latency, stalls, partitions that heal, tiny socket buffers, refused connections and scheduling; it is non-trivial when the scheduler had a choice";
    const REAL: &'static str = "both benchmark programs from main on (argument parsing, file loading, TCP network, protocols, saving), std::fs on real files";
    const STUB: &'static str = "executor, clock, sockets, entropy, thread pool (sequential, order drawn), processes (one thread each, run one at a time)";

    fn gen(rng: &mut Rng, _: u64) -> Sc {
        let save = rng.p(512);
        let mut sc = gen_sc(rng, save);
        fix_sc(&mut sc);
        sc
    }

    fn fix(sc: &mut Sc) -> bool {
        fix_sc(sc)
    }

    fn run(sc: &Sc, env: &mut Env) -> Res {
        all_succeed(sc, env)
    }
}

pub struct Saved;

/// Numbers the program printed after `key`, in order.
fn printed(out: &str, key: &str) -> Vec<u64> {
    out.lines()
        .filter_map(|l| l.strip_prefix(key))
        .filter_map(|l| l.split_whitespace().next()?.parse().ok())
        .collect()
}

/// When each party reported that it was connected, and then each repetition.
fn reported(sc: &Sc, r: &Ran) -> Option<Vec<Vec<u64>>> {
    let per = |p: usize| {
        let (out, marks) = (&r.stdout[p], &r.marks[p]);
        let mut at = Vec::new();
        let mut find = |key: &str| {
            for (i, _) in out.match_indices(key) {
                at.push(marks[marks.partition_point(|m| m.0 <= i)].1);
            }
        };
        find("Connected");
        find("Runtime: ");
        (at.len() == sc.reps as usize + 1).then_some(at)
    };
    (0..sc.par.nn()).map(per).collect()
}

fn faithful(sc: &Sc, r: &Ran) -> Res<u64> {
    let text = std::fs::read(&r.save).unwrap_or_default();
    let Ok(v) = serde_json::from_slice::<Value>(&text) else {
        return Err(crate::run::Fail { kind: "not-json".into(), msg: format!("party 0 succeeded but the file ({} bytes) is not valid", text.len()) });
    };
    let d = &v["details"];
    let circ = r.dir.join("circ.txt").to_str().unwrap().to_string();
    let num = |x: u32| Value::from(x);
    for (k, want) in [
        ("n", num(sc.par.n)),
        ("t", num(sc.par.t)),
        ("l", num(sc.par.l)),
        ("circ", Value::from(circ)),
        ("lpn_tau", num(sc.tau)),
        ("lpn_key_len", num(sc.par.k)),
        ("lpn_mssg_len", num(sc.par.m)),
        ("reps", num(sc.reps)),
        ("threads", num(sc.threads)),
    ] {
        ensure!(d[k] == want, &format!("detail-{k}"), "details say {k} = {}, the run had {want}", d[k]);
    }
    let Some(all) = v["benchmarks"].as_array() else {
        return Err(crate::run::Fail { kind: "entries".into(), msg: "no list of entries".into() });
    };
    ensure!(all.len() == sc.par.nn(), "entries", "{} entries for {} parties", all.len(), sc.par.n);
    let mut checks = 0;
    let reported = reported(sc, r);
    for (p, e) in all.iter().enumerate() {
        let out = &r.stdout[p];
        let reps = if sc.which == Which::Garble { &e["garbling"] } else { e };
        let Some(reps) = reps.as_array() else {
            return Err(crate::run::Fail { kind: "entries".into(), msg: format!("party {p}'s entry holds no repetitions") });
        };
        ensure!(reps.len() == sc.reps as usize, "entries", "party {p}'s entry holds {} of {} repetitions", reps.len(), sc.reps);
        if sc.which == Which::Garble {
            if let [x] = printed(out, "Onetime circuit dependent computation: ")[..] {
                ensure!(e["onetime_comp"] == x, "other-data", "entry {p} says one-time computation took {}, party {p} measured {x}", e["onetime_comp"]);
                checks += 1;
            }
        }
        let (times, comms) = (printed(out, "Runtime: "), printed(out, "Communication: "));
        let (mut sums, mut total) = (vec![0; sc.par.nn()], 0);
        for (i, x) in reps.iter().enumerate() {
            let comm: Option<Vec<(u64, u64)>> = x["comm"].as_array().and_then(|c| {
                c.iter().map(|y| Some((y.get(0)?.as_u64()?, y.get(1)?.as_u64()?))).collect()
            });
            let (Some(time), Some(comm)) = (x["time"].as_u64(), comm) else {
                return Err(crate::run::Fail { kind: "entries".into(), msg: format!("party {p}, repetition {i}: {x}") });
            };
            ensure!(comm.len() == sc.par.nn(), "entries", "party {p}, repetition {i}: traffic of {} parties", comm.len());
            if times.len() == reps.len() && comms.len() == reps.len() {
                ensure!(times[i] == time, "other-data", "entry {p}, repetition {i}: time {time}, party {p} measured {}", times[i]);
                let sum: u64 = comm.iter().map(|c| c.0).sum();
                ensure!(sum == comms[i], "other-data", "entry {p}, repetition {i}: {sum} bytes, party {p} measured {}", comms[i]);
                checks += 2;
            }
            if let Some(at) = &reported {
                let most = at[p][i + 1] - at[p][i];
                ensure!(time <= most / MS, "time", "entry {p}, repetition {i}: {time} ms, but party {p} spent {most} ns on it in all");
                checks += 1;
                if sc.calm > 0 {
                    // Once all have finished the one before, the next starts within one latency, or
                    // two should the barrier be one that asks a leader.
                    let from = at.iter().map(|a| a[i]).max().unwrap() + 2 * sc.calm as u64 * MS;
                    let least = at[p][i + 1].saturating_sub(from + 50 * MS) / MS;
                    ensure!(time >= least, "time", "entry {p}, repetition {i}: {time} ms, but it took at least {least} ms");
                    checks += 1;
                }
            }
            total += time;
            for (q, c) in comm.iter().enumerate() {
                ensure!(c.0 <= c.1, "traffic", "entry {p}, repetition {i}, peer {q}: payload {} of {}", c.0, c.1);
                sums[q] += c.1;
            }
        }
        ensure!(total <= r.ended / MS, "time", "entry {p} claims {total} ms, the whole run took {} ms", r.ended / MS);
        for (q, s) in sums.iter().enumerate() {
            if q != p {
                ensure!(*s <= r.wire[q][p], "traffic", "entry {p} claims {s} bytes from party {q}, which sent {}", r.wire[q][p]);
                checks += 1;
            }
        }
    }
    Ok(checks)
}

impl Prop for Saved {
    type Sc = Sc;
    const ID: &'static str = "C17";
    const QUICK: u64 = 1500;
    const RULE: &'static str = "a case is a saving run of garble or preproc by 3 to 7 simulated processes with its arguments, start times, a world (latency, stalls, socket buffers, scheduling), a save file that may exist already, and file trouble (short, interrupted or failing writes, short and interrupted reads); it is non-trivial when party 0 ended and the scheduler had a choice";
    const REAL: &'static str = "both benchmark programs from main on, the JSON writer, std::fs on real files";
    const STUB: &'static str = "executor, clock, sockets, entropy, thread pool, processes, outcomes of file system calls";

    fn gen(rng: &mut Rng, _: u64) -> Sc {
        let mut sc = gen_sc(rng, true);
        sc.junk = if rng.p(300) { rng.log(1, 20_000) as u32 } else { 0 };
        sc.fs_p = rng.pick(&[0, 0, 50, 400]);
        if rng.p(200) {
            sc.calm = rng.range(1, 3000) as u32;
        }
        if rng.p(350) {
            sc.fail_write = Some((rng.below(3) as u32, rng.pick(&[28, 5, 27])));
        }
        fix_sc(&mut sc);
        sc
    }

    fn fix(sc: &mut Sc) -> bool {
        sc.save = true;
        fix_sc(sc)
    }

    fn run(sc: &Sc, env: &mut Env) -> Res {
        let (w, r) = run_programs(sc, env)?;
        if r.exits[0] == Some(0) {
            let k = faithful(sc, &r)?;
            env.checked(k + 9);
            env.count("files-compared", 1);
        } else {
            env.count("party-0-did-not-succeed", 1);
            if !r.write_failed {
                env.count("party-0-did-not-succeed-without-write-failure", 1);
            }
            env.out.nontrivial &= r.exits[0].is_some();
        }
        env.done(w);
        env.out.sample = format!("{:?} {:?} reps {} threads {} {:?}", sc.which, sc.par, sc.reps, sc.threads, sc.fail_write);
        env.cover(&[sc.which as u64, sc.par.n as u64, sc.par.l as u64, sc.reps as u64, sc.threads as u64, r.write_failed as u64, (sc.junk > 0) as u64]);
        Ok(())
    }
}
