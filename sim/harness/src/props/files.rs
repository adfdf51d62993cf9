//! C20: circuit and matrix files.

use crate::circ::{Circ, Op};
use crate::mpc::{self, raw, W};
use crate::prop::Prop;
use crate::run::{Env, Res};
use crate::{ensure, fail};
use scalable_mpc::circuit::{Circuit, Gate};
use scalable_mpc::math::binary_super_inv_matrix;
use serde::{Deserialize, Serialize};
use simrt::rng::Rng;
use simrt::{Cfg, Stop};
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug, Serialize, Deserialize)]
enum What {
    Circuit(Circ),
    /// Rows and columns of the file, seed of the entries.
    Matrix(u32, u32, u64),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Damage {
    None,
    /// Only so many 1/2^20 of the bytes are there.
    Cut(u32),
    /// So many bytes are missing at the end.
    Tail(u32),
    /// The n-th read fails.
    Read(u32, i32),
    Open(i32),
    /// An entry of a matrix is missing, or there is one too many; or a gate has an unknown name.
    Odd(u32, bool),
    /// A word is missing in some line: of the head of the file (true), or anywhere.
    Lack(u32, u32, bool),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Sc {
    fs_p: u32,
    what: What,
    damage: Damage,
    /// No line break after the last line.
    bare: bool,
    /// Something after the announced gates.
    extra: u32,
    /// Loads by several parties at once.
    parties: u32,
    eval: u64,
}

pub struct Files;

#[derive(Clone, Debug, PartialEq)]
struct Loaded {
    gates: Vec<(Op, Vec<u32>, u32)>,
    inputs: Vec<Vec<u32>>,
    outputs: Vec<Vec<u32>>,
    wires: u32,
}

/// What a circuit file says; None when it is not a complete circuit file.
fn read_circuit(text: &str) -> Option<Loaded> {
    let lines: Vec<Vec<&str>> = text.split('\n').map(|l| l.split_ascii_whitespace().collect()).collect();
    let nums = |l: &[&str]| -> Option<Vec<u32>> { l.iter().map(|x| x.parse().ok()).collect() };
    let head = nums(lines.first()?)?;
    let [gates, wires] = head[..] else { return None };
    let group = |l: Vec<u32>| -> Option<Vec<u32>> {
        let (k, rest) = l.split_first()?;
        (rest.len() == *k as usize).then(|| rest.to_vec())
    };
    let ins = group(nums(lines.get(1)?)?)?;
    let outs = group(nums(lines.get(2)?)?)?;
    if !lines.get(3)?.is_empty() {
        return None;
    }
    let mut got = Vec::new();
    for g in 0..gates as usize {
        let l = lines.get(4 + g)?;
        let (name, v) = l.split_last()?;
        let v = nums(v)?;
        let op = match *name {
            "AND" => Op::And,
            "XOR" => Op::Xor,
            "INV" => Op::Inv,
            _ => return None,
        };
        let k = if op == Op::Inv { 1 } else { 2 };
        if v.len() != k + 3 || v[0] != k as u32 || v[1] != 1 {
            return None;
        }
        got.push((op, v[2..2 + k].to_vec(), v[2 + k]));
    }
    let cut = |lens: &[u32], mut at: u32| -> Vec<Vec<u32>> {
        lens.iter()
            .map(|&k| {
                at += k;
                (at - k..at).collect()
            })
            .collect()
    };
    let total: u32 = outs.iter().sum();
    Some(Loaded { gates: got, inputs: cut(&ins, 0), outputs: cut(&outs, wires.checked_sub(total)?), wires })
}

/// The rows of a matrix file.
fn read_matrix(text: &str) -> Option<Vec<Vec<u32>>> {
    let text = text.strip_suffix('\n').unwrap_or(text);
    let rows: Option<Vec<Vec<u32>>> = text
        .split('\n')
        .map(|l| l.split(' ').map(|x| (x == "0" || x == "1").then(|| (x == "1") as u32)).collect())
        .collect();
    let rows = rows?;
    rows.iter().all(|r| r.len() == rows[0].len()).then_some(rows)
}

fn text(sc: &Sc) -> String {
    let mut t = match &sc.what {
        What::Circuit(c) => c.text(),
        What::Matrix(r, c, seed) => {
            let mut rng = Rng::new(*seed);
            let mut rows: Vec<Vec<String>> =
                (0..*r).map(|_| (0..*c).map(|_| rng.below(2).to_string()).collect()).collect();
            if let Damage::Odd(at, more) = &sc.damage {
                let k = *at as usize % rows.len();
                if *more {
                    rows[k].push("1".into());
                } else {
                    rows[k].pop();
                }
            }
            rows.iter().map(|r| r.join(" ") + "\n").collect()
        }
    };
    if let (What::Circuit(c), Damage::Odd(at, more)) = (&sc.what, &sc.damage) {
        let k = 4 + *at as usize % c.gates.len();
        let lines: Vec<String> = t
            .lines()
            .enumerate()
            .map(|(i, l)| if i != k { l.to_string() } else if *more { l.replace("AND", "NAND").replace("XOR", "XNOR").replace("INV", "EQW") } else { l.rsplit_once(' ').unwrap().0.to_string() })
            .collect();
        t = lines.join("\n") + "\n";
    }
    if let Damage::Lack(line, word, head) = sc.damage {
        let mut lines: Vec<Vec<&str>> = t.lines().map(|l| l.split(' ').collect()).collect();
        let full: Vec<usize> = (0..lines.len()).filter(|&i| lines[i] != [""] && (!head || i < 4)).collect();
        let l = &mut lines[full[line as usize % full.len()]];
        l.remove(word as usize % l.len());
        t = lines.iter().map(|l| l.join(" ") + "\n").collect();
    }
    if sc.bare {
        t.pop();
    } else if matches!(sc.what, What::Circuit(_)) {
        for _ in 0..sc.extra {
            t += "\n";
        }
    }
    match sc.damage {
        Damage::Cut(k) => t.truncate((t.len() as u64 * k as u64 >> 20) as usize),
        Damage::Tail(k) => t.truncate(t.len().saturating_sub(k as usize)),
        _ => {}
    }
    t
}

/// What was loaded, in the same form the readers above give.
enum Out {
    Circuit(Circuit),
    Matrix(Vec<Vec<u32>>),
}

fn view(c: &Circuit) -> Loaded {
    Loaded {
        gates: c
            .gates()
            .iter()
            .map(|g| match g {
                Gate::And(i) => (Op::And, i.inp.to_vec(), i.out),
                Gate::Xor(i) => (Op::Xor, i.inp.to_vec(), i.out),
                Gate::Inv(i) => (Op::Inv, i.inp.to_vec(), i.out),
            })
            .collect(),
        inputs: c.inputs().to_vec(),
        outputs: c.outputs().to_vec(),
        wires: c.num_wires(),
    }
}

impl Prop for Files {
    type Sc = Sc;
    const ID: &'static str = "C20";
    const QUICK: u64 = 150_000;
    const RULE: &'static str = "a case is a circuit or matrix file, possibly cut at any byte or otherwise incomplete, loaded by one to three simulated processes while reads come back short, are interrupted or fail; it is non-trivial when the file was damaged or an input/output decision other than the default was taken";
    const REAL: &'static str = "Circuit::from_bristol_fashion, Circuit::eval, binary_super_inv_matrix, std::fs and BufReader on real files";
    const STUB: &'static str = "outcomes of open and read, processes (one thread each, run one at a time)";

    fn gen(rng: &mut Rng, k: u64) -> Sc {
        let big = k % 40 == 5;
        let what = if rng.p(650) {
            let l = rng.range(1, 4) as u32;
            let mut c = Circ::gen(rng, l, big);
            let mut left = if c.gap > 0 { c.gates.len() as u32 } else { c.num_wires() };
            c.outputs = (0..rng.range(1, 4))
                .map(|_| {
                    let k = rng.range(1, 5).min(left as u64) as u32;
                    left -= k;
                    k
                })
                .filter(|&k| k > 0)
                .collect();
            What::Circuit(c)
        } else if big {
            What::Matrix(rng.range(20, 60) as u32, rng.range(50, 120) as u32, rng.next() >> 20)
        } else {
            What::Matrix(rng.range(1, 8) as u32, rng.range(1, 8) as u32, rng.next() >> 20)
        };
        let damage = match rng.below(8) {
            0 | 1 => Damage::None,
            2 | 3 => Damage::Cut(rng.below(1 << 20) as u32),
            4 => Damage::Tail(rng.range(1, 12) as u32),
            5 => Damage::Read(rng.below(if big { 6 } else { 2 }) as u32, rng.pick(&[5, 13, 21])),
            6 if rng.p(512) => Damage::Lack(rng.below(300) as u32, rng.below(8) as u32, rng.p(512)),
            6 => Damage::Odd(rng.below(100) as u32, rng.p(512)),
            _ if rng.p(200) => Damage::Open(rng.pick(&[2, 13, 24])),
            _ => Damage::None,
        };
        Sc {
            fs_p: rng.pick(&[0, 100, 500, 900]),
            what,
            damage,
            bare: rng.p(200),
            extra: rng.pick(&[0, 0, 0, 1, 2]),
            parties: rng.pick(&[1, 1, 1, 2, 3]),
            eval: rng.next() >> 20,
        }
    }

    fn fix(sc: &mut Sc) -> bool {
        sc.parties = sc.parties.clamp(1, 8);
        match &mut sc.what {
            What::Circuit(c) => c.fix(),
            What::Matrix(r, c, _) => *r >= 1 && *c >= 1 && *r <= 200 && *c <= 400,
        }
    }

    fn run(sc: &Sc, env: &mut Env) -> Res {
        mpc::init_field();
        std::fs::create_dir_all(&env.scratch).unwrap();
        let path = env.scratch.join("input.txt");
        let text = text(sc);
        std::fs::write(&path, &text).unwrap();
        let w = env.world(&Cfg { fs_p: sc.fs_p, sched: 1, ..Cfg::default() });
        {
            let mut fs = w.sim.fs.lock().unwrap();
            fs.set_root(path.to_str().unwrap());
            match sc.damage {
                Damage::Read(k, e) => fs.fail_read = Some((k as u64, e)),
                Damage::Open(e) => fs.fail_open = Some((0, e)),
                _ => {}
            }
        }
        let is_circuit = matches!(sc.what, What::Circuit(_));
        let outs: Vec<Arc<Mutex<Option<Out>>>> = (0..sc.parties).map(|_| Arc::default()).collect();
        for p in 0..sc.parties {
            let (path, out) = (path.clone(), outs[p as usize].clone());
            simrt::process::spawn(&w.sim, p, move || {
                let v = if is_circuit {
                    Out::Circuit(Circuit::from_bristol_fashion(&path))
                } else {
                    let m = binary_super_inv_matrix::<W>(&path);
                    // The file's rows are the matrix's columns.
                    Out::Matrix(m.columns().into_iter().map(|c| c.iter().map(|&x| raw(x)).collect()).collect())
                };
                *out.lock().unwrap() = Some(v);
            });
        }
        let stop = w.run();
        ensure!(stop == Stop::Quiescent, "no-progress", "stopped by {stop:?}");
        let failed = w.sim.fs.lock().unwrap().failures > 0;
        let (exits, odd): (Vec<Option<i32>>, bool) = {
            let mut st = w.sim.lock();
            ((0..sc.parties).map(|p| st.node_mut(p).exit).collect(), st.choice.nonzero.iter().sum::<u64>() > 0)
        };
        let (circuit, matrix) = if is_circuit { (read_circuit(&text), None) } else { (None, read_matrix(&text)) };
        let complete = circuit.is_some() || matrix.is_some();
        let mut refused = 0;
        for (p, out) in outs.iter().enumerate() {
            let out = out.lock().unwrap().take();
            match &out {
                None => {
                    ensure!(exits[p].is_some(), "hangs", "party {p} neither loads nor refuses the file");
                    ensure!(failed || !complete, "refused", "party {p} refuses a complete file of {} bytes", text.len());
                    refused += 1;
                }
                Some(_) if !complete => fail!("incomplete-accepted", "party {p} loads a file that is not complete ({} bytes, {:?})", text.len(), sc.damage),
                Some(Out::Circuit(c)) => {
                    let (v, want) = (view(c), circuit.as_ref().unwrap());
                    ensure!(v.wires == want.wires, "wires", "{} wires, the file says {}", v.wires, want.wires);
                    ensure!(v.inputs == want.inputs, "inputs", "input groups {:?}, the file says {:?}", v.inputs, want.inputs);
                    ensure!(v.outputs == want.outputs, "outputs", "output groups {:?}, the file says {:?}", v.outputs, want.outputs);
                    ensure!(v.gates == want.gates, "gates", "the gates are not those of the file");
                    env.checked(4);
                    if let (What::Circuit(spec), false) = (&sc.what, matches!(sc.damage, Damage::Odd(..) | Damage::Lack(..))) {
                        let mut rng = Rng::new(sc.eval);
                        for _ in 0..3 {
                            let ins: Vec<Vec<bool>> = spec.inputs.iter().map(|&k| (0..k).map(|_| rng.p(512)).collect()).collect();
                            let wires = spec.eval(&ins.concat());
                            let want: Vec<Vec<bool>> = spec.groups().1.iter().map(|g| g.iter().map(|&x| wires[x as usize]).collect()).collect();
                            let got = c.eval(&ins);
                            ensure!(got == want, "evaluation", "on {ins:?} the circuit gives {got:?}, the file means {want:?}");
                            env.checked(1);
                        }
                    }
                }
                Some(Out::Matrix(m)) => {
                    let want = matrix.as_ref().unwrap();
                    ensure!(m == want, "matrix", "{} rows, first {:?}; the file says {} rows, first {:?}", m.len(), m.first(), want.len(), want.first());
                    env.checked(1);
                }
            }
        }
        if failed {
            // Exactly one open or read failed; whoever made it must not have a result.
            ensure!(refused >= 1, "read-error-ignored", "an input error went unnoticed");
        }
        env.count("refused", refused);
        env.count("loaded", sc.parties as u64 - refused);
        env.out.nontrivial = odd || !matches!(sc.damage, Damage::None);
        env.out.sample = format!("{} bytes, {:?}, complete {complete}, refused {refused} of {}", text.len(), sc.damage, sc.parties);
        let d = match sc.damage {
            Damage::None => 0,
            Damage::Cut(k) => 1 + (k >> 14) as u64,
            Damage::Tail(k) => 1000 + k as u64,
            Damage::Read(k, _) => 2000 + k as u64,
            Damage::Open(_) => 3000,
            Damage::Lack(l, w, _) => 6000 + 10 * l as u64 + w as u64,
            Damage::Odd(k, m) => 4000 + 2 * k as u64 + m as u64,
        };
        env.cover(&[is_circuit as u64, d, sc.parties as u64, sc.bare as u64]);
        env.done(w);
        Ok(())
    }
}
