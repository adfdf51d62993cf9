//! Circuits and garbling material for the checks.

use crate::field::{self, Pss};
use crate::mpc::{gf, Par, G, W};
use crate::run::Env;
use ndarray::{Array1, Array3};
use scalable_mpc::circuit::{Circuit, PackedCircuit, PackedGate};
use scalable_mpc::protocol::preproc::{PreProc, PreProcCount};
use serde::{Deserialize, Serialize};
use simrt::rng::Rng;
use std::path::PathBuf;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, PartialOrd, Ord)]
pub enum Op {
    And,
    Xor,
    Inv,
}

/// A circuit in which every value is well defined whatever the numbers are.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Circ {
    /// Sizes of the input groups.
    pub inputs: Vec<u32>,
    pub gates: Vec<(Op, u32, u32)>,
    /// Sizes of the output groups.
    pub outputs: Vec<u32>,
    /// Numbering of the gates' output wires (0: in gate order).
    pub perm: u64,
    /// Wires between the inputs and the gates' outputs that nothing uses.
    #[serde(default)]
    pub gap: u32,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct GateSpec {
    pub op: Op,
    pub a: u32,
    /// Equal to `a` for inverters.
    pub b: u32,
    pub out: u32,
}

impl Circ {
    pub fn num_inputs(&self) -> u32 {
        self.inputs.iter().sum()
    }

    pub fn num_wires(&self) -> u32 {
        self.num_inputs() + self.gap + self.gates.len() as u32
    }

    pub fn fix(&mut self) -> bool {
        self.inputs.retain(|&x| x > 0);
        self.outputs.retain(|&x| x > 0);
        if self.inputs.is_empty() || self.gates.is_empty() || self.outputs.is_empty() {
            return false;
        }
        let w = self.num_wires();
        w < 250_000 && self.outputs.iter().sum::<u32>() <= w - if self.gap > 0 { self.num_inputs() + self.gap } else { 0 }
    }

    pub fn specs(&self) -> Vec<GateSpec> {
        let ni = self.num_inputs();
        let k = self.gates.len();
        let mut num: Vec<u32> = (0..k as u32).collect();
        if self.perm != 0 {
            let mut r = Rng::new(self.perm);
            for i in (1..k).rev() {
                num.swap(i, r.below(i as u64 + 1) as usize);
            }
        }
        let wire = |v: u32| if v < ni { v } else { ni + self.gap + num[(v - ni) as usize] };
        self.gates
            .iter()
            .enumerate()
            .map(|(g, &(op, a, b))| {
                let have = ni + g as u32;
                let a = wire(a % have);
                let b = if op == Op::Inv { a } else { wire(b % have) };
                GateSpec { op, a, b, out: wire(have) }
            })
            .collect()
    }

    pub fn text(&self) -> String {
        let list = |v: &[u32]| v.iter().map(|x| format!(" {x}")).collect::<String>();
        let mut s = format!(
            "{} {}\n{}{}\n{}{}\n\n",
            self.gates.len(),
            self.num_wires(),
            self.inputs.len(),
            list(&self.inputs),
            self.outputs.len(),
            list(&self.outputs)
        );
        for g in self.specs() {
            s += &match g.op {
                Op::And => format!("2 1 {} {} {} AND\n", g.a, g.b, g.out),
                Op::Xor => format!("2 1 {} {} {} XOR\n", g.a, g.b, g.out),
                Op::Inv => format!("1 1 {} {} INV\n", g.a, g.out),
            };
        }
        s
    }

    /// Input groups and output groups as wires.
    pub fn groups(&self) -> (Vec<Vec<u32>>, Vec<Vec<u32>>) {
        let cut = |lens: &[u32], mut at: u32| {
            lens.iter()
                .map(|&k| {
                    at += k;
                    (at - k..at).collect()
                })
                .collect()
        };
        (cut(&self.inputs, 0), cut(&self.outputs, self.num_wires() - self.outputs.iter().sum::<u32>()))
    }

    pub fn eval(&self, inputs: &[bool]) -> Vec<bool> {
        let mut w = vec![false; self.num_wires() as usize];
        w[..inputs.len()].copy_from_slice(inputs);
        for g in self.specs() {
            let (a, b) = (w[g.a as usize], w[g.b as usize]);
            w[g.out as usize] = match g.op {
                Op::And => a & b,
                Op::Xor => a ^ b,
                Op::Inv => !a,
            };
        }
        w
    }

    pub fn save(&self, env: &Env) -> PathBuf {
        let p = env.scratch.join("circ.txt");
        std::fs::create_dir_all(&env.scratch).unwrap();
        std::fs::write(&p, self.text()).unwrap();
        p
    }

    /// Loaded by the code under test; outside any world.
    pub fn load(&self, env: &Env) -> Circuit {
        let p = self.save(env);
        let c = Circuit::from_bristol_fashion(&p);
        std::fs::remove_file(p).unwrap();
        c
    }

    pub fn gen(rng: &mut Rng, l: u32, big: bool) -> Circ {
        let inputs: Vec<u32> = (0..rng.range(1, 3)).map(|_| rng.range(1, 4) as u32).collect();
        let ni: u32 = inputs.iter().sum();
        let k = if big {
            rng.range(253, 262)
        } else {
            match rng.below(6) {
                0 => 1,
                1 => l as u64,
                2 => l as u64 + 1,
                3 => rng.range(8, 16),
                _ => rng.range(1, 7),
            }
        };
        let style = rng.below(7);
        let gates = (0..k)
            .map(|g| {
                let have = ni as u64 + g;
                let any = |r: &mut Rng| r.below(have) as u32;
                let op = match style {
                    0 => Op::And,
                    1 => Op::Xor,
                    2 => Op::Inv,
                    _ => rng.pick(&[Op::And, Op::And, Op::Xor, Op::Xor, Op::Inv]),
                };
                let (a, b) = match rng.below(6) {
                    // Few wires read over and over, in both orders.
                    0 | 1 => (rng.below(2) as u32, rng.below(2) as u32),
                    2 => {
                        let a = any(rng);
                        (a, a)
                    }
                    3 => (have as u32 - 1, any(rng)),
                    _ => (any(rng), any(rng)),
                };
                (op, a, b)
            })
            .collect::<Vec<_>>();
        let w = ni + k as u32;
        let mut outputs = vec![rng.range(1, (w as u64).min(5)) as u32];
        if rng.p(400) && outputs[0] + 2 <= w {
            outputs.push(rng.range(1, 2) as u32);
        }
        let gap = if !big && rng.p(80) { (rng.pick(&[250, 256, 1000, 32_768, 65_536, 65_536, 70_000, 131_072, 200_000]) - rng.below(40)) as u32 } else { 0 };
        if gap > 0 {
            outputs = vec![1];
        }
        Circ { inputs, gates, outputs, perm: if rng.p(300) { rng.next() >> 20 } else { 0 }, gap }
    }
}

/// One block of the packed circuit.
#[derive(Clone, Debug)]
pub struct Block {
    pub op: Op,
    pub a: Vec<u32>,
    pub b: Vec<u32>,
    pub out: Vec<u32>,
}

pub fn blocks(p: &PackedCircuit) -> Vec<Block> {
    p.gates()
        .iter()
        .map(|g| match g {
            PackedGate::And(i) => Block { op: Op::And, a: i.inp[0].clone(), b: i.inp[1].clone(), out: i.out.clone() },
            PackedGate::Xor(i) => Block { op: Op::Xor, a: i.inp[0].clone(), b: i.inp[1].clone(), out: i.out.clone() },
            PackedGate::Inv(i) => Block { op: Op::Inv, a: i.inp[0].clone(), b: i.inp[0].clone(), out: i.out.clone() },
        })
        .collect()
}

/// Secrets of garbling material: [item][packed position].
#[derive(Clone, Debug, Default)]
pub struct Secrets {
    pub masks: Vec<Vec<u32>>,
    /// [label][symbol][block][position]
    pub keys: Vec<Vec<Vec<Vec<u32>>>>,
    pub errors: Vec<Vec<u32>>,
}

pub struct Dealt {
    pub masks: Vec<Vec<u32>>,
    pub keys: Vec<Vec<u32>>,
    pub randoms: Vec<Vec<u32>>,
    pub zeros: Vec<Vec<u32>>,
    pub errors: Vec<Vec<u32>>,
    pub counts: PreProcCount,
}

fn fresh(p: &Pss, num: usize, rng: &mut Rng) -> Vec<Vec<u32>> {
    (0..num)
        .map(|_| {
            let s = field::rands(rng, p.pos.len());
            p.share(&s, rng)
        })
        .collect()
}

impl Secrets {
    pub fn gen(par: &Par, c: &PreProcCount, errors: bool, rng: &mut Rng) -> Secrets {
        let l = par.ll();
        let bits = |rng: &mut Rng| (0..l).map(|_| rng.below(2) as u32).collect();
        Secrets {
            masks: (0..c.masks).map(|_| bits(rng)).collect(),
            keys: (0..c.keys.0)
                .map(|_| (0..c.keys.1).map(|_| (0..c.keys.2).map(|_| field::rands(rng, l)).collect()).collect())
                .collect(),
            errors: (0..c.errors).map(|_| if errors { field::rands(rng, l) } else { vec![0; l] }).collect(),
        }
    }

    /// Shares of all parties, [item][party].
    pub fn deal(&self, par: &Par, counts: PreProcCount, rng: &mut Rng) -> Dealt {
        let (low, high) = (par.low(), par.high());
        let zero = vec![0; par.ll()];
        Dealt {
            masks: self.masks.iter().map(|s| low.share(s, rng)).collect(),
            keys: self.keys.iter().flatten().flatten().map(|s| low.share(s, rng)).collect(),
            randoms: fresh(&low, counts.randoms, rng),
            zeros: (0..counts.zeros).map(|_| high.share(&zero, rng)).collect(),
            errors: self.errors.iter().map(|s| low.share(s, rng)).collect(),
            counts,
        }
    }
}

impl Dealt {
    pub fn fresh_randoms(&mut self, par: &Par, rng: &mut Rng) {
        self.randoms = fresh(&par.low(), self.counts.randoms, rng);
    }

    pub fn fresh_zeros(&mut self, par: &Par, rng: &mut Rng) {
        let (high, zero) = (par.high(), vec![0; par.ll()]);
        self.zeros.iter_mut().for_each(|z| *z = high.share(&zero, rng));
    }

    pub fn of(&self, p: u32) -> PreProc<W> {
        let col = |v: &Vec<Vec<u32>>| -> Vec<G> { v.iter().map(|s| gf(s[p as usize])).collect() };
        PreProc {
            masks: Array1::from_vec(col(&self.masks)),
            keys: Array3::from_shape_vec(self.counts.keys, col(&self.keys)).unwrap(),
            randoms: col(&self.randoms).into(),
            zeros: col(&self.zeros).into(),
            errors: col(&self.errors).into(),
        }
    }
}

