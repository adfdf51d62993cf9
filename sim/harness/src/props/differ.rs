//! C19: the same inputs give the same results, however they are run.

use super::core_protos::{batch, delays, order, world, Move};
use super::crash::{execute, prepare, Got, Inst, Prepared, Protos, Secret};
use super::garbling::small_params;
use crate::circ::{blocks, Circ, Op};
use crate::field::PssCache;
use crate::gen;
use crate::mpc::{self, Par, Transport};
use crate::prop::Prop;
use crate::run::{Env, Res, World};
use crate::{ensure, fail};
use serde::{Deserialize, Serialize};
use simrt::rng::Rng;
use simrt::Cfg;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Way {
    pub cfg: Cfg,
    tr: Transport,
    /// One instance after the other.
    pub turns: bool,
    order: u64,
    late: Vec<u64>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Sc {
    pub what: Protos,
    pub ways: Vec<Way>,
}

pub struct Differ;

/// Secrets by instance, group and item.
type Results = Vec<Vec<Vec<Vec<u32>>>>;

fn open(ps: &Protos, pre: &Prepared, got: &Got, fill: &[usize], cache: &mut PssCache) -> Res<Results> {
    let (n, m) = (ps.par.nn(), ps.par.m as usize);
    let mut out = Vec::new();
    for (i, groups) in pre.groups.iter().enumerate() {
        let who: Vec<u32> = (0..ps.par.n).filter(|p| !got.contains_key(&(i, *p))).collect();
        ensure!(who.is_empty(), "blocked", "instance {i} ({:?}) never returns at {who:?}", ps.insts[i]);
        let mut gs = Vec::new();
        for (gi, g) in groups.iter().enumerate() {
            let shares: Vec<&Vec<u32>> = (0..ps.par.n).map(|p| &got[&(i, p)][gi]).collect();
            let len = shares[0].len();
            ensure!(shares.iter().all(|s| s.len() == len), "count", "instance {i} ({:?}): parties hold different numbers of shares", ps.insts[i]);
            let mut items = Vec::new();
            // Rows of garbled tables, block by block.
            let mut keep = Vec::new();
            if matches!(ps.insts[i], Inst::Garble) {
                keep = fill.iter().flat_map(|&k| vec![k % 1000; m * (k / 1000)]).collect();
                ensure!(keep.len() == len, "count", "instance {i}: {len} table symbols instead of {}", keep.len());
            }
            for k in 0..len {
                let col: Vec<u32> = shares.iter().map(|s| s[k]).collect();
                let pss = cache.get(n, g.degree, &g.pos);
                let Some(mut v) = pss.open(&col) else {
                    fail!("degree", "instance {i} ({:?}) item {k}: the shares have a degree above {}", ps.insts[i], g.degree)
                };
                if let Some(&c) = keep.get(k) {
                    v.truncate(c);
                }
                // Generated material has nothing to be compared with but its kind.
                if matches!(ps.insts[i], Inst::Rand { .. } | Inst::Zero { .. } | Inst::Bit { .. } | Inst::Preproc) {
                    match g.secrets {
                        Secret::Zero => ensure!(v.iter().all(|&x| x == 0), "kind", "instance {i} ({:?}) group {gi} item {k}: {v:?} instead of zeros", ps.insts[i]),
                        Secret::Bits => ensure!(v.iter().all(|&x| x < 2), "kind", "instance {i} ({:?}) group {gi} item {k}: {v:?} instead of bits", ps.insts[i]),
                        _ => {}
                    }
                    v.clear();
                }
                items.push(v);
            }
            gs.push(items);
        }
        out.push(gs);
    }
    Ok(out)
}

fn run_one(ps: &Protos, pre: &Prepared, w: &World, way: &Way) -> Res<Got> {
    let mut ps = ps.clone();
    ps.late = way.late.clone();
    let (turns, seed, k) = (way.turns, way.order, ps.insts.len());
    let got = execute(&ps, pre, w, way.tr, move |p| if turns { None } else { Some(order(seed, p, k)) })?;
    w.no_panics()?;
    Ok(got)
}

impl Prop for Differ {
    type Sc = Sc;
    const ID: &'static str = "C19";
    const QUICK: u64 = 14_000;
    const RULE: &'static str = "a case is a set of multiplications, degree reductions, transformations, generations of transformation pairs and garblings with fixed inputs, and of generations of random, zero and bit sharings and preprocessings, whose outputs can only be compared by number and kind, run in a plain world one after the other over plain links, and again in two other worlds with another scheduler, transport, order, concurrency, number of worker threads and division of parallel work; it is non-trivial when the results hold at least one secret and a scheduler had a choice";
    const REAL: &'static str = "mult, reduce_degree, trans, randtrans, garble, rand, zero, randbit, preproc, with Local/Tcp the networks, the splitting of parallel work by rayon and ndarray";
    const STUB: &'static str = "executor, clock, TCP sockets, entropy, worker threads (sequential, order and division drawn), with transport Links the network; inputs dealt by the harness";

    fn gen(rng: &mut Rng, _: u64) -> Sc {
        let heavy = rng.p(400);
        let par = if heavy { small_params(rng) } else { Par::new(gen::params(rng)) };
        let circ = {
            let mut c = Circ::gen(rng, par.l, false);
            c.gates.truncate(8);
            let w = c.num_wires();
            if c.outputs.iter().sum::<u32>() > w {
                c.outputs = vec![1];
            }
            c
        };
        let (par, circ) = if heavy && rng.p(100) {
            // Many gates on the same wires.
            let ops = rng.below(4);
            let gates = (0..rng.range(16, 70)).map(|_| ([Op::And, Op::Xor, Op::Inv, rng.pick(&[Op::And, Op::Xor])][ops as usize], 0, 1)).collect();
            let l = rng.range(1, 2) as u32;
            (Par { k: 1, m: 2, ..Par::new((2 * l + 1, 1, l)) }, Circ { inputs: vec![2], gates, outputs: vec![1], perm: 0, gap: 0 })
        } else {
            (par, circ)
        };
        let num = if circ.gates.len() > 15 { 1 } else if heavy { rng.pick(&[1, 1, 2]) } else { rng.pick(&[1, 2, 2, 3, 5]) };
        let leader = |rng: &mut Rng| if rng.p(512) { None } else { Some(rng.below(par.n as u64) as u32) };
        let size = |rng: &mut Rng| if rng.p(60) { rng.range(100, 400) as u32 } else { batch(rng, 0) };
        let insts: Vec<Inst> = (0..num)
            .map(|_| {
                if heavy {
                    return if circ.gates.len() <= 15 && rng.p(350) { Inst::Preproc } else { Inst::Garble };
                }
                match rng.below(5) {
                    0 => Inst::Mult { num: size(rng), leader: leader(rng) },
                    1 => Inst::Reduce { num: size(rng), leader: leader(rng) },
                    4 => {
                        let num = rng.range(0, 40) as u32;
                        [Inst::Rand { num }, Inst::Zero { num }, Inst::Bit { num }][rng.below(3) as usize].clone()
                    }
                    2 => Inst::Trans { mv: Move::gen(rng, &par), num: size(rng), leader: leader(rng) },
                    _ => {
                        let k = rng.range(1, par.l as u64);
                        Inst::RandTrans { mvs: (0..k).map(|_| Move::gen(rng, &par)).collect(), reps: rng.range(0, 6) as u32 }
                    }
                }
            })
            .collect();
        let ways = (0..2)
            .map(|_| {
                let (mut cfg, tr) = world(rng, par.n);
                cfg.ray_threads = rng.pick(&[1, 2, 2, 3, 4, 8, 16]);
                let tr = if tr == Transport::Tcp && rng.p(300) { Transport::TcpLocalhost } else { tr };
                Way { cfg, tr, turns: rng.p(300), order: if rng.p(400) { 0 } else { rng.next() >> 20 }, late: delays(rng, par.n * num as u32) }
            })
            .collect();
        Sc { what: Protos { par, insts, circ, bin: rng.next() >> 20, late: Vec::new() }, ways }
    }

    fn fix(sc: &mut Sc) -> bool {
        let n = sc.what.par.n;
        sc.ways.iter_mut().for_each(|w| w.cfg.starve = w.cfg.starve.min(n - 1));
        !sc.ways.is_empty() && sc.what.fix()
    }

    fn run(sc: &Sc, env: &mut Env) -> Res {
        all_ways(sc, env)
    }
}

/// Runs everything in every way and compares.
pub fn all_ways(sc: &Sc, env: &mut Env) -> Res {
    mpc::init_field();
    let ps = &sc.what;
    let pre = prepare(ps, env, None);
    let bl = blocks(&ps.circ.load(env).pack(ps.par.l));
    // Rows and used positions of every table.
    let fill: Vec<usize> = bl.iter().map(|b| (if b.op == crate::circ::Op::Inv { 2 } else { 4 }) * 1000 + b.out.len()).collect();
    let plain = Way { cfg: Cfg { max_steps: 20_000_000, ..Cfg::default() }, tr: Transport::Links, turns: true, order: 0, late: Vec::new() };
    let mut cache = PssCache::default();
    let mut base: Option<Results> = None;
    let mut total = 0;
    for (k, way) in std::iter::once(&plain).chain(&sc.ways).enumerate() {
        let w = env.world(&way.cfg);
        let got = run_one(ps, &pre, &w, way)?;
        let res = open(ps, &pre, &got, &fill, &mut cache)?;
        env.out.nontrivial |= w.sim.lock().polls_multi > 0;
        env.done(w);
        let Some(b) = &base else {
            base = Some(res);
            continue;
        };
        for (i, (x, y)) in b.iter().zip(&res).enumerate() {
            for (gi, (x, y)) in x.iter().zip(y).enumerate() {
                ensure!(x.len() == y.len(), "count", "instance {i} ({:?}): {} items, run otherwise {}", ps.insts[i], x.len(), y.len());
                for (k2, (x, y)) in x.iter().zip(y).enumerate() {
                    ensure!(
                        x == y,
                        "differs",
                        "instance {i} ({:?}) group {gi} item {k2}: {x:?}, but {y:?} when run in way {k} ({:?}, {} worker threads, {})",
                        ps.insts[i],
                        way.tr,
                        way.cfg.ray_threads,
                        if way.turns { "one after the other" } else { "concurrently" }
                    );
                    total += 1;
                }
            }
        }
    }
    env.checked(total);
    env.out.nontrivial &= total > 0;
    env.out.sample = format!("{:?} {:?}", ps.par, ps.insts.iter().map(|i| format!("{i:?}").chars().take(30).collect::<String>()).collect::<Vec<_>>());
    env.cover(&[ps.par.n as u64, ps.par.l as u64, ps.insts.len() as u64, sc.ways[0].tr as u64, sc.ways[0].cfg.ray_threads as u64]);
    Ok(())
}
