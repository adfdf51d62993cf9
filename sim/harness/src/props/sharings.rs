//! C10: jointly generated sharings.

use crate::field::{self, Pss};
use crate::gen::{self, SEC, US};
use crate::mpc::{self, bin_array, bin_matrix, columns, raws, Par, Transport};
use crate::prop::Prop;
use crate::run::{nap, take_all, Env, Res};
use crate::{ensure, fail};
use scalable_mpc::math::super_inv_matrix;
use scalable_mpc::protocol::preproc::{rand, randbit, zero, RandBitContext, RandContext, ZeroContext};
use serde::{Deserialize, Serialize};
use simrt::rng::Rng;
use simrt::Cfg;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Kind {
    Rand,
    Zero,
    Bit,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Inst {
    kind: Kind,
    num: u32,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Sc {
    cfg: Cfg,
    par: Par,
    tr: Transport,
    insts: Vec<Inst>,
    /// Rows of the extraction matrix (0: n - t) and seed of the binary one.
    rows: u32,
    bin: u64,
    late: Vec<u64>,
    early: bool,
    /// What is asked of instance 0 in further worlds: 0 nothing, 1 whose randomness enters,
    /// 2 independence from any t parties' randomness.
    more: u8,
    who: Vec<u32>,
}

pub struct Sharings;

impl Sc {
    fn out_rows(&self) -> usize {
        let most = (self.par.n - self.par.t) as usize;
        if self.rows == 0 {
            most
        } else {
            (self.rows as usize).min(most)
        }
    }
    fn bin_rows(&self) -> Vec<Vec<u8>> {
        bin_matrix(&mut Rng::new(self.bin), self.par.nn(), self.par.t as usize, 5)
    }
    fn rows_of(&self, k: Kind) -> usize {
        match k {
            Kind::Bit => self.bin_rows().len(),
            _ => self.out_rows(),
        }
    }
}

/// Outputs per instance, as [item][party].
fn once(sc: &Sc, insts: &[Inst], cfg: &Cfg, tr: Transport, env: &mut Env, salts: &[u64], salt: u64) -> Res<Vec<Vec<Vec<u32>>>> {
    let par = sc.par;
    let w = env.world_salt(cfg, salt);
    for (p, &s) in salts.iter().enumerate() {
        w.sim.salt_node(p as u32, s);
    }
    let mat = Arc::new(super_inv_matrix::<{ mpc::W }>(par.nn(), sc.out_rows()));
    let bin = bin_array(&sc.bin_rows());
    let sc2 = (insts.to_vec(), sc.late.clone());
    let slots = mpc::start(&w, tr, par.n, sc.early, move |p, net| {
        let (insts, late) = sc2.clone();
        let (mat, bin) = (mat.clone(), bin.clone());
        async move {
            let ctx = par.ctx(p);
            let mut tasks = Vec::new();
            for (i, inst) in insts.iter().cloned().enumerate() {
                let d = late.get(p as usize * insts.len() + i).copied().unwrap_or(0);
                let (r, z, b) =
                    (RandContext::new(mat.clone(), &ctx), ZeroContext::new(mat.clone(), &ctx), RandBitContext::new(bin.clone(), &ctx));
                let net = net.clone();
                tasks.push(tokio::spawn(async move {
                    nap(d).await;
                    let id = vec![b'g', i as u8];
                    let num = inst.num as usize;
                    let out = match inst.kind {
                        Kind::Rand => rand(id, num, r, net).await,
                        Kind::Zero => zero(id, num, z, net).await,
                        Kind::Bit => randbit(id, num, b, net).await,
                    };
                    raws(&out)
                }));
            }
            let mut outs = Vec::new();
            for t in tasks {
                outs.push(t.await.unwrap());
            }
            (net, outs)
        }
    })?;
    w.run_clean()?;
    let outs = take_all(&slots, "generation")?;
    let mut res = Vec::new();
    for (i, inst) in insts.iter().enumerate() {
        let got: Vec<Vec<u32>> = outs.iter().map(|o| o.1[i].clone()).collect();
        for (p, g) in got.iter().enumerate() {
            ensure!(
                g.len() == got[0].len() && g.len() >= inst.num as usize,
                "count",
                "instance {i}: {} sharings asked for, party {p} holds {}, party 0 {}",
                inst.num,
                g.len(),
                got[0].len()
            );
        }
        res.push(columns(&got));
    }
    env.out.nontrivial |= w.sim.lock().polls_multi > 0 && insts.iter().any(|i| i.num > 0);
    drop(outs);
    env.done(w);
    Ok(res)
}

fn pss_of(par: &Par, k: Kind) -> Pss {
    if k == Kind::Zero {
        par.high()
    } else {
        par.low()
    }
}

/// The degrees of freedom of a sharing of this kind.
fn freedom(par: &Par, k: Kind) -> usize {
    match k {
        Kind::Zero => par.nn() - par.ll(),
        _ => par.d() + 1,
    }
}

/// Pairs of equal outputs.
fn repeats(outs: &[Vec<Vec<u32>>]) -> BTreeSet<(usize, usize)> {
    let mut seen: BTreeMap<&Vec<u32>, usize> = BTreeMap::new();
    let mut r = BTreeSet::new();
    for (i, v) in outs.iter().flatten().enumerate() {
        if let Some(j) = seen.insert(v, i) {
            r.insert((j, i));
        }
    }
    r
}

impl Prop for Sharings {
    type Sc = Sc;
    const ID: &'static str = "C10";
    const QUICK: u64 = 12_000;
    const RULE: &'static str = "a case is (n, t, l), extraction matrices, concurrently running generations of random, zero and bit sharings with their sizes, start delays and a world, followed for one instance by worlds in which only some parties' entropy changes; it is non-trivial when something was generated and the scheduler had a choice";
    const REAL: &'static str = "rand, zero, randbit, super_inv_matrix, PackedSharing, field arithmetic, message rounds, with Local/Tcp the networks";
    const STUB: &'static str = "executor, clock, TCP sockets, entropy (one seeded stream per party), thread pool (sequential, order drawn); with transport Links the network";

    fn gen(rng: &mut Rng, k: u64) -> Sc {
        let mut par = Par::new(gen::params_at(rng, k, 36));
        let (mut cfg, tr) = super::core_protos::world(rng, par.n);
        let mut num = rng.pick(&[1, 1, 2, 3, 5]);
        if k % 1000 == 777 {
            par = Par::new(rng.pick(&[(3, 1, 1), (4, 1, 1), (5, 1, 2)]));
            num = 1;
            cfg.faults.clear();
            (cfg.seg, cfg.wnd, cfg.yield_p, cfg.starve) = (0, 0, 0, 0);
        }
        let insts: Vec<Inst> = (0..num)
            .map(|_| Inst {
                kind: rng.pick(&[Kind::Rand, Kind::Zero, Kind::Bit]),
                num: match rng.below(8) {
                    _ if k % 1000 == 777 => rng.pick(&[1000, 2049, 4097, 10_001, 20_001, 65_537, 70_001]),
                    0 => 0,
                    1 => rng.range(30, 90) as u32,
                    2 if k % 10 == 3 => rng.range(200, 500) as u32,
                    _ => rng.range(1, 12) as u32,
                },
            })
            .collect();
        let p = rng.pick(&[0, 100, 600]);
        let late = (0..par.n * num as u32).map(|_| if rng.p(p) { rng.log(US, 3 * SEC) } else { 0 }).collect();
        let who = (0..par.n).map(|_| rng.below(1 << 20) as u32).collect();
        Sc {
            cfg,
            par,
            tr,
            insts,
            rows: if rng.p(200) { rng.range(1, par.n as u64) as u32 } else { 0 },
            bin: rng.next() >> 20,
            late,
            early: rng.p(700),
            more: rng.below(3) as u8,
            who,
        }
    }

    fn fix(sc: &mut Sc) -> bool {
        let p = sc.par;
        sc.cfg.starve = sc.cfg.starve.min(p.n - 1);
        gen::valid_params(p.n, p.t, p.l) && p.n <= 40 && sc.insts.len() >= 1 && sc.who.len() >= p.n as usize && sc.insts.iter().all(|i| i.num <= if p.n <= 5 { 80_000 } else { 2000 })
    }

    fn run(sc: &Sc, env: &mut Env) -> Res {
        mpc::init_field();
        let par = sc.par;
        let n = par.nn();
        let outs = once(sc, &sc.insts, &sc.cfg, sc.tr, env, &[], 0)?;
        for (i, (inst, got)) in sc.insts.iter().zip(&outs).enumerate() {
            let pss = pss_of(&par, inst.kind);
            let mut ones = 0u64;
            let mut bits = 0u64;
            for (k, col) in got.iter().enumerate() {
                let Some(v) = pss.open(col) else {
                    fail!("degree", "instance {i} ({:?}) item {k}: the shares are on no polynomial of degree {}", inst.kind, pss.d)
                };
                match inst.kind {
                    Kind::Rand => {}
                    Kind::Zero => ensure!(v.iter().all(|&x| x == 0), "not-zero", "instance {i} item {k}: a zero sharing has secrets {v:?}"),
                    Kind::Bit => {
                        ensure!(v.iter().all(|&x| x < 2), "not-bits", "instance {i} item {k}: a bit sharing has secrets {v:?}");
                        ones += v.iter().map(|&x| x as u64).sum::<u64>();
                        bits += v.len() as u64;
                    }
                }
                env.checked(1);
            }
            if bits >= 64 {
                let dev = (2 * ones).abs_diff(bits) as f64;
                ensure!(dev <= 8.0 * (bits as f64).sqrt(), "biased", "instance {i}: {ones} of {bits} random bits are one");
            }
        }
        let mut same = repeats(&outs);
        for salt in 1..3 {
            if same.is_empty() {
                break;
            }
            let again = repeats(&once(sc, &sc.insts, &sc.cfg, sc.tr, env, &[], salt)?);
            same.retain(|x| again.contains(x));
        }
        if let Some((a, b)) = same.first() {
            fail!("repeated", "sharings #{a} and #{b} of the run are always the same");
        }

        // Further plain worlds, in which some parties' entropy changes and the others' does not.
        let mut inst = sc.insts[0].clone();
        let rows = sc.rows_of(inst.kind);
        let plain = Cfg { max_steps: 20_000_000, ..Cfg::default() };
        let mut sc = sc.clone();
        sc.late.clear();
        let with = |salts: &[u64], inst: &Inst, env: &mut Env| -> Res<Vec<Vec<u32>>> {
            Ok(once(&sc, std::slice::from_ref(inst), &plain, Transport::Links, env, salts, 9)?.remove(0))
        };
        match sc.more {
            1 => {
                inst.num = inst.num.clamp(1, 40);
                let q = sc.who[0] as usize % n;
                let base = with(&vec![0; n], &inst, env)?;
                let unchanged = |salts: &dyn Fn(usize, u64) -> u64, env: &mut Env| -> Res<usize> {
                    let mut same: BTreeSet<usize> = (0..base.len()).collect();
                    for s in 1..3 {
                        let v: Vec<u64> = (0..n).map(|p| salts(p, s)).collect();
                        let now = with(&v, &inst, env)?;
                        same.retain(|&i| now.get(i) == Some(&base[i]));
                    }
                    Ok(same.len())
                };
                let mine = unchanged(&|p, s| if p == q { s } else { 0 }, env)?;
                let batches = base.len() / rows;
                let free = match inst.kind {
                    Kind::Bit => sc.bin_rows().iter().filter(|r| r[q] == 0).count(),
                    _ => 0,
                };
                ensure!(
                    mine <= free * batches,
                    "no-contribution",
                    "{:?}: {mine} of {} sharings do not depend on party {q}'s randomness ({} may)",
                    inst.kind,
                    base.len(),
                    free * batches
                );
                if n >= 2 {
                    let others = unchanged(&|p, s| if p == q { 0 } else { s }, env)?;
                    ensure!(others == 0, "predictable", "{:?}: {others} of {} sharings depend on party {q}'s randomness only", inst.kind, base.len());
                }
                env.checked(2 * base.len() as u64);
            }
            2 => {
                // One to three batches, t parties' entropy fixed: the outputs must still be
                // independent of each other and take every value.
                inst.num = 1 + (sc.who[1 % n] % 3) * rows as u32;
                let mut ids: Vec<usize> = (0..n).collect();
                ids.sort_by_key(|&i| sc.who[i]);
                let fixed: BTreeSet<usize> = ids[..par.t as usize].iter().cloned().collect();
                let f = freedom(&par, inst.kind);
                let base = with(&vec![0; n], &inst, env)?;
                let need = base.len().div_ceil(f).max(f.div_ceil(base.len())) + 1;
                let mut wide = vec![Vec::new(); base.len()];
                let mut tall = Vec::new();
                // Bits contribute less than a field element of freedom per world.
                let worlds = if inst.kind == Kind::Bit { need + 64 } else { need + 2 };
                for s in 0..worlds {
                    let v: Vec<u64> = (0..n).map(|p| if fixed.contains(&p) { 0 } else { 1 + s as u64 }).collect();
                    let now = with(&v, &inst, env)?;
                    ensure!(now.len() == base.len(), "count", "the number of sharings depends on the randomness");
                    for (i, x) in now.iter().enumerate() {
                        let d: Vec<u32> = x.iter().zip(&base[i]).map(|(a, b)| a ^ b).collect();
                        wide[i].extend(d.iter());
                        tall.push(d);
                    }
                }
                let r = field::rank(wide.clone());
                ensure!(
                    r == base.len(),
                    "dependent",
                    "{:?}: the {} sharings span only {r} dimensions once the randomness of parties {fixed:?} is known",
                    inst.kind,
                    base.len()
                );
                let r = field::rank(tall.clone());
                ensure!(r == f, "low-entropy", "{:?}: sharings span {r} dimensions instead of {f}", inst.kind);
                env.checked(2);
            }
            _ => {}
        }
        env.out.sample = format!("{:?} {:?} {:?} more={}", par, sc.tr, sc.insts.iter().map(|i| (i.kind, i.num)).collect::<Vec<_>>(), sc.more);
        env.cover(&[par.n as u64, par.t as u64, par.l as u64, sc.tr as u64, sc.insts.len() as u64, sc.more as u64, inst.kind as u64]);
        Ok(())
    }
}
