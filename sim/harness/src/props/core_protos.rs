//! C07, C08, C09: degree reduction, multiplication, share transformation, transformation pairs.

use crate::field::{self, PssCache};
use crate::gen::{self, SEC, US};
use crate::mpc::{self, columns, gf, gfs, raws, Par, Transport};
use crate::prop::Prop;
use crate::run::{nap, take_all, Env, Res};
use crate::{ensure, fail};
use ndarray::Array1;
use scalable_mpc::math::Combination;
use scalable_mpc::protocol::core::{mult, randtrans, reduce_degree, trans, RandSharingTransform, SharingTransform};
use serde::{Deserialize, Serialize};
use simrt::rng::Rng;
use simrt::Cfg;
use std::collections::BTreeMap;
use std::sync::Arc;

pub fn world(rng: &mut Rng, n: u32) -> (Cfg, Transport) {
    let tr = rng.pick(&[Transport::Links, Transport::Links, Transport::Local, Transport::Tcp]);
    let tr = if n > 11 && tr == Transport::Tcp { Transport::Links } else { tr };
    let mut cfg = gen::timing(rng, n);
    if tr == Transport::Tcp {
        gen::stream(rng, &mut cfg);
        if cfg.seg == 1 {
            cfg.seg = 2;
        }
        if cfg.wnd > 0 {
            cfg.wnd = cfg.wnd.max(64);
        }
    }
    gen::benign_faults(rng, &mut cfg, n, 1500);
    (cfg, tr)
}

pub fn delays(rng: &mut Rng, k: u32) -> Vec<u64> {
    let p = rng.pick(&[0, 100, 600]);
    (0..k).map(|_| if rng.p(p) { rng.log(US, 3 * SEC) } else { 0 }).collect()
}

pub fn batch(rng: &mut Rng, k: u64) -> u32 {
    if k % 256 == 11 {
        return rng.pick(&[255, 256, 257, 300, 600, 1025]) as u32;
    }
    match rng.below(8) {
        0 => 0,
        1 | 2 => 1,
        3 => rng.range(20, 80) as u32,
        _ => rng.range(2, 9) as u32,
    }
}

/// Now and then one instance over few parties is very large.
fn huge(rng: &mut Rng, k: u64, cfg: &mut Cfg) -> Option<(Par, u32)> {
    if k % 1500 != 1234 {
        return None;
    }
    cfg.faults.clear();
    (cfg.seg, cfg.wnd, cfg.yield_p, cfg.starve) = (0, 0, 0, 0);
    let num = rng.pick(&[4096, 4097, 5000, 10_001, 20_001, 32_769, 65_535, 65_536, 65_537]);
    Some((Par::new(rng.pick(&[(3, 1, 1), (4, 1, 1), (5, 1, 2)])), num))
}

/// The order in which party p starts its instances.
pub fn order(seed: u64, p: u32, k: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..k).collect();
    if seed != 0 {
        let mut r = Rng::new(seed + p as u64);
        for i in (1..k).rev() {
            v.swap(i, r.below(i as u64 + 1) as usize);
        }
    }
    v
}

fn id_of(i: usize) -> Vec<u8> {
    vec![b'i', i as u8, (i >> 8) as u8]
}

pub fn secret(rng: &mut Rng) -> u32 {
    match rng.below(8) {
        0 => 0,
        1 => 1,
        2 => field::ORDER - 1,
        _ => field::rand(rng),
    }
}

/// Shares dealt for the parties: deal[item][party] turned into one vector per party.
pub fn per_party(items: &[Vec<u32>], n: usize) -> Vec<Vec<u32>> {
    (0..n).map(|p| items.iter().map(|s| s[p]).collect()).collect()
}

pub fn arr(v: &[u32]) -> Array1<mpc::G> {
    Array1::from_vec(gfs(v))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct MultInst {
    /// Only reduce the degree of a given degree n-1 sharing.
    reduce: bool,
    num: u32,
    leader: Option<u32>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct MultSc {
    cfg: Cfg,
    par: Par,
    tr: Transport,
    insts: Vec<MultInst>,
    /// Parties start instances in different orders (0: all in the same).
    order: u64,
    late: Vec<u64>,
    early: bool,
}

pub struct Mult;

impl Prop for Mult {
    type Sc = MultSc;
    const ID: &'static str = "C07";
    const QUICK: u64 = 24_000;
    const RULE: &'static str = "a case is (n, t, l), a set of concurrently running multiplications and degree reductions with batch sizes and leaders, start orders and delays, and a world (scheduler, transport, latency, stalls, parallel split); it is non-trivial when at least one instance has a non-empty batch and the scheduler had a choice";
    const REAL: &'static str = "mult, reduce_degree, PackedSharing, field arithmetic, message rounds, with Local/Tcp the networks";
    const STUB: &'static str = "executor, clock, TCP sockets, thread pool (sequential, order drawn); with transport Links the network; input sharings dealt by the harness";

    fn gen(rng: &mut Rng, k: u64) -> MultSc {
        let mut par = Par::new(gen::params_at(rng, k, 300));
        let (mut cfg, tr) = world(rng, par.n);
        let big = huge(rng, k, &mut cfg);
        if let Some((p, _)) = big {
            par = p;
        }
        let num = if big.is_some() { 1 } else { rng.pick(&[1, 1, 1, 2, 3, 6]) };
        let insts = (0..num)
            .map(|_| MultInst {
                reduce: rng.p(300),
                num: big.map_or_else(|| batch(rng, k), |b| b.1),
                leader: if rng.p(512) { None } else { Some(rng.below(par.n as u64) as u32) },
            })
            .collect();
        MultSc { cfg, par, tr, insts, order: if rng.p(512) { 0 } else { rng.next() >> 20 }, late: delays(rng, par.n * num as u32), early: rng.p(700) }
    }

    fn fix(sc: &mut MultSc) -> bool {
        let p = sc.par;
        if !gen::valid_params(p.n, p.t, p.l) || sc.insts.iter().any(|i| i.num > 70_000) {
            return false;
        }
        sc.cfg.starve = sc.cfg.starve.min(p.n - 1);
        sc.insts.iter_mut().for_each(|i| i.leader = i.leader.map(|x| x % p.n));
        true
    }

    fn run(sc: &MultSc, env: &mut Env) -> Res {
        mpc::init_field();
        let par = sc.par;
        let (n, l) = (par.nn(), par.ll());
        let (low, high) = (par.low(), par.high());
        let mut rng = env.rng.clone();
        // Per instance: inputs per party and the secrets expected.
        let mut inputs = Vec::new();
        let mut want = Vec::new();
        for i in &sc.insts {
            let (mut xs, mut ys, mut rs, mut zs, mut out) = (vec![], vec![], vec![], vec![], vec![]);
            for _ in 0..i.num {
                let a: Vec<u32> = (0..l).map(|_| secret(&mut rng)).collect();
                let b: Vec<u32> = (0..l).map(|_| secret(&mut rng)).collect();
                if i.reduce {
                    xs.push(high.share(&a, &mut rng));
                    out.push(a);
                } else {
                    xs.push(low.share(&a, &mut rng));
                    ys.push(low.share(&b, &mut rng));
                    out.push(a.iter().zip(&b).map(|(&x, &y)| field::mul(x, y)).collect::<Vec<_>>());
                }
                let r = field::rands(&mut rng, l);
                rs.push(low.share(&r, &mut rng));
                zs.push(high.share(&vec![0; l], &mut rng));
            }
            inputs.push([per_party(&xs, n), per_party(&ys, n), per_party(&rs, n), per_party(&zs, n)]);
            want.push(out);
        }
        let inputs = Arc::new(inputs);
        let w = env.world(&sc.cfg);
        let sc2 = sc.clone();
        let slots = mpc::start(&w, sc.tr, par.n, sc.early, move |p, net| {
            let (sc, inputs) = (sc2.clone(), inputs.clone());
            async move {
                let ctx = sc.par.ctx(p);
                let mut tasks: BTreeMap<usize, _> = BTreeMap::new();
                for i in order(sc.order, p, sc.insts.len()) {
                    let inst = sc.insts[i].clone();
                    let v = inputs[i].each_ref().map(|x| arr(&x[p as usize]));
                    let d = sc.late.get(p as usize * sc.insts.len() + i).copied().unwrap_or(0);
                    let (ctx, net) = (ctx.clone(), net.clone());
                    tasks.insert(
                        i,
                        tokio::spawn(async move {
                            nap(d).await;
                            let [x, y, r, z] = v;
                            let leader = inst.leader.map(|x| x as u16);
                            let out = if inst.reduce {
                                reduce_degree(id_of(i), x, r, z, leader, ctx, net).await
                            } else {
                                mult(id_of(i), x, y, r, z, leader, ctx, net).await
                            };
                            raws(&out)
                        }),
                    );
                }
                let mut outs = Vec::new();
                for (_, t) in tasks {
                    outs.push(t.await.unwrap());
                }
                (net, outs)
            }
        })?;
        w.run_clean()?;
        let outs = take_all(&slots, "multiplications")?;
        for (i, want) in want.iter().enumerate() {
            let got: Vec<Vec<u32>> = outs.iter().map(|o| o.1[i].clone()).collect();
            for (p, g) in got.iter().enumerate() {
                ensure!(g.len() == want.len(), "count", "instance {i}: party {p} holds {} shares of {}", g.len(), want.len());
            }
            for (k, col) in columns(&got).iter().enumerate() {
                match low.open(col) {
                    None => fail!("degree", "instance {i} item {k}: the shares are on no polynomial of degree {}", par.d()),
                    Some(v) => ensure!(v == want[k], "wrong-value", "instance {i} item {k}: secrets {v:?} instead of {:?}", want[k]),
                }
                env.checked(1);
            }
        }
        env.out.nontrivial = sc.insts.iter().any(|i| i.num > 0) && w.sim.lock().polls_multi > 0;
        env.out.sample = format!("{par:?} {:?} {:?}", sc.tr, sc.insts);
        env.cover(&[par.n as u64, par.t as u64, par.l as u64, sc.tr as u64, sc.insts.len() as u64]);
        drop(outs);
        env.done(w);
        Ok(())
    }
}

/// Moving secrets: out[i] at new[i] is the old secret map[i] at old[map[i]].
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Move {
    pub old: Vec<u32>,
    pub new: Vec<u32>,
    pub map: Vec<u32>,
}

impl Move {
    pub fn gen(rng: &mut Rng, par: &Par) -> Move {
        let first = par.n;
        let default: Vec<u32> = (0..par.l).map(|i| par.n + i).collect();
        let mut list = |rng: &mut Rng, len: usize| -> Vec<u32> {
            if rng.p(400) {
                return default[..len].to_vec();
            }
            let mut v: Vec<u32> = Vec::new();
            while v.len() < len {
                let x = match rng.below(4) {
                    0 => rng.range(first as u64, field::ORDER as u64 - 1) as u32,
                    1 => field::ORDER - 1 - rng.below(10) as u32,
                    _ => first + rng.below(3 * par.l as u64 + 6) as u32,
                };
                if !v.contains(&x) {
                    v.push(x);
                }
            }
            v
        };
        let lo = rng.range(1, par.l as u64) as usize;
        let ln = if rng.p(512) { lo } else { rng.range(1, par.l as u64) as usize };
        let (lo, ln) = if rng.p(300) { (par.ll(), par.ll()) } else { (lo, ln) };
        let old = list(rng, lo);
        let new = list(rng, ln);
        let map = match rng.below(3) {
            0 if ln <= lo => (0..ln as u32).collect(),
            1 => (0..ln).map(|i| ((lo - 1) - i % lo) as u32).collect(),
            _ => (0..ln).map(|_| rng.below(lo as u64) as u32).collect(),
        };
        Move { old, new, map }
    }

    pub fn fix(&mut self, par: &Par) -> bool {
        let dedup = |v: &mut Vec<u32>| {
            let mut seen = Vec::new();
            v.retain(|&x| {
                let ok = x >= par.n && x < field::ORDER && !seen.contains(&x);
                seen.push(x);
                ok
            });
            v.truncate(par.ll());
            !v.is_empty()
        };
        if !dedup(&mut self.old) || !dedup(&mut self.new) {
            return false;
        }
        self.map.resize(self.new.len(), 0);
        let k = self.old.len() as u32;
        self.map.iter_mut().for_each(|m| *m %= k);
        true
    }

    pub fn comb(&self) -> Combination {
        Combination::new(self.map.iter().map(|&x| x as usize).collect())
    }

    pub fn apply(&self, v: &[u32]) -> Vec<u32> {
        self.map.iter().map(|&m| v[m as usize]).collect()
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct TransInst {
    mv: Move,
    num: u32,
    leader: Option<u32>,
    /// Input sharing has degree n-1 instead of t+l-1.
    high: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct TransSc {
    cfg: Cfg,
    par: Par,
    tr: Transport,
    insts: Vec<TransInst>,
    order: u64,
    late: Vec<u64>,
    early: bool,
}

pub struct Trans;

impl Prop for Trans {
    type Sc = TransSc;
    const ID: &'static str = "C08";
    const QUICK: u64 = 24_000;
    const RULE: &'static str = "a case is (n, t, l), a set of concurrently running transformations with old and new positions, selections, batch sizes and leaders, start orders and delays, and a world; it is non-trivial when at least one instance has a non-empty batch and the scheduler had a choice";
    const REAL: &'static str = "trans, SharingTransform, Combination, PackedSharing, lagrange_coeffs, field arithmetic, message rounds, with Local/Tcp the networks";
    const STUB: &'static str = "executor, clock, TCP sockets, thread pool (sequential, order drawn); with transport Links the network; input sharings dealt by the harness";

    fn gen(rng: &mut Rng, k: u64) -> TransSc {
        let mut par = Par::new(gen::params_at(rng, k, 300));
        let (mut cfg, tr) = world(rng, par.n);
        let big = huge(rng, k, &mut cfg);
        if let Some((p, _)) = big {
            par = p;
        }
        let num = if big.is_some() { 1 } else { rng.pick(&[1, 1, 1, 2, 3, 6]) };
        let insts = (0..num)
            .map(|_| TransInst {
                mv: Move::gen(rng, &par),
                num: big.map_or_else(|| batch(rng, k), |b| b.1),
                leader: if rng.p(512) { None } else { Some(rng.below(par.n as u64) as u32) },
                high: rng.p(300),
            })
            .collect();
        TransSc { cfg, par, tr, insts, order: if rng.p(512) { 0 } else { rng.next() >> 20 }, late: delays(rng, par.n * num as u32), early: rng.p(700) }
    }

    fn fix(sc: &mut TransSc) -> bool {
        let p = sc.par;
        if !gen::valid_params(p.n, p.t, p.l) || sc.insts.iter().any(|i| i.num > 70_000) {
            return false;
        }
        sc.cfg.starve = sc.cfg.starve.min(p.n - 1);
        sc.insts.iter_mut().all(|i| {
            i.leader = i.leader.map(|x| x % p.n);
            i.mv.fix(&p)
        })
    }

    fn run(sc: &TransSc, env: &mut Env) -> Res {
        mpc::init_field();
        let par = sc.par;
        let n = par.nn();
        let mut cache = PssCache::default();
        let mut rng = env.rng.clone();
        let mut inputs = Vec::new();
        let mut want = Vec::new();
        for i in &sc.insts {
            let (mut xs, mut rs, mut rn, mut out) = (vec![], vec![], vec![], vec![]);
            let k = i.mv.old.len();
            for _ in 0..i.num {
                let a: Vec<u32> = (0..k).map(|_| secret(&mut rng)).collect();
                let deg = if i.high { n - 1 } else { par.d() };
                xs.push(cache.get(n, deg, &i.mv.old).share(&a, &mut rng));
                let r = field::rands(&mut rng, k);
                rn.push(cache.get(n, n - 1, &i.mv.old).share(&r, &mut rng));
                rs.push(cache.get(n, par.d(), &i.mv.new).share(&i.mv.apply(&r), &mut rng));
                out.push(i.mv.apply(&a));
            }
            inputs.push([per_party(&xs, n), per_party(&rs, n), per_party(&rn, n)]);
            want.push(out);
        }
        let inputs = Arc::new(inputs);
        let w = env.world(&sc.cfg);
        let sc2 = sc.clone();
        let slots = mpc::start(&w, sc.tr, par.n, sc.early, move |p, net| {
            let (sc, inputs) = (sc2.clone(), inputs.clone());
            async move {
                let ctx = sc.par.ctx(p);
                let mut tasks: BTreeMap<usize, _> = BTreeMap::new();
                for i in order(sc.order, p, sc.insts.len()) {
                    let inst = sc.insts[i].clone();
                    let v = inputs[i].each_ref().map(|x| arr(&x[p as usize]));
                    let d = sc.late.get(p as usize * sc.insts.len() + i).copied().unwrap_or(0);
                    let (ctx, net) = (ctx.clone(), net.clone());
                    tasks.insert(
                        i,
                        tokio::spawn(async move {
                            nap(d).await;
                            let [x, r, rn] = v;
                            let tf = SharingTransform::new(gfs(&inst.mv.old), gfs(&inst.mv.new), inst.mv.comb());
                            raws(&trans(id_of(i), x, r, rn, tf, inst.leader.map(|x| x as u16), ctx, net).await)
                        }),
                    );
                }
                let mut outs = Vec::new();
                for (_, t) in tasks {
                    outs.push(t.await.unwrap());
                }
                (net, outs)
            }
        })?;
        w.run_clean()?;
        let outs = take_all(&slots, "transformations")?;
        for (i, want) in want.iter().enumerate() {
            let got: Vec<Vec<u32>> = outs.iter().map(|o| o.1[i].clone()).collect();
            for (p, g) in got.iter().enumerate() {
                ensure!(g.len() == want.len(), "count", "instance {i}: party {p} holds {} shares of {}", g.len(), want.len());
            }
            for (k, col) in columns(&got).iter().enumerate() {
                match cache.get(n, par.d(), &sc.insts[i].mv.new).open(col) {
                    None => fail!("degree", "instance {i} item {k}: the shares are on no polynomial of degree {}", par.d()),
                    Some(v) => ensure!(v == want[k], "wrong-value", "instance {i} item {k}: secrets {v:?} instead of {:?}", want[k]),
                }
                env.checked(1);
            }
        }
        env.out.nontrivial = sc.insts.iter().any(|i| i.num > 0) && w.sim.lock().polls_multi > 0;
        env.out.sample = format!("{par:?} {:?} {:?}", sc.tr, sc.insts.first());
        env.cover(&[par.n as u64, par.t as u64, par.l as u64, sc.tr as u64, sc.insts.len() as u64]);
        drop(outs);
        env.done(w);
        Ok(())
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RtInst {
    mvs: Vec<Move>,
    reps: u32,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RtSc {
    cfg: Cfg,
    par: Par,
    tr: Transport,
    insts: Vec<RtInst>,
    order: u64,
    late: Vec<u64>,
    early: bool,
}

pub struct RandTrans;

/// Values at the old positions per instance, transformation, repetition.
type Opened = Vec<Vec<Vec<Vec<u32>>>>;

fn run_rt(sc: &RtSc, env: &mut Env, salt: u64) -> Res<Opened> {
    let par = sc.par;
    let (n, l) = (par.nn(), par.ll());
    let (low, high) = (par.low(), par.high());
    let mut cache = PssCache::default();
    let mut rng = Rng::new(env.rng.clone().next() ^ salt);
    let mut inputs = Vec::new();
    for i in &sc.insts {
        let num = i.reps as usize;
        let rs: Vec<_> = (0..num * (n + par.t as usize))
            .map(|_| {
                let s = field::rands(&mut rng, l);
                low.share(&s, &mut rng)
            })
            .collect();
        let zs: Vec<_> = (0..2 * n * num).map(|_| high.share(&vec![0; l], &mut rng)).collect();
        inputs.push([per_party(&rs, n), per_party(&zs, n)]);
    }
    let inputs = Arc::new(inputs);
    let w = env.world(&sc.cfg);
    let sc2 = sc.clone();
    let slots = mpc::start(&w, sc.tr, par.n, sc.early, move |p, net| {
        let (sc, inputs) = (sc2.clone(), inputs.clone());
        async move {
            let ctx = sc.par.ctx(p);
            let mut tasks: BTreeMap<usize, _> = BTreeMap::new();
            for i in order(sc.order, p, sc.insts.len()) {
                let inst = sc.insts[i].clone();
                let v = inputs[i].each_ref().map(|x| x[p as usize].iter().map(|&y| gf(y)).collect());
                let d = sc.late.get(p as usize * sc.insts.len() + i).copied().unwrap_or(0);
                let (ctx, net) = (ctx.clone(), net.clone());
                tasks.insert(
                    i,
                    tokio::spawn(async move {
                        nap(d).await;
                        let [r, z] = v;
                        let old: Vec<_> = inst.mvs.iter().map(|m| gfs(&m.old)).collect();
                        let new: Vec<_> = inst.mvs.iter().map(|m| gfs(&m.new)).collect();
                        let f: Vec<_> = inst.mvs.iter().map(|m| m.comb()).collect();
                        let tf = RandSharingTransform::new(&old, &new, &f, &ctx);
                        let (a, b) = randtrans(id_of(i), r, z, tf, ctx, net).await;
                        let rows = |m: &ndarray::Array2<mpc::G>| -> Vec<Vec<u32>> { m.rows().into_iter().map(|r| raws(&r)).collect() };
                        (rows(&a), rows(&b))
                    }),
                );
            }
            let mut outs = Vec::new();
            for (_, t) in tasks {
                outs.push(t.await.unwrap());
            }
            (net, outs)
        }
    })?;
    w.run_clean()?;
    let outs = take_all(&slots, "transformation pairs")?;
    let mut opened = Opened::new();
    for (i, inst) in sc.insts.iter().enumerate() {
        let mut per_tf = Vec::new();
        for (k, mv) in inst.mvs.iter().enumerate() {
            let mut per_rep = Vec::new();
            for r in 0..inst.reps as usize {
                let mut a = Vec::new();
                let mut b = Vec::new();
                for (p, (_, o)) in outs.iter().enumerate() {
                    let (x, y) = (&o[i].0, &o[i].1);
                    ensure!(
                        x.len() > k && y.len() > k && x[k].len() == inst.reps as usize && y[k].len() == inst.reps as usize,
                        "count",
                        "instance {i}: party {p} got {} x {} shares",
                        x.len(),
                        x.first().map_or(0, |v| v.len())
                    );
                    a.push(x[k][r]);
                    b.push(y[k][r]);
                }
                let at_old = cache.get(n, n - 1, &mv.old).values(&b);
                match cache.get(n, par.d(), &mv.new).open(&a) {
                    None => fail!("degree", "instance {i} transformation {k} repetition {r}: the low sharing has a degree above {}", par.d()),
                    Some(v) => ensure!(
                        v == mv.apply(&at_old),
                        "not-matching",
                        "instance {i} transformation {k} repetition {r}: {v:?} at the new positions, {at_old:?} at the old ones, selection {:?}",
                        mv.map
                    ),
                }
                per_rep.push(at_old);
                env.checked(1);
            }
            per_tf.push(per_rep);
        }
        opened.push(per_tf);
    }
    drop(outs);
    env.out.nontrivial |= sc.insts.iter().any(|i| i.reps > 0 && !i.mvs.is_empty()) && w.sim.lock().polls_multi > 0;
    env.done(w);
    Ok(opened)
}

/// Places where a value is zero or equals another one.
fn coincidences(o: &Opened) -> Vec<(usize, usize)> {
    let flat: Vec<u32> = o.iter().flatten().flatten().flatten().cloned().collect();
    let mut by: BTreeMap<u32, Vec<usize>> = BTreeMap::new();
    for (i, &v) in flat.iter().enumerate() {
        by.entry(v).or_default().push(i);
    }
    let mut out = Vec::new();
    for (v, at) in by {
        if v == 0 {
            out.extend(at.iter().map(|&i| (i, i)));
        }
        for i in 0..at.len().min(50) {
            for j in i + 1..at.len().min(50) {
                out.push((at[i], at[j]));
            }
        }
    }
    out
}

impl Prop for RandTrans {
    type Sc = RtSc;
    const ID: &'static str = "C09";
    const QUICK: u64 = 16_000;
    const RULE: &'static str = "a case is (n, t, l), concurrently running generations of 1 to l transformations each with positions, selections and repetitions, start orders and delays, and a world; it is non-trivial when at least one transformation with one repetition or more was generated and the scheduler had a choice";
    const REAL: &'static str = "randtrans, RandSharingTransform, Combination, PackedSharing, lagrange_coeffs, field arithmetic, message rounds, with Local/Tcp the networks";
    const STUB: &'static str = "executor, clock, TCP sockets, thread pool (sequential, order drawn); with transport Links the network; random and zero sharings dealt by the harness";

    fn gen(rng: &mut Rng, k: u64) -> RtSc {
        let mut par = Par::new(gen::params_at(rng, k, 36));
        let (mut cfg, tr) = world(rng, par.n);
        let mut num = rng.pick(&[1, 1, 1, 2, 3]);
        let mut long = 0;
        if k % 400 == 321 {
            par = Par::new(rng.pick(&[(3, 1, 1), (4, 1, 1), (5, 1, 2), (7, 1, 3)]));
            num = 1;
            long = rng.pick(&[101, 129, 255, 256, 257, 300, 513, 1025, 2049]);
            cfg.faults.clear();
            (cfg.seg, cfg.wnd, cfg.yield_p, cfg.starve) = (0, 0, 0, 0);
        }
        let insts = (0..num)
            .map(|_| {
                let k = if rng.p(512) { par.l as u64 } else { rng.range(1, par.l as u64) };
                RtInst { mvs: (0..k).map(|_| Move::gen(rng, &par)).collect(), reps: if long > 0 { long } else { rng.pick(&[0, 1, 1, 2, 3, 7]) as u32 } }
            })
            .collect();
        RtSc { cfg, par, tr, insts, order: if rng.p(512) { 0 } else { rng.next() >> 20 }, late: delays(rng, par.n * num as u32), early: rng.p(700) }
    }

    fn fix(sc: &mut RtSc) -> bool {
        let p = sc.par;
        if !gen::valid_params(p.n, p.t, p.l) || sc.insts.iter().any(|i| i.reps > 5000 || i.mvs.is_empty()) {
            return false;
        }
        sc.cfg.starve = sc.cfg.starve.min(p.n - 1);
        sc.insts.iter_mut().all(|i| {
            i.mvs.truncate(p.ll());
            i.mvs.iter_mut().all(|m| m.fix(&p))
        })
    }

    fn run(sc: &RtSc, env: &mut Env) -> Res {
        mpc::init_field();
        let first = coincidences(&run_rt(sc, env, 0)?);
        if !first.is_empty() {
            // Chance, unless it happens at the same places with other material.
            let mut same = first;
            for salt in 1..3 {
                let again = coincidences(&run_rt(sc, env, salt)?);
                same.retain(|x| again.contains(x));
                env.count("confirmation-runs", 1);
            }
            if let Some((a, b)) = same.first() {
                fail!("not-random", "values #{a} and #{b} at old positions are always {}", if a == b { "zero" } else { "equal" });
            }
        }
        env.out.sample = format!("{:?} {:?} {:?}", sc.par, sc.tr, sc.insts.first());
        env.cover(&[sc.par.n as u64, sc.par.t as u64, sc.par.l as u64, sc.tr as u64, sc.insts.len() as u64]);
        Ok(())
    }
}
