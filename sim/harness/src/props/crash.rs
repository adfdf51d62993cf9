//! C18: crashed or disconnected peers.

use super::core_protos::{arr, batch, delays, per_party, secret, Move};
use super::delivery;
use super::garbling::{small_params, Tables};
use super::material::flat;
use crate::circ::{blocks, Circ, Op, Secrets};
use crate::field::{self, PssCache};
use crate::gen::{self, SEC};
use crate::mpc::{self, bin_array, bin_matrix, gfs, raws, Par, Transport};
use crate::nets::NetKind;
use crate::prop::Prop;
use crate::run::{nap, Env, Res, World};
use crate::{ensure, fail};
use scalable_mpc::math::super_inv_matrix;
use scalable_mpc::protocol::core::{mult, randtrans, reduce_degree, trans, RandSharingTransform, SharingTransform};
use scalable_mpc::protocol::garble::{garble, GarbleContext};
use scalable_mpc::protocol::network::{message_from_each_party, Recipient, SendMessage};
use scalable_mpc::protocol::preproc::{preproc, rand, randbit, zero, PreProc, RandBitContext, RandContext, ZeroContext};
use serde::{Deserialize, Serialize};
use simrt::rng::Rng;
use simrt::{Cfg, Fault, FaultKind};
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Inst {
    Round { len: u32 },
    Mult { num: u32, leader: Option<u32> },
    Reduce { num: u32, leader: Option<u32> },
    Trans { mv: Move, num: u32, leader: Option<u32> },
    Rand { num: u32 },
    Zero { num: u32 },
    Bit { num: u32 },
    Preproc,
    Garble,
    RandTrans { mvs: Vec<Move>, reps: u32 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Protos {
    pub par: Par,
    pub insts: Vec<Inst>,
    pub circ: Circ,
    pub bin: u64,
    pub late: Vec<u64>,
}

impl Protos {
    pub fn fix(&mut self) -> bool {
        let par = self.par;
        gen::valid_params(par.n, par.t, par.l)
                    && par.n <= 16
                    && par.k >= 1
                    && par.k <= 4
                    && par.m > par.k
                    && par.m <= 10
                    && !self.circ.gates.is_empty()
                    && self.circ.fix()
                    && self.insts.len() < 20
                    && self.insts.iter_mut().all(|i| match i {
                        Inst::Trans { mv, leader, num } => {
                            *leader = leader.map(|x| x % par.n);
                            *num <= 500 && mv.fix(&par)
                        }
                        Inst::Mult { leader, num } | Inst::Reduce { leader, num } => {
                            *leader = leader.map(|x| x % par.n);
                            *num <= 500
                        }
                        Inst::Rand { num } | Inst::Zero { num } | Inst::Bit { num } => *num <= 500,
                        Inst::RandTrans { mvs, reps } => {
                            mvs.truncate(par.ll());
                            *reps <= 100 && !mvs.is_empty() && mvs.iter_mut().all(|m| m.fix(&par))
                        }
                        Inst::Round { len } => *len <= 5000,
                        _ => true,
                    })
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum What {
    Msgs(delivery::Sc),
    Protos(Protos),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Sc {
    cfg: Cfg,
    local: bool,
    what: What,
    /// What breaks, at which thousandth of the run.
    cuts: Vec<(u32, FaultKind)>,
}

pub struct Crash;

/// Shares returned, by instance and party: a list per group.
pub type Got = BTreeMap<(usize, u32), Vec<Vec<u32>>>;

/// What a list of output shares must fit.
pub struct Group {
    pub degree: usize,
    pub pos: Vec<u32>,
    pub secrets: Secret,
}

pub enum Secret {
    /// One list per item.
    Known(Vec<Vec<u32>>),
    Zero,
    Bits,
    Any,
    /// The messages every party must hold.
    Equal(Vec<u32>),
}

/// Whether points lie on a polynomial of that degree; Some(values at `at`) when they decide it.
fn fits(x: &[u32], y: &[u32], degree: usize, at: &[u32]) -> Result<Option<Vec<u32>>, ()> {
    if x.len() < degree + 1 {
        return Ok(None);
    }
    let base = &x[..degree + 1];
    let rest = field::apply(&field::interp(base, &x[degree + 1..]), &y[..degree + 1]);
    if rest != y[degree + 1..] {
        return Err(());
    }
    Ok(Some(field::apply(&field::interp(base, at), &y[..degree + 1])))
}

fn cut(rng: &mut Rng, n: u32) -> FaultKind {
    let node = rng.below(n as u64) as u32;
    match rng.below(4) {
        0 => FaultKind::HostCrash { node },
        1 => FaultKind::Reset { a: node, b: (node + 1 + rng.below(n.max(2) as u64 - 1) as u32) % n },
        _ => FaultKind::Kill { node },
    }
}

fn run_msgs(sc: &Sc, m: &delivery::Sc, env: &mut Env, cfg: &Cfg) -> Res<(u64, u64)> {
    let w = env.world_as(cfg, 0, 0);
    let r = delivery::exchange(m, &w)?;
    let crossing = delivery::compare(m, &r, true, env)?;
    let steps = w.sim.lock().steps;
    let _ = sc;
    env.done(w);
    Ok((steps, crossing))
}

fn id_of(i: usize) -> Vec<u8> {
    vec![b'c', i as u8]
}

fn round_msg(p: u32, len: u32) -> Vec<u8> {
    gen::bytes(1000 + p as u64, (len + p) as usize)
}

/// Inputs of all parties to all instances, and what comes out of each.
pub struct Prepared {
    inputs: Vec<[Vec<Vec<u32>>; 4]>,
    mats: Vec<PreProc<{ mpc::W }>>,
    circuit: scalable_mpc::circuit::Circuit,
    pub groups: Vec<Vec<Group>>,
}

pub fn prepare(ps: &Protos, env: &mut Env, tables: Option<&Tables>) -> Prepared {
    mpc::init_field();
    let par = ps.par;
    let (n, l, d) = (par.nn(), par.ll(), par.d());
    let (low, high) = (par.low(), par.high());
    let default: Vec<u32> = (0..par.l).map(|i| par.n + i).collect();
    let mut cache = PssCache::default();
    let mut rng = env.rng.clone();
    let circuit = ps.circ.load(env);
    let packed = circuit.clone().pack(par.l);
    let counts = PreProc::<{ mpc::W }>::describe(&packed, &par.ctx(0));
    let dealt = Secrets::gen(&par, &counts, true, &mut rng).deal(&par, counts, &mut rng);
    let mats = (0..par.n).map(|p| dealt.of(p)).collect();

    let mut inputs: Vec<[Vec<Vec<u32>>; 4]> = Vec::new();
    let mut all = Vec::new();
    let g = |degree: usize, secrets: Secret| Group { degree, pos: default.clone(), secrets };
    for i in &ps.insts {
        let mut v: [Vec<Vec<u32>>; 4] = Default::default();
        let mut out = Vec::new();
        let groups = match i {
            Inst::Round { len } => vec![g(0, Secret::Equal((0..par.n).flat_map(|p| round_msg(p, *len)).map(u32::from).collect()))],
            Inst::Mult { num, .. } | Inst::Reduce { num, .. } => {
                for _ in 0..*num {
                    let a: Vec<u32> = (0..l).map(|_| secret(&mut rng)).collect();
                    let b: Vec<u32> = (0..l).map(|_| secret(&mut rng)).collect();
                    if matches!(i, Inst::Reduce { .. }) {
                        v[0].push(high.share(&a, &mut rng));
                        out.push(a);
                    } else {
                        v[0].push(low.share(&a, &mut rng));
                        v[1].push(low.share(&b, &mut rng));
                        out.push(a.iter().zip(&b).map(|(&x, &y)| field::mul(x, y)).collect());
                    }
                    let r = field::rands(&mut rng, l);
                    v[2].push(low.share(&r, &mut rng));
                    v[3].push(high.share(&vec![0; l], &mut rng));
                }
                vec![g(d, Secret::Known(out))]
            }
            Inst::Trans { mv, num, .. } => {
                for _ in 0..*num {
                    let a: Vec<u32> = (0..mv.old.len()).map(|_| secret(&mut rng)).collect();
                    let r = field::rands(&mut rng, mv.old.len());
                    v[0].push(cache.get(n, d, &mv.old).share(&a, &mut rng));
                    v[1].push(cache.get(n, d, &mv.new).share(&mv.apply(&r), &mut rng));
                    v[2].push(cache.get(n, n - 1, &mv.old).share(&r, &mut rng));
                    out.push(mv.apply(&a));
                }
                vec![Group { degree: d, pos: mv.new.clone(), secrets: Secret::Known(out) }]
            }
            Inst::Rand { .. } => vec![g(d, Secret::Any)],
            Inst::Zero { .. } => vec![g(n - 1, Secret::Zero)],
            Inst::Bit { .. } => vec![g(d, Secret::Bits)],
            Inst::Preproc => vec![g(d, Secret::Bits), g(d, Secret::Any), g(d, Secret::Any), g(n - 1, Secret::Zero), g(d, Secret::Any)],
            Inst::Garble => match tables {
                Some(t) => vec![g(n - 1, Secret::Known(t.iter().flatten().flatten().cloned().collect()))],
                None => vec![g(n - 1, Secret::Any)],
            },
            Inst::RandTrans { mvs, reps } => {
                for _ in 0..*reps as usize * (n + par.t as usize) {
                    let s = field::rands(&mut rng, l);
                    v[0].push(low.share(&s, &mut rng));
                }
                for _ in 0..*reps as usize * 2 * n {
                    v[1].push(high.share(&vec![0; l], &mut rng));
                }
                let lows = mvs.iter().map(|m| Group { degree: d, pos: m.new.clone(), secrets: Secret::Any });
                let highs = mvs.iter().map(|m| Group { degree: n - 1, pos: m.old.clone(), secrets: Secret::Any });
                lows.chain(highs).collect()
            }
        };
        inputs.push(v.map(|x| per_party(&x, n)));
        all.push(groups);
    }
    Prepared { inputs, mats, circuit, groups: all }
}

/// Runs every instance at every party, all at once or one after the other.
pub fn execute(ps: &Protos, pre: &Prepared, w: &World, tr: Transport, order: impl Fn(u32) -> Option<Vec<usize>> + Send + Sync + 'static) -> Res<Got> {
    let par = ps.par;
    let n = par.nn();
    let got: Arc<Mutex<Got>> = Arc::default();
    let mat = Arc::new(super_inv_matrix::<{ mpc::W }>(n, n - par.t as usize));
    let bin = bin_array(&bin_matrix(&mut Rng::new(ps.bin), n, par.t as usize, 5));
    let (ps2, inputs, got2) = (ps.clone(), Arc::new(pre.inputs.clone()), got.clone());
    let (mats, circuit) = (Arc::new(pre.mats.clone()), pre.circuit.clone());
    mpc::start(w, tr, par.n, true, move |p, net| {
        let (ps, inputs, got, mat, bin, mats, circuit) =
            (ps2.clone(), inputs.clone(), got2.clone(), mat.clone(), bin.clone(), mats.clone(), circuit.clone());
        let at = order(p);
        async move {
            let ctx = par.ctx(p);
            let k = ps.insts.len();
            for i in at.clone().unwrap_or_else(|| (0..k).collect()) {
                let inst = ps.insts[i].clone();
                let delay = ps.late.get(p as usize * ps.insts.len() + i).copied().unwrap_or(0);
                let v = inputs[i].each_ref().map(|x| arr(&x[p as usize]));
                let (ctx, net, got, m) = (ctx.clone(), net.clone(), got.clone(), mats[p as usize].clone());
                let (r, z, b) =
                    (RandContext::new(mat.clone(), &ctx), ZeroContext::new(mat.clone(), &ctx), RandBitContext::new(bin.clone(), &ctx));
                let circuit = circuit.clone();
                let task = tokio::spawn(async move {
                    nap(delay).await;
                    let lead = |x: Option<u32>| x.map(|x| x as u16);
                    let [x, y, rr, zz] = v;
                    let id = id_of(i);
                    let out = match inst {
                        Inst::Round { len } => {
                            net.send(SendMessage { proto_id: id.clone(), to: Recipient::All, data: round_msg(p, len) });
                            let all = message_from_each_party(id, &net, ctx.n).await;
                            vec![all.concat().into_iter().map(u32::from).collect()]
                        }
                        Inst::Mult { leader, .. } => vec![raws(&mult(id, x, y, rr, zz, lead(leader), ctx, net).await)],
                        Inst::Reduce { leader, .. } => vec![raws(&reduce_degree(id, x, rr, zz, lead(leader), ctx, net).await)],
                        Inst::Trans { leader, mv, .. } => {
                            let tf = SharingTransform::new(gfs(&mv.old), gfs(&mv.new), mv.comb());
                            vec![raws(&trans(id, x, y, rr, tf, lead(leader), ctx, net).await)]
                        }
                        Inst::Rand { num } => vec![raws(&rand(id, num as usize, r, net).await)],
                        Inst::Zero { num } => vec![raws(&zero(id, num as usize, z, net).await)],
                        Inst::Bit { num } => vec![raws(&randbit(id, num as usize, b, net).await)],
                        Inst::Preproc => {
                            let desc = PreProc::describe(&circuit.pack(ctx.l as u32), &ctx);
                            flat(&preproc(id, desc, ctx, r, z, b, net).await).to_vec()
                        }
                        Inst::RandTrans { mvs, .. } => {
                            let old: Vec<_> = mvs.iter().map(|m| gfs(&m.old)).collect();
                            let new: Vec<_> = mvs.iter().map(|m| gfs(&m.new)).collect();
                            let f: Vec<_> = mvs.iter().map(|m| m.comb()).collect();
                            let tf = RandSharingTransform::new(&old, &new, &f, &ctx);
                            let (a, b) = randtrans(id, x.to_vec().into(), y.to_vec().into(), tf, ctx, net).await;
                            let rows = |m: &ndarray::Array2<mpc::G>| m.rows().into_iter().take(mvs.len()).map(|r| raws(&r)).collect::<Vec<_>>();
                            [rows(&a), rows(&b)].concat()
                        }
                        Inst::Garble => {
                            let g = Arc::new(GarbleContext::new(circuit.pack(ctx.l as u32), ctx));
                            let gc = garble(id, m, g, net).await;
                            vec![gc.gates.iter().flat_map(|t| raws(t)).collect()]
                        }
                    };
                    got.lock().unwrap().insert((i, p), out);
                });
                if at.is_none() {
                    let _ = task.await;
                }
            }
            // Like a program, the party stays although its work may be over.
            std::future::pending::<()>().await;
            drop(net);
        }
    })?;
    w.run();
    let got = std::mem::take(&mut *got.lock().unwrap());
    Ok(got)
}

fn run_protos(sc: &Sc, ps: &Protos, env: &mut Env, cfg: &Cfg, tables: Option<&Tables>) -> Res<(u64, u64)> {
    let par = ps.par;
    let pre = prepare(ps, env, tables);
    let w = env.world_as(cfg, 0, 0);
    let k = ps.insts.len();
    w.sim.lock().net.shared_host = sc.local;
    let tr = if sc.local { Transport::TcpLocalhost } else { Transport::Tcp };
    let got = execute(ps, &pre, &w, tr, move |_| Some((0..k).collect()))?;
    let mut decided = 0;
    for (i, groups) in pre.groups.iter().enumerate() {
        let who: Vec<u32> = (0..par.n).filter(|p| got.contains_key(&(i, *p))).collect();
        env.count("instances-returned", who.len() as u64);
        if who.is_empty() {
            continue;
        }
        for (gi, group) in groups.iter().enumerate() {
            let outs: Vec<&Vec<u32>> = who.iter().map(|p| &got[&(i, *p)][gi]).collect();
            let len = outs[0].len();
            ensure!(outs.iter().all(|o| o.len() == len), "count", "instance {i} ({:?}): parties {who:?} hold different numbers of shares", ps.insts[i]);
            if let Secret::Known(v) = &group.secrets {
                ensure!(len == v.len(), "count", "instance {i} ({:?}): {len} shares instead of {}", ps.insts[i], v.len());
            }
            if let Secret::Equal(v) = &group.secrets {
                for (o, p) in outs.iter().zip(&who) {
                    ensure!(*o == v, "wrong-round", "instance {i}: party {p} finished a round without every party's message");
                }
                decided += 1;
                continue;
            }
            for k in 0..len {
                let mut x = who.clone();
                let mut y: Vec<u32> = outs.iter().map(|o| o[k]).collect();
                match &group.secrets {
                    Secret::Known(v) => {
                        // Blocks may be incomplete.
                        let m = v[k].len().min(group.pos.len());
                        x.extend(&group.pos[..m]);
                        y.extend(&v[k][..m]);
                    }
                    Secret::Zero => {
                        x.extend(&group.pos);
                        y.extend(vec![0; group.pos.len()]);
                    }
                    _ => {}
                }
                match fits(&x, &y, group.degree, &group.pos) {
                    Err(()) => fail!(
                        "wrong-share",
                        "instance {i} ({:?}) group {gi} item {k}: the shares returned by parties {who:?} are not shares of the right secrets",
                        ps.insts[i]
                    ),
                    Ok(Some(s)) => {
                        if matches!(group.secrets, Secret::Bits) {
                            ensure!(s.iter().all(|&b| b < 2), "wrong-share", "instance {i} ({:?}) item {k}: not bits", ps.insts[i]);
                            decided += 1;
                        } else if x.len() > group.degree + 1 {
                            decided += 1;
                        }
                    }
                    Ok(None) => {}
                }
            }
        }
    }
    env.checked(decided);
    let steps = w.sim.lock().steps;
    env.done(w);
    Ok((steps, decided))
}

/// The tables the material gives, from a run in which nothing goes wrong.
fn reference(ps: &Protos, env: &mut Env) -> Res<Tables> {
    mpc::init_field();
    let par = ps.par;
    let packed = ps.circ.load(env).pack(par.l);
    let bl = blocks(&packed);
    let counts = PreProc::<{ mpc::W }>::describe(&packed, &par.ctx(0));
    let mut rng = env.rng.clone();
    let dealt = Secrets::gen(&par, &counts, true, &mut rng).deal(&par, counts, &mut rng);
    let g = super::garbling::Sc {
        cfg: Cfg { max_steps: 20_000_000, ..Cfg::default() },
        par,
        tr: Transport::Links,
        circ: ps.circ.clone(),
        conc: false,
        late: Vec::new(),
        early: true,
    };
    let mats = vec![(0..par.n).map(|p| dealt.of(p)).collect()];
    let mut t = super::garbling::garble_all(&g, mats, env, &g.cfg, 0)?.remove(0);
    let fill: Vec<usize> = bl.iter().map(|b| b.out.len()).collect();
    super::garbling::used_only(&mut t, &fill);
    debug_assert!(bl.iter().all(|b| b.op != Op::Inv || !b.out.is_empty()));
    Ok(t)
}

impl Prop for Crash {
    type Sc = Sc;
    const ID: &'static str = "C18";
    const QUICK: u64 = 36_000;
    const RULE: &'static str = "a case is a set of message streams, or of concurrently running rounds, multiplications, transformations, generations, preprocessing and garbling, over TCP, a world, and one to three crashes of processes, crashes of hosts or resets of connections placed inside the run (its length is measured without them first); it is non-trivial when after the faults something was received from another party or a returned output could be decided";
    const REAL: &'static str = "setup_tcp_network with all its tasks, message rounds, mult, reduce_degree, trans, randtrans, rand, zero, randbit, preproc, garble";
    const STUB: &'static str = "executor, clock, TCP sockets, entropy, thread pool (sequential, order drawn); inputs dealt by the harness";

    fn gen(rng: &mut Rng, k: u64) -> Sc {
        if rng.p(450) {
            let mut m = <delivery::Delivery as Prop>::gen(rng, if k % 200 == 3 { 7 } else { 0 });
            if m.n < 2 {
                m.n = 2;
            }
            m.early = true;
            let local = rng.p(300);
            m.net = if local { NetKind::TcpLocalhost } else { NetKind::Tcp };
            let cuts = (0..rng.pick(&[1, 1, 2, 3])).map(|_| (rng.below(1000) as u32, cut(rng, m.n))).collect();
            return Sc { cfg: m.cfg.clone(), local, what: What::Msgs(m), cuts };
        }
        let heavy = rng.p(250);
        let mut par = if heavy { small_params(rng) } else { Par::new(gen::params(rng)) };
        if heavy && (par.n > 7 || rng.p(500)) {
            par = Par { k: 1, m: 2, ..Par::new(rng.pick(&[(5, 1, 2), (6, 1, 2), (7, 1, 3)])) };
        }
        let mut cfg = gen::timing(rng, par.n);
        gen::stream(rng, &mut cfg);
        if cfg.seg == 1 {
            cfg.seg = 2;
        }
        if cfg.wnd > 0 {
            cfg.wnd = cfg.wnd.max(64);
        }
        gen::benign_faults(rng, &mut cfg, par.n, 1500);
        let mut circ = Circ::gen(rng, par.l, false);
        circ.gates.truncate(4);
        let w = circ.num_wires();
        if circ.outputs.iter().sum::<u32>() > w {
            circ.outputs = vec![1];
        }
        let num = if heavy { 1 } else { rng.pick(&[1, 1, 2, 4]) };
        let leader = |rng: &mut Rng| if rng.p(512) { None } else { Some(rng.below(par.n as u64) as u32) };
        let insts = (0..num)
            .map(|_| {
                if heavy {
                    return if rng.p(512) { Inst::Preproc } else { Inst::Garble };
                }
                match rng.below(9) {
                    0 | 1 => Inst::Round { len: gen::msg_len(rng, false).min(400) },
                    2 => Inst::Mult { num: batch(rng, 0), leader: leader(rng) },
                    3 => Inst::Reduce { num: batch(rng, 0), leader: leader(rng) },
                    4 => Inst::Trans { mv: Move::gen(rng, &par), num: batch(rng, 0), leader: leader(rng) },
                    5 => Inst::Rand { num: batch(rng, 0) },
                    6 => Inst::Zero { num: batch(rng, 0) },
                    7 => Inst::RandTrans { mvs: vec![Move::gen(rng, &par)], reps: rng.range(1, 3) as u32 },
                    _ => Inst::Bit { num: batch(rng, 0) },
                }
            })
            .collect();
        let cuts = (0..rng.pick(&[1, 1, 1, 2]))
            .map(|_| (if rng.p(512) { rng.range(600, 999) } else { rng.below(1000) } as u32, cut(rng, par.n)))
            .collect();
        let late = delays(rng, par.n * num as u32).into_iter().map(|d| d.min(SEC)).collect();
        Sc { cfg, local: rng.p(300), what: What::Protos(Protos { par, insts, circ, bin: rng.next() >> 20, late }), cuts }
    }

    fn fix(sc: &mut Sc) -> bool {
        let n = match &mut sc.what {
            What::Msgs(m) => {
                m.early = true;
                if m.net == NetKind::Local || !<delivery::Delivery as Prop>::fix(m) {
                    return false;
                }
                m.n
            }
            What::Protos(p) => {
                let par = p.par;
                let ok = p.fix();
                if !ok {
                    return false;
                }
                par.n
            }
        };
        sc.cfg.starve = sc.cfg.starve.min(n - 1);
        sc.cuts.iter_mut().for_each(|(_, k)| match k {
            FaultKind::Kill { node } | FaultKind::HostCrash { node } => *node %= n,
            FaultKind::Reset { a, b } => {
                *a %= n;
                *b %= n;
            }
            _ => {}
        });
        true
    }

    fn run(sc: &Sc, env: &mut Env) -> Res {
        let mut tables = None;
        if let What::Protos(p) = &sc.what {
            if p.insts.iter().any(|i| matches!(i, Inst::Garble)) {
                tables = Some(reference(p, env)?);
            }
        }
        let go = |cfg: &Cfg, env: &mut Env| match &sc.what {
            What::Msgs(m) => run_msgs(sc, m, env, cfg),
            What::Protos(p) => run_protos(sc, p, env, cfg, tables.as_ref()),
        };
        let (steps, _) = go(&sc.cfg, env)?;
        let mut cfg = sc.cfg.clone();
        cfg.faults.extend(sc.cuts.iter().map(|(at, k)| Fault { step: 1 + steps * *at as u64 / 1000, kind: k.clone() }));
        cfg.faults.sort_by_key(|f| f.step);
        cfg.max_steps = steps * 4 + 100_000;
        let (_, got) = go(&cfg, env)?;
        env.out.nontrivial = got > 0;
        env.out.faulty = true;
        env.out.sample = match &sc.what {
            What::Msgs(m) => format!("{} parties, {} messages, cuts {:?}", m.n, m.msgs.len(), sc.cuts),
            What::Protos(p) => format!("{:?} {:?} cuts {:?}", p.par, p.insts.first(), sc.cuts),
        };
        let key = match &sc.what {
            What::Msgs(m) => m.n as u64,
            What::Protos(p) => 1000 + p.par.n as u64 * 10 + p.par.l as u64,
        };
        env.cover(&[key, sc.cuts.len() as u64, sc.cuts.first().map_or(0, |c| c.0 as u64 / 100), sc.local as u64]);
        Ok(())
    }
}
