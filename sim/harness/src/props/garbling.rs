//! C12 and C14: garbled tables and the matrices they are encrypted with.

use crate::circ::{blocks, Block, Circ, Op, Secrets};
use crate::field;
use crate::gen::{self, SEC, US};
use crate::mpc::{self, raws, Par, Transport};
use crate::prop::Prop;
use crate::run::{nap, take_all, Env, Res};
use crate::{ensure, fail};
use scalable_mpc::protocol::garble::{garble, GarbleContext};
use scalable_mpc::protocol::preproc::PreProc;
use serde::{Deserialize, Serialize};
use simrt::rng::Rng;
use simrt::Cfg;
use std::collections::BTreeMap;
use std::sync::Arc;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Sc {
    pub cfg: Cfg,
    pub par: Par,
    pub tr: Transport,
    pub circ: Circ,
    /// All garblings of the run at the same time rather than one after the other.
    pub conc: bool,
    pub late: Vec<u64>,
    pub early: bool,
}

pub fn small_params(rng: &mut Rng) -> Par {
    let (n, t, l) = if rng.p(12) {
        rng.pick(&[(12, 1, 5), (13, 3, 4), (19, 1, 9), (21, 1, 10), (17, 8, 1)])
    } else if rng.p(100) {
        gen::params(rng)
    } else {
        rng.pick(&[(3, 1, 1), (3, 1, 1), (4, 1, 1), (5, 1, 2), (5, 1, 2), (5, 2, 1), (6, 1, 2), (7, 1, 3), (7, 2, 2)])
    };
    let k = rng.pick(&[1, 1, 1, 2, 2, 3]);
    Par { n, t, l, k, m: k + 1 + rng.below(3) as u32 }
}

pub fn gen_sc(rng: &mut Rng, k: u64, every_big: u64) -> Sc {
    let big = k % every_big == every_big - 1;
    let par = if big { Par { k: 1, m: 2, ..Par::new(rng.pick(&[(3, 1, 1), (4, 1, 1), (5, 1, 2)])) } } else { small_params(rng) };
    let mut circ = Circ::gen(rng, par.l, big && par.l == 1);
    if big && par.l == 2 {
        circ = Circ::gen(rng, par.l, true);
    }
    let (cfg, tr) = super::core_protos::world(rng, par.n);
    let tr = if big { Transport::Links } else { tr };
    let p = rng.pick(&[0, 100, 600]);
    let late = (0..par.n * (par.k + 3)).map(|_| if rng.p(p) { rng.log(US, 3 * SEC) } else { 0 }).collect();
    Sc { cfg, par, tr, circ, conc: !big && rng.p(300), late, early: rng.p(700) }
}

/// Long keys and messages.
fn wide(sc: &mut Sc, rng: &mut Rng) {
    let k = rng.pick(&[9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127]);
    sc.par = Par { k, m: k + 1 + rng.below(3) as u32, ..Par::new(rng.pick(&[(3, 1, 1), (3, 1, 1), (5, 1, 2)])) };
    sc.circ.gates.truncate(if k > 40 { 1 } else { 3 });
    sc.circ.outputs = vec![1];
    sc.late.clear();
    if k > 20 {
        sc.tr = Transport::Links;
    }
}

/// More parties.
fn crowd(sc: &mut Sc, rng: &mut Rng) {
    let (n, t, l) = rng.pick(&[(41, 2, 3), (65, 1, 1), (65, 30, 1), (101, 1, 3), (130, 1, 1), (35, 1, 17), (67, 1, 33)]);
    sc.par = Par { k: 1, m: 2, ..Par::new((n, t, l)) };
    if l > 16 {
        let to = l as u64 + rng.below(4);
        fill(sc, rng, to);
    } else {
        sc.circ.gates.truncate(if n > 100 { 1 } else { 2 });
    }
    sc.circ.outputs = vec![1];
    (sc.tr, sc.conc) = (Transport::Links, false);
}

/// Many gates.
fn long(sc: &mut Sc, rng: &mut Rng) {
    sc.par = Par { k: 1, m: 2, ..Par::new(rng.pick(&[(3, 1, 1), (5, 1, 2)])) };
    let to = rng.pick(&[512, 513, 1000, 1024, 1025, 2049]);
    fill(sc, rng, to);
    (sc.tr, sc.conc) = (Transport::Links, false);
}

/// Gates reading wires of their own, then one pair read at the same positions of several blocks.
fn columns(sc: &mut Sc, rng: &mut Rng, wide: bool) {
    let l = if wide { rng.pick(&[9, 9, 10, 17]) } else { rng.range(2, 6) };
    sc.par = Par { k: 1, m: 2, ..Par::new((2 * l as u32 + 1, 1, l as u32)) };
    let own = rng.below(2 * l);
    let op = rng.pick(&[Op::And, Op::Xor, Op::Inv]);
    sc.circ.inputs = vec![2 * own as u32 + 2];
    sc.circ.gates = (0..own as u32).map(|g| (op, 2 * g, 2 * g + 1)).collect();
    let (a, b) = (2 * own as u32, 2 * own as u32 + 1);
    let one = (a, b);
    let two = if rng.p(300) { (b, a) } else { one };
    for _ in 0..rng.range(l + 1, 2 * l) {
        let (x, y) = if rng.p(512) { one } else { two };
        sc.circ.gates.push((op, x, y));
    }
    sc.circ.outputs = vec![1];
    sc.late.clear();
    if wide {
        (sc.tr, sc.conc) = (Transport::Links, false);
    }
}

fn fill(sc: &mut Sc, rng: &mut Rng, to: u64) {
    let ni = sc.circ.num_inputs() as u64;
    while (sc.circ.gates.len() as u64) < to {
        let have = ni + sc.circ.gates.len() as u64;
        sc.circ.gates.push((rng.pick(&[Op::And, Op::Xor, Op::Inv]), rng.below(have) as u32, rng.below(have) as u32));
    }
}

pub fn fix_sc(sc: &mut Sc) -> bool {
    let p = sc.par;
    sc.cfg.starve = sc.cfg.starve.min(p.n - 1);
    gen::valid_params(p.n, p.t, p.l) && p.n <= 130 && p.k >= 1 && p.k <= 127 && p.m > p.k && p.m <= 140 && sc.circ.fix()
}

/// The tables of one garbling: [gate block][row][symbol][position].
pub type Tables = Vec<Vec<Vec<Vec<u32>>>>;

/// Drops the positions of blocks that belong to no gate; what they hold is random.
pub fn used_only(t: &mut Tables, fill: &[usize]) {
    for (g, &k) in fill.iter().enumerate() {
        t[g].iter_mut().flatten().for_each(|v| v.truncate(k));
    }
}

/// Where each wire's label is: block and position.
pub fn places(inputs: &[Vec<u32>], bl: &[Block]) -> BTreeMap<u32, (usize, usize)> {
    let outs = inputs.iter().chain(bl.iter().map(|b| &b.out));
    outs.enumerate().flat_map(|(i, ws)| ws.iter().enumerate().map(move |(k, &w)| (w, (i, k)))).collect()
}

/// One garbling per secrets given, in one world.
pub fn garble_all(sc: &Sc, mats: Vec<Vec<PreProc<{ mpc::W }>>>, env: &mut Env, world: &Cfg, salt: u64) -> Res<Vec<Tables>> {
    let par = sc.par;
    let num = mats.len();
    let circuit = sc.circ.load(env);
    let bl = blocks(&circuit.clone().pack(par.l));
    let w = env.world_salt(world, salt);
    let (late, conc) = (sc.late.clone(), sc.conc);
    let mats = Arc::new(mats);
    let slots = mpc::start(&w, sc.tr, par.n, sc.early, move |p, net| {
        let (circuit, mats, late) = (circuit.clone(), mats.clone(), late.clone());
        async move {
            let ctx = Arc::new(GarbleContext::new(circuit.pack(par.l), par.ctx(p)));
            let mut outs = Vec::new();
            let mut tasks = Vec::new();
            for i in 0..num {
                let d = late.get(p as usize * num + i).copied().unwrap_or(0);
                let (ctx, net, m) = (ctx.clone(), net.clone(), mats[i][p as usize].clone());
                let task = tokio::spawn(async move {
                    nap(d).await;
                    let gc = garble(vec![b'G', i as u8], m, ctx, net).await;
                    gc.gates
                        .iter()
                        .map(|t| t.rows().into_iter().map(|r| raws(&r)).collect::<Vec<_>>())
                        .collect::<Vec<_>>()
                });
                if conc {
                    tasks.push(task);
                } else {
                    outs.push(task.await.unwrap());
                }
            }
            for t in tasks {
                outs.push(t.await.unwrap());
            }
            (net, outs)
        }
    })?;
    w.run_clean()?;
    let outs = take_all(&slots, "garbling")?;
    let high = par.high();
    let mut res = Vec::new();
    for i in 0..num {
        let mut tables = Vec::new();
        for (g, b) in bl.iter().enumerate() {
            let rows = if b.op == Op::Inv { 2 } else { 4 };
            for (p, o) in outs.iter().enumerate() {
                let t = &o.1[i];
                ensure!(t.len() == bl.len(), "shape", "party {p} holds {} tables for {} gate blocks", t.len(), bl.len());
                ensure!(
                    t[g].len() == rows && t[g].iter().all(|r| r.len() == par.m as usize),
                    "shape",
                    "party {p}, block {g} ({:?}): {} rows of {} symbols",
                    b.op,
                    t[g].len(),
                    t[g].first().map_or(0, |r| r.len())
                );
            }
            tables.push(
                (0..rows)
                    .map(|r| {
                        (0..par.m as usize)
                            .map(|m| {
                                let col: Vec<u32> = outs.iter().map(|o| o.1[i][g][r][m]).collect();
                                high.values(&col)
                            })
                            .collect()
                    })
                    .collect(),
            );
        }
        res.push(tables);
    }
    env.out.nontrivial |= w.sim.lock().polls_multi > 0;
    drop(outs);
    env.done(w);
    Ok(res)
}

/// What a ciphertext of the circuit holds: key symbols and message symbols.
struct Row {
    key: Vec<u32>,
    msg: Vec<u32>,
}

struct Shape {
    bl: Vec<Block>,
    at: BTreeMap<u32, (usize, usize)>,
    first_gate: usize,
}

fn row(par: &Par, sh: &Shape, s: &Secrets, g: usize, k: usize, r: usize) -> Row {
    let b = &sh.bl[g];
    let label = |w: u32, c: usize, j: usize| {
        let (blk, pos) = sh.at[&w];
        s.keys[c][j][blk][pos]
    };
    let mask = |w: u32| {
        let (blk, pos) = sh.at[&w];
        s.masks[blk][pos]
    };
    let (ci, cj) = if b.op == Op::Inv { (r, r) } else { (r / 2, r % 2) };
    let x = ci as u32 ^ mask(b.a[k]);
    let y = cj as u32 ^ mask(b.b[k]);
    let f = match b.op {
        Op::And => x & y,
        Op::Xor => x ^ y,
        Op::Inv => x ^ 1,
    };
    let z = f ^ s.masks[sh.first_gate + g][k];
    let key = (0..par.k as usize)
        .map(|j| if b.op == Op::Inv { label(b.a[k], ci, j) } else { label(b.a[k], ci, j) ^ label(b.b[k], cj, j) })
        .collect();
    let mut plain: Vec<u32> = (0..par.k as usize).map(|j| s.keys[z as usize][j][sh.first_gate + g][k]).collect();
    plain.push(z);
    let msg = (0..par.m)
        .map(|m| plain.iter().enumerate().fold(0, |a, (j, &v)| a ^ field::mul(v, field::pow(m + 1, j as u32 + 1))))
        .collect();
    Row { key, msg }
}

type Matrices = BTreeMap<(usize, usize, usize), Vec<Vec<u32>>>;

/// Garbles several times and solves for the public matrices; checks that every table fits.
fn analyse(sc: &Sc, env: &mut Env, errors: bool) -> Res<(Shape, Matrices)> {
    mpc::init_field();
    let par = sc.par;
    let packed = sc.circ.load(env).pack(par.l);
    let counts = PreProc::<{ mpc::W }>::describe(&packed, &par.ctx(0));
    let bl = blocks(&packed);
    let sh = Shape { at: places(packed.inputs(), &bl), first_gate: packed.inputs().len(), bl };

    // The packed circuit must be the circuit.
    let mut want = sc.circ.specs();
    let mut have: Vec<_> = sh
        .bl
        .iter()
        .flat_map(|b| (0..b.out.len()).map(|k| crate::circ::GateSpec { op: b.op, a: b.a[k], b: b.b[k], out: b.out[k] }))
        .collect();
    want.sort();
    have.sort();
    ensure!(want == have, "other-circuit", "the garbled circuit's gates are not the gates of the file");
    let ins: Vec<u32> = packed.inputs().iter().flatten().cloned().collect();
    ensure!(ins == (0..sc.circ.num_inputs()).collect::<Vec<_>>(), "other-circuit", "input wires {ins:?}");

    let plain = par.k as usize + 2;
    let num = plain + errors as usize;
    let mut rng = env.rng.clone();
    let secrets: Vec<Secrets> = (0..num).map(|i| Secrets::gen(&par, &counts, i >= plain, &mut rng)).collect();
    let mats = secrets
        .iter()
        .map(|s| {
            let d = s.deal(&par, counts, &mut rng);
            (0..par.n).map(|p| d.of(p)).collect()
        })
        .collect();
    let tables = garble_all(sc, mats, env, &sc.cfg, 0)?;

    let mut pool: BTreeMap<(usize, u32), i64> = BTreeMap::new();
    if errors {
        for e in &secrets[plain].errors {
            for (k, &v) in e.iter().enumerate() {
                *pool.entry((k, v)).or_insert(0) += 1;
            }
        }
    }
    let mut found = Matrices::new();
    for g in 0..sh.bl.len() {
        for k in 0..sh.bl[g].out.len() {
            for r in 0..tables[0][g].len() {
                let rows: Vec<Row> = secrets.iter().map(|s| row(&par, &sh, s, g, k, r)).collect();
                let keys: Vec<Vec<u32>> = rows[..plain].iter().map(|x| x.key.clone()).collect();
                let mut mat = Vec::new();
                let rhs: Vec<Vec<u32>> =
                    (0..par.m as usize).map(|m| (0..plain).map(|i| tables[i][g][r][m][k] ^ rows[i].msg[m]).collect()).collect();
                for (m, a) in field::solve_each(&keys, &rhs).into_iter().enumerate() {
                    let Some(a) = a else {
                        fail!(
                            "wrong-table",
                            "{:?} block {g} position {k} row {r} symbol {m} (wires {} {} -> {}): no public matrix explains the tables of {plain} garblings",
                            sh.bl[g].op,
                            sh.bl[g].a[k],
                            sh.bl[g].b[k],
                            sh.bl[g].out[k]
                        )
                    };
                    if errors {
                        let e = tables[plain][g][r][m][k] ^ rows[plain].msg[m] ^ field::dot(&a, &rows[plain].key);
                        let left = pool.entry((k, e)).or_insert(0);
                        *left -= 1;
                        ensure!(
                            *left >= 0,
                            "wrong-error",
                            "{:?} block {g} position {k} row {r} symbol {m}: the noise {e} is no unused error of the material",
                            sh.bl[g].op
                        );
                    }
                    mat.push(a);
                    env.checked(1);
                }
                let same = sh.bl[g].op != Op::Inv && sh.bl[g].a[k] == sh.bl[g].b[k] && r / 2 == r % 2;
                if !same {
                    ensure!(
                        field::rank(mat.clone()) == par.k as usize,
                        "no-encryption",
                        "{:?} block {g} position {k} row {r}: the encryption matrix {mat:?} does not have full rank",
                        sh.bl[g].op
                    );
                    found.insert((g, k, r), mat);
                }
            }
        }
    }
    Ok((sh, found))
}

fn note(sc: &Sc, sh: &Shape, env: &mut Env) {
    let ops: Vec<usize> = [Op::And, Op::Xor, Op::Inv].iter().map(|o| sh.bl.iter().filter(|b| b.op == *o).count()).collect();
    env.out.sample = format!("{:?} {:?} conc={} blocks and/xor/inv={ops:?} gates={}", sc.par, sc.tr, sc.conc, sc.circ.gates.len());
    env.cover(&[sc.par.n as u64, sc.par.l as u64, sc.par.k as u64, sc.par.m as u64, ops[0] as u64, ops[1] as u64, ops[2] as u64, sc.tr as u64]);
}

pub struct Tabs;

impl Prop for Tabs {
    type Sc = Sc;
    const ID: &'static str = "C12";
    const QUICK: u64 = 5000;
    const RULE: &'static str = "a case is (n, t, l), LPN key and message lengths, a circuit, several garblings of it with different known material run concurrently or in turn, start delays and a world; it is non-trivial when the scheduler had a choice (every case has at least one gate)";
    const REAL: &'static str = "garble, GarbleContext, Circuit loading and packing, trans, randtrans, mult, PackedSharing, field arithmetic, message rounds, with Local/Tcp the networks";
    const STUB: &'static str = "executor, clock, TCP sockets, entropy, thread pool (sequential, order drawn); with transport Links the network; preprocessing material dealt by the harness";

    fn gen(rng: &mut Rng, k: u64) -> Sc {
        let mut sc = gen_sc(rng, k, 400);
        match k % 800 {
            123 => wide(&mut sc, rng),
            456 => crowd(&mut sc, rng),
            678 => long(&mut sc, rng),
            _ => {}
        }
        sc
    }
    fn fix(sc: &mut Sc) -> bool {
        fix_sc(sc)
    }
    fn run(sc: &Sc, env: &mut Env) -> Res {
        let (sh, _) = analyse(sc, env, true)?;
        note(sc, &sh, env);
        Ok(())
    }
}

pub struct Reuse;

impl Prop for Reuse {
    type Sc = Sc;
    const ID: &'static str = "C14";
    const QUICK: u64 = 5000;
    const RULE: &'static str = "a case is a circuit reading wires repeatedly, parameters, enough garblings with known material to solve for the public matrices, and a world; it is non-trivial when at least two ciphertexts are encrypted under the same combination of labels";
    const REAL: &'static str = Tabs::REAL;
    const STUB: &'static str = Tabs::STUB;

    fn gen(rng: &mut Rng, k: u64) -> Sc {
        let mut sc = gen_sc(rng, k, 500);
        sc.par.k = 1 + (rng.below(4) == 0) as u32;
        sc.par.m = sc.par.k + 2;
        if sc.circ.gates.len() > 200 && rng.p(600) {
            // One pair of wires, read more often than fits a byte.
            let op = rng.pick(&[Op::And, Op::Xor, Op::Inv]);
            sc.circ.gates = (0..rng.range(257, 270) * sc.par.l as u64).map(|_| (op, 0, sc.circ.num_inputs() - 1)).collect();
        } else if sc.circ.gates.len() < 40 && !rng.p(100) {
            // Read the same wires again and again.
            let more = rng.range(2, 10);
            let pool = rng.range(2, 3) as u32;
            for _ in 0..more {
                let (a, b) = (rng.below(pool as u64) as u32, rng.below(pool as u64) as u32);
                sc.circ.gates.push((rng.pick(&[Op::And, Op::Xor, Op::Inv]), a, b));
            }
        }
        match k % 800 {
            123 => wide(&mut sc, rng),
            456 => crowd(&mut sc, rng),
            678 => long(&mut sc, rng),
            x if x % 100 == 37 => columns(&mut sc, rng, k % 200 == 37),
            _ => {}
        }
        sc
    }
    fn fix(sc: &mut Sc) -> bool {
        fix_sc(sc)
    }
    fn run(sc: &Sc, env: &mut Env) -> Res {
        let (sh, found) = analyse(sc, env, false)?;
        type Use<'a> = (&'a (usize, usize, usize), &'a Vec<Vec<u32>>);
        let mut by_key: BTreeMap<Vec<(u32, usize)>, Vec<Use>> = BTreeMap::new();
        for (at, mat) in &found {
            let (g, k, r) = *at;
            let b = &sh.bl[g];
            let mut labels = if b.op == Op::Inv { vec![(b.a[k], r)] } else { vec![(b.a[k], r / 2), (b.b[k], r % 2)] };
            labels.sort();
            by_key.entry(labels).or_default().push((at, mat));
        }
        let mut shared = 0;
        for (labels, uses) in &by_key {
            for i in 0..uses.len() {
                for j in i + 1..uses.len() {
                    shared += 1;
                    ensure!(
                        uses[i].1 != uses[j].1,
                        "pad-reused",
                        "labels {labels:?} encrypt (block, position, row) {:?} and {:?} with the same matrix",
                        uses[i].0,
                        uses[j].0
                    );
                }
            }
        }
        env.count("ciphertext-pairs-under-same-labels", shared);
        env.checked(shared);
        env.out.nontrivial &= shared > 0;
        note(sc, &sh, env);
        Ok(())
    }
}
