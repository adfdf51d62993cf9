//! C11: preprocessing.

use crate::circ::{blocks, Circ};
use crate::field;
use crate::gen::{self, SEC, US};
use crate::mpc::{self, bin_array, bin_matrix, raws, Par, Transport};
use crate::prop::Prop;
use crate::run::{nap, take_all, Env, Res};
use crate::{ensure, fail};
use scalable_mpc::math::super_inv_matrix;
use scalable_mpc::protocol::garble::{garble, GarbleContext};
use scalable_mpc::protocol::preproc::{preproc, PreProc, RandBitContext, RandContext, ZeroContext};
use serde::{Deserialize, Serialize};
use simrt::rng::Rng;
use simrt::Cfg;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Sc {
    pub cfg: Cfg,
    pub par: Par,
    pub tr: Transport,
    pub circ: Circ,
    pub rows: u32,
    pub bin: u64,
    pub late: Vec<u64>,
    pub early: bool,
    /// Another preprocessing runs at the same time.
    pub twice: bool,
}

pub struct Material;

/// Items at all parties, [item][party], by kind.
#[derive(Default)]
struct Got {
    masks: Vec<Vec<u32>>,
    keys: Vec<Vec<u32>>,
    randoms: Vec<Vec<u32>>,
    zeros: Vec<Vec<u32>>,
    errors: Vec<Vec<u32>>,
}

pub fn flat(p: &PreProc<{ mpc::W }>) -> [Vec<u32>; 5] {
    [raws(&p.masks), raws(&p.keys), raws(&p.randoms), raws(&p.zeros), raws(&p.errors)]
}

fn once(sc: &Sc, env: &mut Env, salt: u64, cfg: &Cfg) -> Res<Vec<Got>> {
    let par = sc.par;
    let circuit = sc.circ.load(env);
    let packed = circuit.clone().pack(par.l);
    let desc = PreProc::<{ mpc::W }>::describe(&packed, &par.ctx(0));
    let num_blocks = packed.inputs().len() + blocks(&packed).len();
    let w = env.world_salt(cfg, salt);
    let most = (par.n - par.t) as usize;
    let rows = if sc.rows == 0 { most } else { (sc.rows as usize).min(most) };
    let mat = Arc::new(super_inv_matrix::<{ mpc::W }>(par.nn(), rows));
    let bin = bin_array(&bin_matrix(&mut Rng::new(sc.bin), par.nn(), par.t as usize, 5));
    let late = sc.late.clone();
    let num = 1 + sc.twice as usize;
    let f = move |p: u32, net: scalable_mpc::protocol::network::Network| {
        let (circuit, late, mat, bin) = (circuit.clone(), late.clone(), mat.clone(), bin.clone());
        async move {
            let mut tasks = Vec::new();
            for i in 0..num {
                let ctx = par.ctx(p);
                let packed = circuit.clone().pack(par.l);
                let desc = PreProc::describe(&packed, &ctx);
                let (r, z, b) =
                    (RandContext::new(mat.clone(), &ctx), ZeroContext::new(mat.clone(), &ctx), RandBitContext::new(bin.clone(), &ctx));
                let net = net.clone();
                let d = late.get(p as usize * num + i).copied().unwrap_or(0);
                tasks.push(tokio::spawn(async move {
                    nap(d).await;
                    let m = preproc(vec![b'P', i as u8], desc, ctx.clone(), r, z, b, net.clone()).await;
                    let all = flat(&m);
                    let shape = m.keys.shape().to_vec();
                    // Too slow with very many parties.
                    if par.n <= 40 {
                        let gctx = Arc::new(GarbleContext::new(packed, ctx));
                        garble(vec![b'G', i as u8], m, gctx, net).await;
                    }
                    (all, shape)
                }));
            }
            let mut outs = Vec::new();
            for t in tasks {
                outs.push(t.await.unwrap());
            }
            (net, outs)
        }
    };
    let slots = mpc::start(&w, sc.tr, par.n, sc.early, f)?;
    w.run_clean()?;
    let outs = take_all(&slots, "preprocessing and garbling with it")?;
    let mut res = Vec::new();
    for i in 0..num {
        let mut got = Got::default();
        let want = [desc.masks, desc.keys.0 * desc.keys.1 * desc.keys.2, desc.randoms, desc.zeros, desc.errors];
        for (k, name) in ["masks", "keys", "randoms", "zeros", "errors"].iter().enumerate() {
            let have: Vec<usize> = outs.iter().map(|o| o.1[i].0[k].len()).collect();
            for (p, &h) in have.iter().enumerate() {
                ensure!(h >= want[k] && h == have[0], "count", "party {p} holds {h} {name}, party 0 {}, needed {}", have[0], want[k]);
            }
            let cols = (0..have[0]).map(|j| outs.iter().map(|o| o.1[i].0[k][j]).collect()).collect();
            match k {
                0 => got.masks = cols,
                1 => got.keys = cols,
                2 => got.randoms = cols,
                3 => got.zeros = cols,
                _ => got.errors = cols,
            }
        }
        for (p, o) in outs.iter().enumerate() {
            let s = &o.1[i].1;
            ensure!(*s == [2, par.k as usize, num_blocks], "shape", "party {p}: keys have shape {s:?}, {num_blocks} blocks");
        }
        res.push(got);
    }
    env.out.nontrivial |= w.sim.lock().polls_multi > 0;
    drop(outs);
    env.done(w);
    Ok(res)
}

type Place = (usize, u8, usize, usize);
/// Secrets that are equal although they sit at different places.  Zero errors are no coincidence.
fn coincidences(sc: &Sc, got: &[Got]) -> BTreeSet<(Place, Place)> {
    let low = sc.par.low();
    let mut by: BTreeMap<(u8, u64), Vec<Place>> = BTreeMap::new();
    for (i, g) in got.iter().enumerate() {
        for (kind, v) in [(1u8, &g.keys), (2, &g.randoms), (4, &g.errors)] {
            for (j, col) in v.iter().enumerate() {
                for (k, &x) in low.values(col).iter().enumerate() {
                    if x != 0 || kind != 4 {
                        by.entry((k as u8, x as u64)).or_default().push((i, kind, j, k));
                    }
                }
            }
        }
        // Masks and zeros have fixed or few secrets: their shares are what must not repeat.
        for (kind, v) in [(0u8, &g.masks), (3, &g.zeros)] {
            for (j, col) in v.iter().enumerate() {
                let h = col.iter().fold(kind as u64, |h, &x| simrt::rng::mix(h, x as u64));
                by.entry((200, h)).or_default().push((i, kind, j, 0));
            }
        }
    }
    let mut out = BTreeSet::new();
    for at in by.into_values() {
        for a in 0..at.len().min(20) {
            for b in a + 1..at.len().min(20) {
                out.insert((at[a], at[b]));
            }
        }
    }
    out
}

/// Preprocessing by more parties than one byte counts sub-protocols for.
pub fn crowd(rng: &mut Rng) -> Sc {
    let par = Par { k: 1, m: 2, ..Par::new((rng.range(126, 132) as u32, 1, 1)) };
    let mut circ = Circ::gen(rng, 1, false);
    circ.gates.truncate(1);
    circ.outputs = vec![1];
    let mut cfg = gen::timing(rng, par.n);
    cfg.yield_p = 0;
    Sc { cfg, par, tr: Transport::Links, circ, rows: 0, bin: rng.next() >> 20, late: Vec::new(), early: true, twice: false }
}

impl Prop for Material {
    type Sc = Sc;
    const ID: &'static str = "C11";
    const QUICK: u64 = 2500;
    const RULE: &'static str = "a case is (n, t, l), LPN lengths, a circuit, extraction matrices, one or two concurrent preprocessings each followed by garbling with its result, start delays and a world; it is non-trivial when the scheduler had a choice (every case has at least one gate)";
    const REAL: &'static str = "preproc, describe, rand, zero, randbit, mult, garble and everything below, with Local/Tcp the networks";
    const STUB: &'static str = "executor, clock, TCP sockets, entropy (one seeded stream per party), thread pool (sequential, order drawn); with transport Links the network";

    fn gen(rng: &mut Rng, k: u64) -> Sc {
        if k % 1250 == 1100 {
            return crowd(rng);
        }
        let big = k % 500 == 499;
        let par = if big { Par { k: 1, m: 2, ..Par::new((3, 1, 1)) } } else { super::garbling::small_params(rng) };
        let circ = Circ::gen(rng, par.l, big);
        let (cfg, tr) = super::core_protos::world(rng, par.n);
        let p = rng.pick(&[0, 100, 600]);
        let late = (0..par.n * 2).map(|_| if rng.p(p) { rng.log(US, 3 * SEC) } else { 0 }).collect();
        Sc {
            cfg,
            par,
            tr: if big { Transport::Links } else { tr },
            circ,
            rows: if rng.p(150) { rng.range(1, par.n as u64) as u32 } else { 0 },
            bin: rng.next() >> 20,
            late,
            early: rng.p(700),
            twice: !big && rng.p(200),
        }
    }

    fn fix(sc: &mut Sc) -> bool {
        let p = sc.par;
        sc.cfg.starve = sc.cfg.starve.min(p.n - 1);
        gen::valid_params(p.n, p.t, p.l) && p.n <= 140 && p.k >= 1 && p.k <= 8 && p.m > p.k && p.m <= 20 && sc.circ.fix()
    }

    fn run(sc: &Sc, env: &mut Env) -> Res {
        mpc::init_field();
        let par = sc.par;
        let (low, high) = (par.low(), par.high());
        let got = once(sc, env, 0, &sc.cfg)?;
        for (i, g) in got.iter().enumerate() {
            let (mut zero, mut all) = (0u64, 0u64);
            for (name, v, pss) in
                [("mask", &g.masks, &low), ("key", &g.keys, &low), ("random", &g.randoms, &low), ("zero", &g.zeros, &high), ("error", &g.errors, &low)]
            {
                for (j, col) in v.iter().enumerate() {
                    let Some(s) = pss.open(col) else {
                        fail!("degree", "preprocessing {i}: {name} {j} is on no polynomial of degree {}", pss.d)
                    };
                    match name {
                        "mask" => ensure!(s.iter().all(|&x| x < 2), "not-bits", "preprocessing {i}: mask {j} has secrets {s:?}"),
                        "zero" => ensure!(s.iter().all(|&x| x == 0), "not-zero", "preprocessing {i}: zero {j} has secrets {s:?}"),
                        "error" => {
                            all += s.len() as u64;
                            zero += s.iter().filter(|&&x| x == 0).count() as u64;
                        }
                        _ => {}
                    }
                    env.checked(1);
                }
                // Random sharings of a kind fill the whole space of such sharings.
                let dim = if name == "zero" { par.nn() - par.ll() } else { low.d + 1 };
                if v.len() >= dim + 64 {
                    let r = field::rank(v[..dim + 64].to_vec());
                    ensure!(r == dim, "low-entropy", "preprocessing {i}: {} of kind {name} span {r} of {dim} dimensions", dim + 64);
                }
            }
            let dev = (zero as f64 - 0.75 * all as f64).abs();
            ensure!(all < 64 || dev <= 8.0 * (all as f64 * 3.0 / 16.0).sqrt(), "error-rate", "preprocessing {i}: {zero} of {all} errors are zero");
        }
        let mut left = if par.n <= 40 { coincidences(sc, &got) } else { BTreeSet::new() };
        if !left.is_empty() {
            env.count("confirmation-runs", 6);
            let mut seen: BTreeMap<(Place, Place), u32> = BTreeMap::new();
            for salt in 1..7 {
                let again = coincidences(sc, &once(sc, env, salt, &sc.cfg)?);
                for x in &left {
                    if again.contains(x) {
                        *seen.entry(*x).or_insert(0) += 1;
                    }
                }
            }
            left.retain(|x| seen.get(x).is_some_and(|&k| k >= 2));
            if let Some((a, b)) = left.first() {
                fail!("used-twice", "(preprocessing, kind, item, position) {a:?} and {b:?} keep having the same value");
            }
        }
        env.out.sample = format!("{:?} {:?} gates={} twice={}", par, sc.tr, sc.circ.gates.len(), sc.twice);
        env.cover(&[par.n as u64, par.l as u64, par.k as u64, par.m as u64, sc.tr as u64, sc.circ.gates.len() as u64]);
        Ok(())
    }
}
