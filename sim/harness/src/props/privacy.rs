//! C13: what parties send is masked by fresh randomness.
//!
//! The same run is repeated, every decision alike, changing one source of randomness at a time.
//! Messages are affine in that source, so they are uniform over what they may be exactly when
//! the differences between the runs span all of it.

use crate::circ::{blocks, Circ, Dealt, Op, Secrets};
use crate::field::{self, PssCache};
use crate::gen;
use crate::mpc::{self, bin_array, bin_matrix, gf, gfs, raws, Par, Sent, Tamper, Tap, G, W};
use crate::prop::Prop;
use crate::props::core_protos::{arr, Move};
use crate::run::{take_all, Env, Res};
use crate::{ensure, fail};
use scalable_mpc::math::super_inv_matrix;
use scalable_mpc::protocol::core::{mult, randtrans, reduce_degree, trans, RandSharingTransform, SharingTransform};
use scalable_mpc::protocol::garble::{garble, GarbleContext};
use scalable_mpc::protocol::network::Network;
use scalable_mpc::protocol::preproc::{preproc, rand, randbit, zero, PreProc, RandBitContext, RandContext, ZeroContext};
use scalable_mpc::protocol::ProtocolID;
use serde::{Deserialize, Serialize};
use simrt::rng::{mix, Rng};
use simrt::Cfg;
use std::collections::BTreeMap;
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum What {
    Mult { sizes: Vec<u32>, reduce: bool, leader: Option<u32> },
    Trans { mv: Move, num: u32, leader: Option<u32> },
    RandTrans { mvs: Vec<Move>, reps: u32 },
    /// 0 random, 1 zero, 2 bit
    Gen { kind: u8, num: u32 },
    Preproc { circ: Circ },
    Garble { circ: Circ },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Sc {
    cfg: Cfg,
    par: Par,
    what: What,
    /// Picks what is looked at jointly.
    pick: u64,
    bin: u64,
}

pub struct Privacy;

type Fut<T> = Pin<Box<dyn Future<Output = T> + Send>>;
type Job<T> = Arc<dyn Fn(u32, Network) -> Fut<T> + Send + Sync>;

/// All messages of a run, decoded: (id, from, to) and the messages in order.
type Msgs = BTreeMap<(ProtocolID, u32, u32), Vec<Vec<u32>>>;

/// Bytes of a field element.
const BYTES: usize = (W as usize).div_ceil(8);

/// Field elements of a message, and in what form they are: with a length in front, or in so many bytes each.
fn decode(m: &[u8]) -> Option<(Vec<u32>, usize)> {
    if let Ok(v) = bincode::deserialize::<Vec<G>>(m) {
        if v.len() * BYTES + 8 == m.len() {
            return Some((raws(&v), 0));
        }
    }
    [BYTES, 4].into_iter().filter(|k| m.len() % k == 0).find_map(|k| {
        let v: Vec<u32> = m.chunks(k).map(|c| c.iter().rev().fold(0, |a, &b| a << 8 | b as u32)).collect();
        v.iter().all(|x| x >> W == 0).then_some((v, k))
    })
}

fn encode(v: &[u32], form: usize) -> Vec<u8> {
    match form {
        0 => bincode::serialize(&gfs(v)).unwrap(),
        k => v.iter().flat_map(|x| x.to_le_bytes().into_iter().take(k)).collect(),
    }
}

/// Runs the job at all parties, every decision as in the first such run.
fn observe<T: Send + 'static>(sc: &Sc, env: &mut Env, salt: u64, job: Job<T>, tamper: Option<Tamper>) -> Res<(Msgs, Vec<T>)> {
    let w = env.world_as(&sc.cfg, salt, 0);
    let tap: Tap = Arc::new(Mutex::new(Vec::new()));
    let slots: Vec<_> = mpc::links(&w, sc.par.n, Some(tap.clone()), tamper)
        .into_iter()
        .enumerate()
        .map(|(p, net)| w.party(p as u32, job(p as u32, net)))
        .collect();
    w.run_clean()?;
    let outs = take_all(&slots, "protocol")?;
    let mut msgs = Msgs::new();
    for s in std::mem::take(&mut *tap.lock().unwrap()) {
        match decode(&s.data) {
            Some((v, _)) => msgs.entry((s.id, s.from, s.to)).or_default().push(v),
            None => env.count("undecodable-messages", 1),
        }
    }
    env.count("messages-inspected", msgs.len() as u64);
    env.out.nontrivial |= w.sim.lock().polls_multi > 0;
    env.done(w);
    Ok((msgs, outs))
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum Class {
    /// Shares sent to a leader.
    Opening,
    /// Shares a leader sends back.
    Resharing,
    /// Everybody to everybody, seen by receiver.
    ToOne,
    /// Everybody to everybody, seen by sender.
    FromOne,
    /// Not a message: something the protocol hands out.
    Output,
}

/// One shared value of the run: which, and its n shares.
type Element = ((Class, ProtocolID, u32, usize), Vec<u32>);

fn group(n: u32, msgs: &Msgs) -> Vec<Element> {
    let mut ids: Vec<&ProtocolID> = msgs.keys().map(|k| &k.0).collect();
    ids.dedup();
    let mut out = Vec::new();
    for id in ids {
        let get = |a: u32, b: u32| msgs.get(&(id.clone(), a, b));
        let num = |a: u32, b: u32| get(a, b).map_or(0, |v| v.len());
        let mut add = |class: Class, who: u32, vs: Vec<&Vec<u32>>| {
            let len = vs[0].len();
            if vs.iter().all(|v| v.len() == len) {
                for e in 0..len {
                    out.push(((class, id.clone(), who, e), vs.iter().map(|v| v[e]).collect()));
                }
            }
        };
        // A party need not send its own share to itself.
        if (0..n).all(|a| (0..n).all(|b| num(a, b) == 1 || a == b && num(a, a) == 0)) {
            for q in 0..n {
                add(Class::ToOne, q, (0..n).filter_map(|p| get(p, q)?.first()).collect());
                add(Class::FromOne, q, (0..n).filter_map(|p| get(q, p)?.first()).collect());
            }
        } else if let Some(l) = (0..n).find(|&l| num(l, l) <= 2 && (0..n).all(|p| p == l || num(p, l) == 1 && num(l, p) == 1)) {
            let own = num(l, l) == 2;
            let there: Vec<u32> = (0..n).filter(|&p| p != l || own).collect();
            add(Class::Opening, l, there.iter().map(|&p| &get(p, l).unwrap()[0]).collect());
            add(Class::Resharing, l, there.iter().map(|&p| get(l, p).unwrap().last().unwrap()).collect());
        }
    }
    out
}

/// The number of values looked at is as expected, unless the protocol talks in a way not understood here.
fn counted(env: &mut Env, have: usize, want: usize) -> Res {
    if have == 0 && want > 0 {
        env.count("messages-not-recognised", 1);
        return Ok(());
    }
    ensure!(have == want, "shape", "{have} values opened instead of {want}");
    Ok(())
}

/// Differences of runs against the first one, per element.
struct Diffs(BTreeMap<(Class, ProtocolID, u32, usize), Vec<Vec<u32>>>);

impl Diffs {
    fn of(runs: Vec<Vec<Element>>) -> Res<Diffs> {
        let base: BTreeMap<_, _> = runs[0].iter().cloned().collect();
        let mut d: BTreeMap<_, Vec<Vec<u32>>> = base.keys().map(|k| (k.clone(), Vec::new())).collect();
        for r in &runs[1..] {
            ensure!(r.len() == base.len(), "shape", "what parties send to whom depends on random values");
            for (k, v) in r {
                let Some(b) = base.get(k) else { fail!("shape", "what parties send to whom depends on random values") };
                d.get_mut(k).unwrap().push(v.iter().zip(b).map(|(x, y)| x ^ y).collect());
            }
        }
        Ok(Diffs(d))
    }

    fn rank(&self, k: &(Class, ProtocolID, u32, usize)) -> usize {
        field::rank(self.0[k].clone())
    }

    /// How many shares of the element were seen.
    fn width(&self, k: &(Class, ProtocolID, u32, usize)) -> usize {
        self.0[k].first().map_or(0, |v| v.len())
    }

    fn joint(&self, keys: &[&(Class, ProtocolID, u32, usize)]) -> usize {
        let runs = self.0[keys[0]].len();
        field::rank((0..runs).map(|r| keys.iter().flat_map(|k| self.0[*k][r].iter().cloned()).collect()).collect())
    }
}

/// A choice of elements whose ranks add up to at most `most`: neighbours or any.
fn choose<'a, T>(all: &[(&'a T, usize)], most: usize, seed: u64) -> Vec<(&'a T, usize)> {
    let mut rng = Rng::new(seed);
    let mut v = all.to_vec();
    if rng.p(400) {
        for i in (1..v.len()).rev() {
            v.swap(i, rng.below(i as u64 + 1) as usize);
        }
    } else if !v.is_empty() {
        let at = rng.below(v.len() as u64) as usize;
        v.rotate_left(at);
    }
    let mut sum = 0;
    v.into_iter()
        .take_while(|x| {
            sum += x.1;
            sum <= most
        })
        .collect()
}

/// Every element of the class must have the rank `want` allows, and together they must be independent.
fn judge(env: &mut Env, d: &Diffs, class: Class, most: usize, seed: u64, what: &str, want: impl Fn(&(Class, ProtocolID, u32, usize), usize) -> bool) -> Res<Vec<usize>> {
    let mut ranks = Vec::new();
    let mut all = Vec::new();
    for k in d.0.keys().filter(|k| k.0 == class) {
        let r = d.rank(k);
        ensure!(want(k, r), "not-masked", "{what}: {class:?} element {} of id {:?} (party {}) spans {r} dimensions", k.3, k.1, k.2);
        ranks.push(r);
        if r > 0 {
            all.push((k, r));
        }
        env.checked(1);
    }
    if class != Class::Output {
        // Runs in which the same element comes out the same: chance allows one now and then.
        for (k, _) in &all {
            let mut vs = d.0[*k].clone();
            vs.push(vec![0; vs[0].len()]);
            vs.sort();
            let num = vs.len();
            let same: usize = vs.chunk_by(|a, b| a == b).map(|c| c.len() * (c.len() - 1) / 2).sum();
            ensure!(
                same < 4,
                "few-values",
                "{what}: {class:?} element {} of id {:?} (party {}) takes only {} values in {num} runs",
                k.3,
                k.1,
                k.2,
                vs.chunk_by(|a, b| a == b).count()
            );
            env.count("pairs-of-runs-differing", (num * (num - 1) / 2 - same) as u64);
        }
        // Each single share must be able to take every value, not only those of a part of the field.
        let mut seen: BTreeMap<usize, (usize, Vec<u32>)> = BTreeMap::new();
        for v in all.iter().flat_map(|(k, _)| &d.0[*k]) {
            for (j, &x) in v.iter().enumerate().filter(|x| *x.1 != 0) {
                let e = seen.entry(j).or_default();
                e.0 += 1;
                let left = e.1.iter().fold(x, |x, b| x.min(x ^ b));
                if left != 0 {
                    e.1.push(left);
                }
            }
        }
        for (j, (num, basis)) in seen {
            ensure!(
                num < 128 || basis.len() == mpc::W as usize,
                "part-of-field",
                "{what}: {num} differing shares at place {j} of class {class:?} differ in only {} independent bits",
                basis.len()
            );
            env.count("places-spanning-the-field", (num >= 128) as u64);
        }
    }
    let c = choose(&all, most, seed);
    if !c.is_empty() {
        let keys: Vec<_> = c.iter().map(|x| x.0).collect();
        let sum: usize = c.iter().map(|x| x.1).sum();
        let r = d.joint(&keys);
        ensure!(
            r == sum,
            "shared-mask",
            "{what}: {} values of class {class:?} (first: element {} of id {:?}) span {r} dimensions together, {sum} one by one",
            c.len(),
            c[0].0 .3,
            c[0].0 .1
        );
        env.count("values-looked-at-jointly", c.len() as u64);
    }
    Ok(ranks)
}

const MOST: usize = 36;

/// `num` runs plus the base run; `job(i)` is the i-th variant (0 is the base).
fn runs<T: Send + 'static>(
    sc: &Sc,
    env: &mut Env,
    num: usize,
    salt: impl Fn(usize) -> u64,
    mut job: impl FnMut(usize) -> (Job<T>, Option<Tamper>),
    outputs: impl Fn(&[T]) -> Vec<Element>,
) -> Res<Diffs> {
    let mut v = Vec::new();
    for i in 0..=num {
        let (j, t) = job(i);
        let (m, outs) = observe(sc, env, salt(i), j, t)?;
        let mut e = group(sc.par.n, &m);
        e.extend(outputs(&outs));
        v.push(e);
    }
    Diffs::of(v)
}

fn share_all(items: &[Vec<u32>], p: u32) -> Vec<u32> {
    items.iter().map(|s| s[p as usize]).collect()
}

fn run_mult(sc: &Sc, env: &mut Env, sizes: &[u32], reduce: bool, leader: Option<u32>) -> Res {
    let par = sc.par;
    let (low, high, l) = (par.low(), par.high(), par.ll());
    let mut rng = env.rng.clone();
    let total: usize = sizes.iter().map(|&x| x as usize).sum();
    let deal = |p: &field::Pss, rng: &mut Rng| -> Vec<Vec<u32>> {
        (0..total)
            .map(|_| {
                let s = field::rands(rng, l);
                p.share(&s, rng)
            })
            .collect()
    };
    let zeros = |rng: &mut Rng| -> Vec<Vec<u32>> { (0..total).map(|_| high.share(&vec![0; l], rng)).collect() };
    let x = Arc::new(deal(if reduce { &high } else { &low }, &mut rng));
    let y = Arc::new(deal(&low, &mut rng));
    let (r0, z0) = (deal(&low, &mut rng), zeros(&mut rng));
    let sizes = Arc::new(sizes.to_vec());
    let job = |r: Vec<Vec<u32>>, z: Vec<Vec<u32>>| -> Job<()> {
        let (x, y, r, z, sizes) = (x.clone(), y.clone(), Arc::new(r), Arc::new(z), sizes.clone());
        Arc::new(move |p, net| {
            let v = [&x, &y, &r, &z].map(|v| share_all(v, p));
            let sizes = sizes.clone();
            Box::pin(async move {
                let ctx = par.ctx(p);
                let mut at = 0;
                let mut tasks = Vec::new();
                for (i, &k) in sizes.iter().enumerate() {
                    let [x, y, r, z] = [0, 1, 2, 3].map(|j| arr(&v[j][at..at + k as usize]));
                    at += k as usize;
                    let (ctx, net, id, leader) = (ctx.clone(), net.clone(), vec![b'm', i as u8], leader.map(|x| x as u16));
                    tasks.push(tokio::spawn(async move {
                        if reduce {
                            reduce_degree(id, x, r, z, leader, ctx, net).await;
                        } else {
                            mult(id, x, y, r, z, leader, ctx, net).await;
                        }
                    }));
                }
                for t in tasks {
                    t.await.unwrap();
                }
            })
        })
    };
    let none = |_: &[()]| Vec::new();
    let (n, t) = (par.nn(), par.t as usize);
    let d = runs(sc, env, MOST + n + 3, |_| 0, |i| (job(r0.clone(), if i == 0 { z0.clone() } else { zeros(&mut rng) }), None), none)?;
    judge(env, &d, Class::Opening, MOST, sc.pick, "fresh zero sharings", |_, r| r == n - l)?;
    let d = runs(sc, env, MOST + n + 3, |_| 0, |i| (job(if i == 0 { r0.clone() } else { deal(&low, &mut rng) }, z0.clone()), None), none)?;
    let k = judge(env, &d, Class::Resharing, MOST, sc.pick, "fresh random sharings", |_, r| r == l)?;
    counted(env, k.len(), total)?;
    let d = runs(sc, env, MOST + n + 3, |i| i as u64, |_| (job(r0.clone(), z0.clone()), None), none)?;
    judge(env, &d, Class::Resharing, MOST, sc.pick, "fresh entropy", |_, r| r == t)?;
    Ok(())
}

fn run_trans(sc: &Sc, env: &mut Env, mv: &Move, num: usize, leader: Option<u32>) -> Res {
    let par = sc.par;
    let n = par.nn();
    let mut rng = env.rng.clone();
    let mut cache = PssCache::default();
    let x: Vec<Vec<u32>> = (0..num)
        .map(|_| {
            let s = field::rands(&mut rng, mv.old.len());
            cache.get(n, n - 1, &mv.old).share(&s, &mut rng)
        })
        .collect();
    let x = Arc::new(x);
    let mut pairs = |rng: &mut Rng| -> (Vec<Vec<u32>>, Vec<Vec<u32>>) {
        (0..num)
            .map(|_| {
                let v = field::rands(rng, mv.old.len());
                (cache.get(n, par.d(), &mv.new).share(&mv.apply(&v), rng), cache.get(n, n - 1, &mv.old).share(&v, rng))
            })
            .unzip()
    };
    let base = pairs(&mut rng);
    let job = |(r, rn): (Vec<Vec<u32>>, Vec<Vec<u32>>)| -> Job<()> {
        let (x, r, rn, mv) = (x.clone(), Arc::new(r), Arc::new(rn), mv.clone());
        Arc::new(move |p, net| {
            let v = [&x, &r, &rn].map(|v| arr(&share_all(v, p)));
            let mv = mv.clone();
            Box::pin(async move {
                let [x, r, rn] = v;
                let tf = SharingTransform::new(gfs(&mv.old), gfs(&mv.new), mv.comb());
                trans(vec![b't'], x, r, rn, tf, leader.map(|x| x as u16), par.ctx(p), net).await;
            })
        })
    };
    let none = |_: &[()]| Vec::new();
    let d = runs(sc, env, MOST + n + 3, |_| 0, |i| (job(if i == 0 { base.clone() } else { pairs(&mut rng) }), None), none)?;
    judge(env, &d, Class::Opening, MOST, sc.pick, "fresh pairs", |k, r| r == d.width(k))?;
    let mut used = mv.map.clone();
    used.sort();
    used.dedup();
    let k = judge(env, &d, Class::Resharing, MOST, sc.pick, "fresh pairs", |_, r| r == used.len())?;
    counted(env, k.len(), num)?;
    let d = runs(sc, env, MOST + n + 3, |i| i as u64, |_| (job(base.clone()), None), none)?;
    let free = par.t as usize + par.ll() - mv.new.len();
    judge(env, &d, Class::Resharing, MOST, sc.pick, "fresh entropy", |_, r| r == free)?;
    Ok(())
}

fn run_randtrans(sc: &Sc, env: &mut Env, mvs: &[Move], reps: usize) -> Res {
    let par = sc.par;
    let (n, l, t) = (par.nn(), par.ll(), par.t as usize);
    let (low, high) = (par.low(), par.high());
    let mut rng = env.rng.clone();
    let one = |rng: &mut Rng| {
        let s = field::rands(rng, l);
        low.share(&s, rng)
    };
    let r0: Vec<Vec<u32>> = (0..reps * (n + t)).map(|_| one(&mut rng)).collect();
    let zeros = |rng: &mut Rng| -> Vec<Vec<u32>> { (0..2 * n * reps).map(|_| high.share(&vec![0; l], rng)).collect() };
    let z0 = zeros(&mut rng);
    let mvs = Arc::new(mvs.to_vec());
    let job = |r: Vec<Vec<u32>>, z: Vec<Vec<u32>>| -> Job<()> {
        let (r, z, mvs) = (Arc::new(r), Arc::new(z), mvs.clone());
        Arc::new(move |p, net| {
            let v = [&r, &z].map(|v| share_all(v, p).into_iter().map(gf).collect());
            let mvs = mvs.clone();
            Box::pin(async move {
                let [r, z] = v;
                let ctx = par.ctx(p);
                let old: Vec<_> = mvs.iter().map(|m| gfs(&m.old)).collect();
                let new: Vec<_> = mvs.iter().map(|m| gfs(&m.new)).collect();
                let f: Vec<_> = mvs.iter().map(|m| m.comb()).collect();
                let tf = RandSharingTransform::new(&old, &new, &f, &ctx);
                randtrans(vec![b'r'], r, z, tf, ctx, net).await;
            })
        })
    };
    let none = |_: &[()]| Vec::new();
    let d = runs(sc, env, MOST + n + 3, |_| 0, |i| (job(r0.clone(), if i == 0 { z0.clone() } else { zeros(&mut rng) }), None), none)?;
    let k = judge(env, &d, Class::ToOne, MOST, sc.pick, "fresh zero sharings", |_, r| r == n - l)?;
    counted(env, k.len(), 2 * n * reps)?;
    if k.is_empty() || d.0.keys().any(|k| d.width(k) < n) {
        return Ok(());
    }

    // What t parties receive must be spread as far with the values at the old positions fixed as
    // with them random too.
    let mut who: Vec<u32> = (0..par.n).collect();
    let mut pick = Rng::new(sc.pick);
    for i in (1..n).rev() {
        who.swap(i, pick.below(i as u64 + 1) as usize);
    }
    let bad = &who[..t];
    let dim = 2 * t * mvs.len() * reps;
    let mut ranks = [0, 0];
    for (all, rank) in ranks.iter_mut().enumerate() {
        let mut rows = Vec::new();
        let mut base: Option<Vec<u32>> = None;
        for i in 0..dim + 4 {
            let mut r = r0.clone();
            if i > 0 {
                for (j, x) in r.iter_mut().enumerate() {
                    let was = low.values(x);
                    let mut now = field::rands(&mut rng, l);
                    if all == 0 && j < l * reps {
                        for (b, m) in mvs.iter().enumerate() {
                            if j / reps < m.old.len() {
                                now[b] = was[b];
                            }
                        }
                    }
                    *x = low.share(&now, &mut rng);
                }
            }
            let (m, _) = observe(sc, env, 0, job(r, z0.clone()), None)?;
            let mut seen = Vec::new();
            for (k, v) in group(par.n, &m) {
                if k.0 == Class::ToOne && bad.contains(&k.2) {
                    seen.extend(&high.values(&v)[..mvs.len()]);
                }
            }
            match &base {
                None => base = Some(seen),
                Some(b) => rows.push(seen.iter().zip(b).map(|(x, y)| x ^ y).collect()),
            }
        }
        *rank = field::rank(rows);
    }
    ensure!(
        ranks[0] == ranks[1],
        "leak",
        "the shares parties {bad:?} receive span {} dimensions, {} with the shared values fixed",
        ranks[1],
        ranks[0]
    );
    let least = t * mvs.len() * reps;
    ensure!(ranks[1] >= least, "leak", "the shares parties {bad:?} receive span {} dimensions only, not {least}", ranks[1]);
    env.checked(1);
    Ok(())
}

fn run_gen(sc: &Sc, env: &mut Env, kind: u8, num: usize) -> Res {
    let par = sc.par;
    let n = par.nn();
    let mat = Arc::new(super_inv_matrix::<W>(n, n - par.t as usize));
    let bin = bin_array(&bin_matrix(&mut Rng::new(sc.bin), n, par.t as usize, 5));
    let job: Job<()> = Arc::new(move |p, net| {
        let (mat, bin) = (mat.clone(), bin.clone());
        Box::pin(async move {
            let ctx = par.ctx(p);
            match kind {
                0 => rand(vec![b'g'], num, RandContext::new(mat, &ctx), net).await,
                1 => zero(vec![b'g'], num, ZeroContext::new(mat, &ctx), net).await,
                _ => randbit(vec![b'g'], num, RandBitContext::new(bin, &ctx), net).await,
            };
        })
    });
    let more = if kind == 2 { 70 } else { 3 };
    let d = runs(sc, env, MOST + n + more, |i| i as u64, |_| (job.clone(), None), |_| Vec::new())?;
    let want = if kind == 1 { n - par.ll() } else { par.d() + 1 };
    let k = judge(env, &d, Class::FromOne, MOST, sc.pick, "fresh entropy", |_, r| r == want)?;
    counted(env, k.len().min(n), n)?;
    Ok(())
}

/// Ids of the generation sub-protocols: zero sharings, then bit sharings, then random ones.
fn kinds(par: &Par, e: &[Element]) -> [Option<ProtocolID>; 3] {
    let mut by: BTreeMap<&ProtocolID, (bool, bool)> = BTreeMap::new();
    let high = par.high();
    for (k, v) in e.iter().filter(|x| x.0 .0 == Class::FromOne && x.1.len() == par.nn()) {
        let s = high.values(v);
        let f = by.entry(&k.1).or_insert((true, true));
        f.0 &= s.iter().all(|&x| x == 0);
        f.1 &= s.iter().all(|&x| x < 2);
    }
    let find = |w: (bool, bool)| by.iter().find(|x| *x.1 == w).map(|x| (*x.0).clone());
    [find((true, true)), find((false, true)), find((false, false))]
}

fn run_preproc(sc: &Sc, env: &mut Env, circ: &Circ) -> Res {
    let par = sc.par;
    let (n, l) = (par.nn(), par.ll());
    let packed = circ.load(env).pack(par.l);
    let desc = PreProc::<W>::describe(&packed, &par.ctx(0));
    let mat = Arc::new(super_inv_matrix::<W>(n, n - par.t as usize));
    let bin = bin_array(&bin_matrix(&mut Rng::new(sc.bin), n, par.t as usize, 5));
    type Out = [Vec<u32>; 3];
    let job: Job<Out> = Arc::new(move |p, net| {
        let (mat, bin) = (mat.clone(), bin.clone());
        Box::pin(async move {
            let ctx = par.ctx(p);
            let (r, z, b) = (RandContext::new(mat.clone(), &ctx), ZeroContext::new(mat, &ctx), RandBitContext::new(bin, &ctx));
            let m = preproc(vec![b'P'], desc, ctx, r, z, b, net).await;
            [raws(&m.keys), raws(&m.randoms), raws(&m.zeros)]
        })
    });
    let outputs = |low: bool| {
        let pss = par.low();
        move |outs: &[Out]| -> Vec<Element> {
            let pick: &[usize] = if low { &[0, 1] } else { &[2] };
            let mut v = Vec::new();
            for &j in pick {
                for i in 0..outs[0][j].len() {
                    let col: Vec<u32> = outs.iter().map(|o| o[j][i]).collect();
                    // A random sharing counts by its secrets.
                    v.push(((Class::Output, vec![j as u8], 0, i), if low { pss.values(&col) } else { col }));
                }
            }
            v
        }
    };
    let (m, _) = observe(sc, env, 0, job.clone(), None)?;
    let [zid, bid, rid] = kinds(&par, &group(par.n, &m));
    let (Some(zid), Some(bid), Some(rid)) = (zid, bid, rid) else {
        env.count("preprocessing-not-recognised", 1);
        return Ok(());
    };

    let _ = bid;
    // More runs than elsewhere, as bits vary little.
    let d = runs(sc, env, MOST + n + 40, |i| i as u64, |_| (job.clone(), None), |_| Vec::new())?;
    let low_rank = |k: &(Class, ProtocolID, u32, usize), r: usize| if k.1 == zid { r == n - l } else { r >= par.t as usize };
    judge(env, &d, Class::FromOne, MOST - 6, sc.pick, "fresh entropy", low_rank)?;
    judge(env, &d, Class::Resharing, MOST - 6, sc.pick, "fresh entropy", |_, r| r >= par.t as usize)?;

    // Other contributions to the zero sharings, all else alike.
    let change = |id: ProtocolID, zero: bool, seed: u64| -> Option<Tamper> {
        let pss = if zero { par.high() } else { par.low() };
        Some(Arc::new(move |s: &mut Sent| {
            if s.id != id {
                return;
            }
            let Some((mut v, form)) = decode(&s.data) else { return };
            for (i, x) in v.iter_mut().enumerate() {
                let mut rng = Rng::new(mix(mix(seed, s.from as u64), i as u64));
                let secrets = if zero { vec![0; l] } else { field::rands(&mut rng, l) };
                *x ^= pss.share(&secrets, &mut rng)[s.to as usize];
            }
            s.data = encode(&v, form);
        }))
    };
    let errors = desc.errors * 2;
    let d = runs(sc, env, MOST + n + 3, |_| 0, |i| (job.clone(), if i == 0 { None } else { change(zid.clone(), true, i as u64) }), outputs(false))?;
    let k = judge(env, &d, Class::Opening, MOST, sc.pick, "fresh zero sharings", |_, r| r == n - l)?;
    counted(env, k.len(), errors)?;
    together(env, &d, &[Class::Opening, Class::Output], sc.pick, "fresh zero sharings")?;
    let d = runs(sc, env, MOST + n + 3, |_| 0, |i| (job.clone(), if i == 0 { None } else { change(rid.clone(), false, i as u64) }), outputs(true))?;
    judge(env, &d, Class::Resharing, MOST, sc.pick, "fresh random sharings", |_, r| r == l)?;
    together(env, &d, &[Class::Resharing, Class::Output], sc.pick, "fresh random sharings")?;
    Ok(())
}

/// Values of several classes, half from each, must be independent.
fn together(env: &mut Env, d: &Diffs, classes: &[Class], seed: u64, what: &str) -> Res {
    let mut keys = Vec::new();
    let mut sum = 0;
    for (i, c) in classes.iter().enumerate() {
        let all: Vec<_> = d.0.keys().filter(|k| k.0 == *c).map(|k| (k, d.rank(k))).filter(|x| x.1 > 0).collect();
        for (k, r) in choose(&all, MOST / classes.len(), mix(seed, i as u64)) {
            keys.push(k);
            sum += r;
        }
    }
    if !keys.is_empty() {
        let r = d.joint(&keys);
        ensure!(
            r == sum,
            "shared-mask",
            "{what}: {} values opened and handed out span {r} dimensions together, {sum} one by one",
            keys.len()
        );
    }
    env.checked(1);
    Ok(())
}

fn run_garble(sc: &Sc, env: &mut Env, circ: &Circ) -> Res {
    let par = sc.par;
    let (n, l) = (par.nn(), par.ll());
    let circuit = circ.load(env);
    let packed = circuit.clone().pack(par.l);
    let desc = PreProc::<W>::describe(&packed, &par.ctx(0));
    let mut rng = env.rng.clone();
    let secrets = Secrets::gen(&par, &desc, true, &mut rng);
    let base = secrets.deal(&par, desc, &mut rng);
    let job = |d: &Dealt| -> Job<()> {
        let mats: Arc<Vec<PreProc<W>>> = Arc::new((0..par.n).map(|p| d.of(p)).collect());
        let circuit = circuit.clone();
        Arc::new(move |p, net| {
            let (m, c) = (mats[p as usize].clone(), circuit.clone());
            Box::pin(async move {
                let ctx = Arc::new(GarbleContext::new(c.pack(par.l), par.ctx(p)));
                garble(vec![b'G'], m, ctx, net).await;
            })
        })
    };
    let none = |_: &[()]| Vec::new();
    // What garbling this circuit opens.
    let bl = blocks(&packed);
    let k = par.k as usize;
    let reps = 2 * k + 1;
    let mults: usize = bl
        .iter()
        .map(|b| match b.op {
            Op::And => 3 * (k + 1) + 1,
            _ => k + 1,
        })
        .sum();
    let uniq = |v: &Vec<u32>| {
        let mut v = v.clone();
        v.sort();
        v.dedup();
        v.len()
    };
    let moved: usize = packed.inputs().iter().map(|x| x.len()).sum::<usize>()
        + bl.iter().map(|b| b.out.len() + uniq(&b.a) + if b.op == Op::Inv { 0 } else { uniq(&b.b) }).sum::<usize>();

    let d = runs(
        sc,
        env,
        MOST + n + 3,
        |_| 0,
        |i| {
            let mut m = secrets_copy(&base);
            if i > 0 {
                m.fresh_zeros(&par, &mut rng);
            }
            (job(&m), None)
        },
        none,
    )?;
    let z = judge(env, &d, Class::Opening, MOST, sc.pick, "fresh zero sharings", |_, r| r == n - l || r == 0)?;
    if z.is_empty() {
        return counted(env, 0, mults);
    }
    let masked = z.iter().filter(|&&r| r > 0).count();
    ensure!(masked == mults, "not-masked", "{masked} of {mults} products are opened under a zero sharing");
    judge(env, &d, Class::ToOne, MOST, sc.pick, "fresh zero sharings", |_, r| r == n - l)?;
    together(env, &d, &[Class::Opening, Class::ToOne], sc.pick, "fresh zero sharings")?;
    let unmasked: Vec<bool> = z.iter().map(|&r| r == 0).collect();

    let d = runs(
        sc,
        env,
        MOST + n + 3,
        |_| 0,
        |i| {
            let mut m = secrets_copy(&base);
            if i > 0 {
                m.fresh_randoms(&par, &mut rng);
            }
            (job(&m), None)
        },
        none,
    )?;
    let u = judge(env, &d, Class::Resharing, MOST, sc.pick, "fresh random sharings", |_, r| r >= 1 && r <= l)?;
    let sum: usize = u.iter().sum();
    let want = mults * l + moved * reps;
    ensure!(sum == want, "not-masked", "{sum} of {want} secret symbols are opened under a random mask");
    // Openings of transformations are masked by the random pairs alone.
    let mut all = Vec::new();
    for (k, un) in d.0.keys().filter(|k| k.0 == Class::Opening).zip(&unmasked) {
        if *un {
            let (r, n) = (d.rank(k), d.width(k));
            ensure!(r == n, "not-masked", "transformation of id {:?} element {} spans {r} dimensions instead of {n}", k.1, k.3);
            all.push((k, r));
        }
    }
    let c = choose(&all, MOST, sc.pick);
    if !c.is_empty() {
        let keys: Vec<_> = c.iter().map(|x| x.0).collect();
        let (r, sum) = (d.joint(&keys), c.iter().map(|x| x.1).sum::<usize>());
        ensure!(r == sum, "shared-mask", "{} transformations span {r} dimensions together instead of {sum}", c.len());
    }

    // Unused positions of incomplete blocks carry a leader's random values on to what is opened
    // later, so only values of full blocks are looked at jointly.
    let mut d = runs(sc, env, MOST + n + 3, |i| i as u64, |_| (job(&base), None), none)?;
    let t = par.t as usize;
    let mut extra = Vec::new();
    for k in d.0.keys().filter(|k| k.0 == Class::Resharing) {
        let r = d.rank(k);
        ensure!(r >= t, "not-masked", "fresh entropy: resharing {} of id {:?} spans {r} dimensions", k.3, k.1);
        if r > t {
            extra.push(k.clone());
        }
    }
    extra.iter().for_each(|k| {
        d.0.remove(k);
    });
    judge(env, &d, Class::Resharing, MOST, sc.pick, "fresh entropy", |_, r| r == t)?;
    Ok(())
}

fn secrets_copy(d: &Dealt) -> Dealt {
    Dealt {
        masks: d.masks.clone(),
        keys: d.keys.clone(),
        randoms: d.randoms.clone(),
        zeros: d.zeros.clone(),
        errors: d.errors.clone(),
        counts: d.counts,
    }
}

/// Garbling never drops values in a transformation, and then randomness would be short.
fn grow(mut m: Move) -> Move {
    m.old.truncate(m.new.len());
    let k = m.old.len() as u32;
    m.map.iter_mut().for_each(|x| *x %= k);
    m
}

impl Prop for Privacy {
    type Sc = Sc;
    const ID: &'static str = "C13";
    const QUICK: u64 = 3000;
    const RULE: &'static str = "a case is a protocol (multiplication, transformation, pair generation, sharing generation, preprocessing, garbling) with sizes and parameters and a world; it is run some forty times per source of randomness with all decisions alike and only that source changed, and the ranks of the changes in all messages are compared with those of fresh masks; it is non-trivial when the scheduler had a choice";
    const REAL: &'static str = "mult, reduce_degree, trans, randtrans, rand, zero, randbit, preproc, garble and everything below except the network";
    const STUB: &'static str = "executor, clock, network (message links with a tap), entropy (one seeded stream per party), thread pool (sequential, order drawn); material dealt by the harness where the protocol takes it as input";

    fn gen(rng: &mut Rng, k: u64) -> Sc {
        let leader = |rng: &mut Rng, n: u32| if rng.p(512) { None } else { Some(rng.below(n as u64) as u32) };
        let kind = if k % 12 == 0 {
            5
        } else if k % 12 == 6 {
            4
        } else {
            rng.below(4)
        };
        let mut par = if kind >= 4 {
            let mut p = Par::new(rng.pick(&[(3, 1, 1), (4, 1, 1), (5, 1, 2), (5, 2, 1)]));
            p.k = 1;
            p.m = 2;
            p
        } else {
            Par::new(gen::params(rng))
        };
        if kind == 5 && rng.p(200) {
            par.k = 2;
            par.m = 3;
        }
        let big = kind < 4 && rng.p(120);
        if big {
            par = Par::new(rng.pick(&[(3, 1, 1), (4, 1, 1), (5, 1, 2), (5, 2, 1), (7, 2, 2)]));
        }
        let size = |rng: &mut Rng, few: u64| if big { rng.log(few, 99) as u32 } else { rng.range(1, few) as u32 };
        let what = match kind {
            0 => What::Mult {
                sizes: (0..rng.range(1, 3)).map(|_| size(rng, 4)).collect(),
                reduce: rng.p(300),
                leader: leader(rng, par.n),
            },
            1 => What::Trans { mv: Move::gen(rng, &par), num: size(rng, 5), leader: leader(rng, par.n) },
            2 => What::RandTrans {
                mvs: (0..rng.range(1, par.l as u64)).map(|_| grow(Move::gen(rng, &par))).collect(),
                reps: if big { rng.range(3, 12) as u32 } else { rng.range(1, 3) as u32 },
            },
            3 => What::Gen { kind: rng.below(3) as u8, num: size(rng, 9) },
            _ => {
                let mut circ = Circ::gen(rng, par.l, false);
                circ.gates.truncate(4);
                circ.inputs = vec![2];
                circ.outputs = vec![1];
                if kind == 4 {
                    What::Preproc { circ }
                } else {
                    What::Garble { circ }
                }
            }
        };
        let mut cfg = gen::timing(rng, par.n);
        // Random numbers must be drawn in the same order in all runs.
        cfg.step_ns = cfg.step_ns.min(1000);
        Sc { cfg, par, what, pick: rng.next() >> 20, bin: rng.next() >> 20 }
    }

    fn fix(sc: &mut Sc) -> bool {
        let p = sc.par;
        sc.cfg.starve = sc.cfg.starve.min(p.n - 1);
        if !gen::valid_params(p.n, p.t, p.l) || p.n > 16 || p.k == 0 || p.k > 3 || p.m <= p.k || p.m > 6 {
            return false;
        }
        match &mut sc.what {
            What::Mult { sizes, leader, .. } => {
                sizes.retain(|&x| x > 0 && x < 100);
                *leader = leader.map(|x| x % p.n);
                !sizes.is_empty()
            }
            What::Trans { mv, num, leader } => {
                *leader = leader.map(|x| x % p.n);
                *num > 0 && *num < 100 && mv.fix(&p)
            }
            What::RandTrans { mvs, reps } => {
                mvs.truncate(p.ll());
                let ok = mvs.iter_mut().all(|m| {
                    *m = grow(m.clone());
                    m.fix(&p)
                });
                ok && *reps > 0 && *reps < 16 && !mvs.is_empty()
            }
            What::Gen { num, .. } => *num > 0 && *num < 100,
            What::Preproc { circ } | What::Garble { circ } => circ.fix() && circ.gates.len() < 12,
        }
    }

    fn run(sc: &Sc, env: &mut Env) -> Res {
        mpc::init_field();
        let kind = match &sc.what {
            What::Mult { sizes, reduce, leader } => run_mult(sc, env, sizes, *reduce, *leader).map(|_| 0),
            What::Trans { mv, num, leader } => run_trans(sc, env, mv, *num as usize, *leader).map(|_| 1),
            What::RandTrans { mvs, reps } => run_randtrans(sc, env, mvs, *reps as usize).map(|_| 2),
            What::Gen { kind, num } => run_gen(sc, env, *kind, *num as usize).map(|_| 3),
            What::Preproc { circ } => run_preproc(sc, env, circ).map(|_| 4),
            What::Garble { circ } => run_garble(sc, env, circ).map(|_| 5),
        }?;
        let text = format!("{:?}", sc.what);
        env.out.sample = format!("{:?} {}", sc.par, text.chars().take(150).collect::<String>());
        env.cover(&[kind, sc.par.n as u64, sc.par.t as u64, sc.par.l as u64, sc.par.k as u64, sc.cfg.sched as u64]);
        Ok(())
    }
}
