//! C15: preprocessing material that is stored, lost in crashes, and read back after a restart.

use super::garbling::{self, garble_all};
use crate::circ::{blocks, Circ, Secrets};
use crate::mpc::{self, bin_array, bin_matrix, W};
use crate::prop::Prop;
use crate::run::{nap, take_all, Env, Res};
use crate::{ensure, fail};
use ndarray::{Array1, Array3, Axis};
use scalable_mpc::math::galois::GF;
use scalable_mpc::math::super_inv_matrix;
use scalable_mpc::protocol::preproc::{preproc, PreProc, RandBitContext, RandContext, ZeroContext};
use serde::{Deserialize, Serialize};
use simrt::rng::Rng;
use simrt::Cfg;
use std::io::{BufReader, BufWriter, Read, Write};
use std::path::{Path, PathBuf};
use std::sync::Arc;

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum Trouble {
    None,
    /// The machine dies when this share (of 4096) of all data plus so many bytes is written.
    Crash(u32, i32),
    /// The n-th write fails: no space left.
    Write(u32),
    /// The n-th read after the restart fails.
    Read(u32),
    /// The file loses so many bytes at its end.
    Cut(u32),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Sc {
    base: garbling::Sc,
    /// Material from a run of preprocessing rather than made up.
    real: bool,
    bin: u64,
    json: bool,
    /// Bytes per write; 0: by a buffered writer straight from the serialiser.
    chunk: u32,
    /// Read all first and parse then.
    slurp: bool,
    trouble: Trouble,
    /// Which parties restart (bits).
    who: u64,
    fs_p: u32,
    /// Stored and read back this many times.
    times: u32,
    /// Arbitrary material over the field of this width instead, and how much of each kind.
    #[serde(default)]
    other: Option<(u8, [u32; 7], u64)>,
    /// Values at the edges of the field among the shares.
    #[serde(default)]
    edges: bool,
    /// Material that lies in memory as it does after some of it was used.
    #[serde(default)]
    lay: u64,
}

pub struct Storage;

const WIDTHS: [u8; 20] = [1, 2, 3, 4, 7, 8, 9, 10, 15, 16, 17, 18, 20, 23, 24, 25, 27, 28, 29, 30];

type Mat = PreProc<{ W }>;

fn raw<'a, const N: u8>(v: impl IntoIterator<Item = &'a GF<N>>) -> Vec<u32> {
    v.into_iter().map(|x| u32::from(*x)).collect()
}

fn parts<const N: u8>(m: &PreProc<N>) -> (Vec<usize>, [Vec<u32>; 5]) {
    (m.keys.shape().to_vec(), [raw(&m.masks), raw(m.keys.iter()), raw(&m.randoms), raw(&m.zeros), raw(&m.errors)])
}

fn bytes<const N: u8>(m: &PreProc<N>, json: bool) -> Vec<u8> {
    if json {
        serde_json::to_vec(m).unwrap()
    } else {
        bincode::serialize(m).unwrap()
    }
}

fn store<const N: u8>(m: &PreProc<N>, path: &Path, json: bool) -> Result<(), String> {
    let mut f = BufWriter::new(std::fs::File::create(path).map_err(|e| e.to_string())?);
    if json {
        serde_json::to_writer(&mut f, m).map_err(|e| e.to_string())?;
    } else {
        bincode::serialize_into(&mut f, m).map_err(|e| e.to_string())?;
    }
    f.flush().map_err(|e| e.to_string())
}

fn fetch<const N: u8>(path: &Path, json: bool, slurp: bool) -> Result<PreProc<N>, String> {
    let mut f = std::fs::File::open(path).map_err(|e| e.to_string())?;
    if slurp {
        let mut v = Vec::new();
        f.read_to_end(&mut v).map_err(|e| e.to_string())?;
        return if json { serde_json::from_slice(&v).map_err(|e| e.to_string()) } else { bincode::deserialize(&v).map_err(|e| e.to_string()) };
    }
    let f = BufReader::new(f);
    if json {
        serde_json::from_reader(f).map_err(|e| e.to_string())
    } else {
        bincode::deserialize_from(f).map_err(|e| e.to_string())
    }
}

/// Any value, now and then one with a special bit pattern.
fn value<const N: u8>(rng: &mut Rng) -> GF<N> {
    let all = (1u64 << N) - 1;
    GF::from(if rng.p(300) { edge(rng, all) } else { rng.next() & all } as u32)
}

fn edge(rng: &mut Rng, all: u64) -> u64 {
    let b = rng.below(64 - all.leading_zeros() as u64);
    rng.pick(&[0, 1, all, all - 1, 1 << b, all ^ 1 << b, (1 << b) - 1, 0xff & all, 0xff00 & all, 0xff_0000 & all, all & !0xff])
}

/// Keys come in pairs of so many shares for each mask.
fn shape(c: &mut [u32; 7]) {
    c[0] = c[0].max(1);
    c[2] = c[2].clamp(1, if c[0] > 100 { 1 } else { 9 });
    (c[1], c[3]) = (2, c[0]);
}

fn arbitrary<const N: u8>(c: &[u32; 7], seed: u64, n: u32) -> Vec<PreProc<N>> {
    let mut rng = Rng::new(seed);
    let mut list = |k: u32| (0..k).map(|_| value(&mut rng)).collect::<Vec<GF<N>>>();
    (0..n)
        .map(|_| PreProc {
            masks: Array1::from_vec(list(c[0])),
            keys: Array3::from_shape_vec((c[1] as usize, c[2] as usize, c[3] as usize), list(c[1] * c[2] * c[3])).unwrap(),
            randoms: list(c[4]).into(),
            zeros: list(c[5]).into(),
            errors: list(c[6]).into(),
        })
        .collect()
}

/// The same material, differently placed in memory: queues that wrap around, arrays with other strides.
fn lay<const N: u8>(mut m: PreProc<N>, seed: u64) -> PreProc<N> {
    if seed == 0 {
        return m;
    }
    let mut rng = Rng::new(seed);
    macro_rules! wrap {
        ($q:expr) => {
            if !$q.is_empty() {
                let k = rng.below($q.len() as u64) as usize;
                let mut v: Vec<GF<N>> = $q.iter().copied().collect();
                v.rotate_right(k);
                $q = v.into();
                $q.rotate_left(k);
            }
        };
    }
    wrap!(m.randoms);
    wrap!(m.zeros);
    wrap!(m.errors);
    if rng.p(512) {
        m.keys = m.keys.reversed_axes().as_standard_layout().into_owned().reversed_axes();
    }
    if rng.p(512) {
        m.masks.invert_axis(Axis(0));
        m.masks = m.masks.as_standard_layout().into_owned();
        m.masks.invert_axis(Axis(0));
    }
    m
}

fn made(sc: &Sc, env: &mut Env) -> Res<Vec<Mat>> {
    let par = sc.base.par;
    let circuit = sc.base.circ.load(env);
    let counts = Mat::describe(&circuit.clone().pack(par.l), &par.ctx(0));
    if !sc.real {
        let mut rng = env.rng.clone();
        let d = Secrets::gen(&par, &counts, true, &mut rng).deal(&par, counts, &mut rng);
        let mut mats: Vec<Mat> = (0..par.n).map(|p| d.of(p)).collect();
        if sc.edges {
            for m in &mut mats {
                let mut put = |x: &mut GF<{ W }>| {
                    if rng.p(200) {
                        *x = GF::from(edge(&mut rng, (1 << W) - 1) as u32);
                    }
                };
                m.masks.iter_mut().for_each(&mut put);
                m.keys.iter_mut().for_each(&mut put);
                m.randoms.iter_mut().chain(&mut m.zeros).chain(&mut m.errors).for_each(&mut put);
            }
        }
        return Ok(mats);
    }
    let w = env.world(&sc.base.cfg);
    let mat = Arc::new(super_inv_matrix::<W>(par.nn(), (par.n - par.t) as usize));
    let bin = bin_array(&bin_matrix(&mut Rng::new(sc.bin), par.nn(), par.t as usize, 5));
    let slots = mpc::start(&w, sc.base.tr, par.n, sc.base.early, move |p, net| {
        let (circuit, mat, bin) = (circuit.clone(), mat.clone(), bin.clone());
        async move {
            let ctx = par.ctx(p);
            let desc = Mat::describe(&circuit.pack(par.l), &ctx);
            let (r, z, b) = (RandContext::new(mat.clone(), &ctx), ZeroContext::new(mat, &ctx), RandBitContext::new(bin, &ctx));
            let m = preproc(vec![b'P'], desc, ctx, r, z, b, net.clone()).await;
            (net, m)
        }
    })?;
    w.run_clean()?;
    let mats = take_all(&slots, "preprocessing")?.into_iter().map(|x| x.1).collect();
    env.done(w);
    Ok(mats)
}

fn world(env: &mut Env, sc: &Sc, dir: &Path) -> crate::run::World {
    let w = env.world(&Cfg { fs_p: sc.fs_p, ..sc.base.cfg.clone() });
    w.sim.fs.lock().unwrap().set_root(dir.to_str().unwrap());
    w
}

/// Stores the material and reads it back, as often as wanted. None if some of it is lost, rightly.
fn cycle<const N: u8>(sc: &Sc, env: &mut Env, mats: &[PreProc<N>]) -> Res<Option<Vec<PreProc<N>>>> {
    let par = sc.base.par;
    let dir = env.scratch.join("store");
    std::fs::create_dir_all(&dir).unwrap();
    let _clean = Clean(dir.clone());
    let whole: Vec<Vec<u8>> = mats.iter().map(|m| bytes(&lay(m.clone(), sc.lay), sc.json)).collect();
    let total: u64 = whole.iter().map(|x| x.len() as u64).sum();
    let path = |p: u32| dir.join(format!("party{p}"));
    let mut now = mats.to_vec();
    let back = |p: u32| sc.who >> (p % 64) & 1 == 1;

    for _ in 0..sc.times {
        // Storing.
        let w = world(env, sc, &dir);
        {
            let mut fs = w.sim.fs.lock().unwrap();
            match sc.trouble {
                Trouble::Crash(f, d) => {
                    fs.crash_after = Some((total as i64 * f.min(4096) as i64 / 4096 + d as i64).clamp(0, total as i64) as u64)
                }
                Trouble::Write(k) => fs.fail_write = Some((k as u64, 28)),
                _ => {}
            }
        }
        let mut slots = Vec::new();
        for p in 0..par.n {
            let (m, file, sc2, d) = (lay(now[p as usize].clone(), sc.lay), path(p), (sc.json, sc.chunk), sc.base.late.get(p as usize).copied().unwrap_or(0));
            slots.push(w.party(p, async move {
                nap(d).await;
                if sc2.1 == 0 {
                    return store(&m, &file, sc2.0);
                }
                let all = bytes(&m, sc2.0);
                let mut f = std::fs::File::create(&file).map_err(|e| e.to_string())?;
                for c in all.chunks((sc2.1 as usize).max(all.len() / 100)) {
                    f.write_all(c).map_err(|e| e.to_string())?;
                    tokio::task::yield_now().await;
                }
                f.flush().map_err(|e| e.to_string())
            }));
        }
        w.run_clean()?;
        let stored = take_all(&slots, "storing")?;
        let crashed = w.sim.fs.lock().unwrap().crashed.is_some();
        for (p, r) in stored.iter().enumerate() {
            if r.is_err() && !matches!(sc.trouble, Trouble::Write(_)) {
                fail!("refused", "party {p} cannot store its material: {r:?}");
            }
        }
        env.out.nontrivial |= crashed || w.sim.lock().polls_multi > 0;
        env.done(w);

        // What is on the disk.
        let mut state = Vec::new();
        for p in 0..par.n {
            if let Trouble::Cut(k) = sc.trouble {
                if back(p) {
                    let v = std::fs::read(path(p)).unwrap();
                    std::fs::write(path(p), &v[..v.len() - (k as usize).clamp(1, v.len())]).unwrap();
                }
            }
            let v = std::fs::read(path(p)).unwrap();
            let want = &whole[p as usize];
            state.push(if v == *want {
                0
            } else if want.starts_with(&v) {
                1
            } else {
                2
            });
        }

        // Restart.
        let w = world(env, sc, &dir);
        if let Trouble::Read(k) = sc.trouble {
            w.sim.fs.lock().unwrap().fail_read = Some((k as u64, 5));
        }
        let mut slots = Vec::new();
        for p in (0..par.n).filter(|&p| back(p)) {
            let (file, json, slurp) = (path(p), sc.json, sc.slurp);
            slots.push(w.party(p, async move {
                let r = std::panic::catch_unwind(|| fetch::<N>(&file, json, slurp));
                (p, r.unwrap_or_else(|_| Err("panic".into())))
            }));
        }
        w.run();
        let failed = w.sim.fs.lock().unwrap().failures > 0;
        let loaded = take_all(&slots, "loading")?;
        env.done(w);
        let mut complete = true;
        for (p, r) in loaded {
            env.checked(1);
            match (r, state[p as usize]) {
                (Ok(m), 0) => {
                    let (have, want) = (parts(&m), parts(&mats[p as usize]));
                    ensure!(have.0 == want.0, "shape", "party {p}: keys had shape {:?} and came back as {:?}", want.0, have.0);
                    for (i, name) in ["masks", "keys", "randoms", "zeros", "errors"].iter().enumerate() {
                        ensure!(
                            have.1[i] == want.1[i],
                            "changed",
                            "party {p}: {name} came back different: {} of {} items",
                            have.1[i].len(),
                            want.1[i].len()
                        );
                    }
                    now[p as usize] = m;
                }
                (Ok(_), 1) => {
                    let len = std::fs::metadata(path(p)).unwrap().len();
                    fail!("torn", "party {p}: a file cut to {len} of {} bytes was accepted", whole[p as usize].len())
                }
                (Ok(_), _) => {
                    env.count("files-neither-whole-nor-cut", 1);
                    complete = false;
                }
                (Err(e), 0) => {
                    ensure!(failed, "refused", "party {p}: a complete file was refused: {e}");
                    complete = false;
                }
                (Err(_), _) => {
                    env.count("damaged-files-refused", 1);
                    complete = false;
                }
            }
        }
        if !complete {
            env.cover(&[1, sc.json as u64, sc.slurp as u64, par.n as u64, sc.base.circ.gates.len() as u64]);
            return Ok(None);
        }
    }
    Ok(Some(now))
}

impl Prop for Storage {
    type Sc = Sc;
    const ID: &'static str = "C15";
    const QUICK: u64 = 12_000;
    const RULE: &'static str = "a case is a circuit, parameters, material (dealt, from a simulated preprocessing run, or arbitrary over fields of 20 widths with lists of up to 70000 items; edge values among the shares), a storage format and way of writing and reading, I/O trouble (short and interrupted transfers, a crash after any byte, a failed write or read, a cut file), the set of restarted parties and a world for the garbling after the restart; it is non-trivial when transfers were disturbed or the scheduler had a choice";
    const REAL: &'static str = "serialisation of PreProc (serde with bincode or JSON), std::fs, preproc, garble and everything below";
    const STUB: &'static str = "executor, clock, sockets, entropy, outcomes of open/read/write system calls on the stored files (real files in a scratch directory)";

    fn gen(rng: &mut Rng, k: u64) -> Sc {
        let mut base = garbling::gen_sc(rng, k, u64::MAX);
        base.circ.gates.truncate(8);
        if !base.circ.fix() {
            base.circ = Circ { inputs: vec![2], gates: vec![(crate::circ::Op::And, 0, 1)], outputs: vec![1], perm: 0, gap: 0 };
        }
        let trouble = match rng.below(8) {
            0 | 1 => Trouble::Crash(rng.below(4097) as u32, rng.range(0, 16) as i32 - 8),
            2 => Trouble::Write(rng.below(40) as u32),
            3 => Trouble::Read(rng.below(40) as u32),
            4 => Trouble::Cut(rng.log(1, 3000) as u32),
            _ => Trouble::None,
        };
        let who = match rng.below(3) {
            0 => u64::MAX,
            1 => 1 << rng.below(base.par.n as u64),
            _ => rng.next(),
        };
        let chunk = match rng.below(3) {
            0 => 0,
            1 => rng.range(1, 64) as u32,
            _ => rng.range(64, 100_000) as u32,
        };
        let real = rng.p(250);
        let other = rng.p(200).then(|| {
            let mut c = [0; 7];
            c.iter_mut().for_each(|x| *x = rng.log(1, 40) as u32 - 1);
            c[2] = c[2].clamp(1, 9);
            if rng.p(40) {
                c[rng.pick(&[0, 4, 5, 6])] = rng.pick(&[255, 256, 257, 65_535, 65_536, 65_537, 70_000]) as u32;
            }
            shape(&mut c);
            (if rng.p(200) { 18 } else { rng.pick(&WIDTHS) }, c, rng.next() >> 20)
        });
        if matches!(other, Some((_, c, _)) if c.iter().any(|x| *x > 250)) {
            base.par = crate::mpc::Par { k: 1, m: 2, ..crate::mpc::Par::new((3, 1, 1)) };
        }
        Sc {
            base,
            real,
            bin: rng.next() >> 20,
            json: rng.p(300),
            chunk,
            slurp: rng.p(512),
            trouble,
            who,
            fs_p: rng.pick(&[0, 20, 300]),
            times: if rng.p(100) { 2 } else { 1 },
            other,
            edges: !real && rng.p(200),
            lay: if rng.p(400) { rng.next() >> 20 } else { 0 },
        }
    }

    fn fix(sc: &mut Sc) -> bool {
        if let Some((w, c, _)) = &mut sc.other {
            *w = WIDTHS[WIDTHS.partition_point(|x| x < w).min(WIDTHS.len() - 1)];
            c.iter_mut().for_each(|x| *x = (*x).min(70_000));
            shape(c);
        }
        sc.times = sc.times.clamp(1, 3);
        sc.edges &= !sc.real;
        garbling::fix_sc(&mut sc.base) && sc.base.circ.gates.len() <= 300
    }

    fn run(sc: &Sc, env: &mut Env) -> Res {
        mpc::init_field();
        let par = sc.base.par;
        if let Some((width, counts, seed)) = sc.other {
            macro_rules! each {
                ($($w:literal)*) => {
                    match width {
                        $($w => cycle(sc, env, &arbitrary::<$w>(&counts, seed, par.n))?.is_some(),)*
                        _ => panic!("field of width {width}"),
                    }
                };
            }
            let kept = each!(1 2 3 4 7 8 9 10 15 16 17 18 20 23 24 25 27 28 29 30);
            env.out.sample = format!("width {width} {counts:?} {:?} json {}", sc.trouble, sc.json);
            env.cover(&[3, width as u64, sc.json as u64, sc.slurp as u64, kept as u64]);
            return Ok(());
        }
        let mats = made(sc, env)?;
        let Some(now) = cycle(sc, env, &mats)? else { return Ok(()) };

        if sc.edges {
            // The shares no longer fit together, so there is nothing to garble.
            env.cover(&[4, sc.json as u64, sc.slurp as u64, par.n as u64]);
            return Ok(());
        }

        // Parties that restarted garble with the others.
        let mut tables = garble_all(&sc.base, vec![mats, now], env, &sc.base.cfg, 0)?;
        let fill: Vec<usize> = blocks(&sc.base.circ.load(env).pack(par.l)).iter().map(|b| b.out.len()).collect();
        tables.iter_mut().for_each(|t| garbling::used_only(t, &fill));
        ensure!(tables[0] == tables[1], "tables", "the circuit garbled after the restart differs");
        env.count("garbled-after-restart", 1);
        env.checked(1);
        env.out.sample = format!("{:?} {:?} json {} {} gates {}", par, sc.trouble, sc.json, sc.base.circ.gates.len(), sc.base.tr as u8);
        env.cover(&[2, sc.json as u64, sc.slurp as u64, sc.real as u64, par.n as u64, sc.base.circ.gates.len() as u64]);
        Ok(())
    }
}

struct Clean(PathBuf);
impl Drop for Clean {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
