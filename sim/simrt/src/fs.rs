//! File seam: programs' files live in a scratch directory; transfers on them can be cut short,
//! interrupted, failed, or lost from a crash point on.

use crate::choice::Kind;
use crate::{NodeId, Sim};
use std::collections::BTreeMap;

#[derive(Default)]
pub struct Fs {
    /// Files under this directory are under the simulator's control.
    pub root: Vec<u8>,
    fds: BTreeMap<i32, NodeId>,
    pub reads: u64,
    pub writes: u64,
    pub opens: u64,
    /// Fail the n-th read / write / open (counted over the run) with this errno.
    pub fail_read: Option<(u64, i32)>,
    pub fail_write: Option<(u64, i32)>,
    pub fail_open: Option<(u64, i32)>,
    /// From this many written bytes on nothing reaches the disk (crash of the writing process).
    pub crash_after: Option<u64>,
    pub written: u64,
    /// The crash point was reached by this node.
    pub crashed: Option<NodeId>,
    /// Ends the whole OS process when the crash point is reached.
    pub failures: u64,
}

pub(crate) enum Io {
    /// Transfer at most this many bytes.
    Up(usize),
    Err(i32),
    /// Pretend all was transferred.
    Swallow(usize),
}

impl Fs {
    pub fn set_root(&mut self, dir: &str) {
        self.root = dir.as_bytes().to_vec();
    }
}

pub(crate) fn on_open(sim: &Sim, path: &[u8]) -> Option<Result<(), i32>> {
    let mut fs = sim.fs.lock().unwrap_or_else(|e| e.into_inner());
    if fs.root.is_empty() || !path.starts_with(&fs.root) {
        return None;
    }
    let k = fs.opens;
    fs.opens += 1;
    if let Some((n, e)) = fs.fail_open {
        if n == k {
            fs.failures += 1;
            return Some(Err(e));
        }
    }
    Some(Ok(()))
}

pub(crate) fn opened(sim: &Sim, fd: i32) {
    let node = sim.node();
    sim.fs.lock().unwrap_or_else(|e| e.into_inner()).fds.insert(fd, node);
}

pub(crate) fn closed(sim: &Sim, fd: i32) {
    sim.fs.lock().unwrap_or_else(|e| e.into_inner()).fds.remove(&fd);
}

fn cut(sim: &Sim, n: usize) -> Io {
    let mut st = sim.lock();
    let p = st.cfg.fs_p;
    if p == 0 || n == 0 {
        return Io::Up(n);
    }
    // 0 whole, 1 interrupted, otherwise that many 1024ths.
    match st.maybe(Kind::Fs, 1024, p) {
        0 => Io::Up(n),
        v if v < 200 => {
            st.counters.add("file-io-interrupted", 1);
            Io::Err(4)
        }
        v => {
            st.counters.add("file-io-short", 1);
            Io::Up((n * v as usize / 1024).clamp(1, n))
        }
    }
}

pub(crate) fn on_read(sim: &Sim, fd: i32, n: usize) -> Option<Io> {
    {
        let mut fs = sim.fs.lock().unwrap_or_else(|e| e.into_inner());
        fs.fds.get(&fd)?;
        let k = fs.reads;
        fs.reads += 1;
        if let Some((i, e)) = fs.fail_read {
            if i == k {
                fs.failures += 1;
                return Some(Io::Err(e));
            }
        }
    }
    Some(cut(sim, n))
}

pub(crate) fn on_write(sim: &Sim, fd: i32, n: usize) -> Option<Io> {
    {
        let mut fs = sim.fs.lock().unwrap_or_else(|e| e.into_inner());
        let node = *fs.fds.get(&fd)?;
        let k = fs.writes;
        fs.writes += 1;
        if let Some((i, e)) = fs.fail_write {
            if i == k {
                fs.failures += 1;
                return Some(Io::Err(e));
            }
        }
        if let Some(limit) = fs.crash_after {
            if fs.crashed.is_some() {
                return Some(Io::Swallow(n));
            }
            if fs.written + n as u64 > limit {
                let left = (limit - fs.written) as usize;
                if left == 0 {
                    fs.crashed = Some(node);
                    fs.failures += 1;
                    return Some(Io::Swallow(n));
                }
                fs.written += left as u64;
                return Some(Io::Up(left));
            }
        }
    }
    let r = cut(sim, n);
    if let Io::Up(m) = r {
        sim.fs.lock().unwrap_or_else(|e| e.into_inner()).written += m as u64;
    }
    Some(r)
}
