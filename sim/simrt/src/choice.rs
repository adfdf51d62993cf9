//! Every decision the simulator takes goes through here.
//!
//! A decision is "one of n", and 0 always means the plain choice: next task in arrival order, no
//! delay, whole buffer, no yield.  A run is decided by its configuration and the sparse list of
//! decisions different from 0, which is what a replay file stores and the minimiser shrinks.

use crate::rng::Rng;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
#[repr(u8)]
pub enum Kind {
    Pick = 0,
    Yield = 1,
    Select = 2,
    RayOrder = 3,
    RayStolen = 4,
    Latency = 5,
    SegWrite = 6,
    SegRead = 7,
    Connect = 8,
    Fs = 9,
    Msg = 10,
    App = 11,
    ResetLoss = 12,
}
pub const KINDS: usize = 13;
pub const KIND_NAMES: [&str; KINDS] = [
    "pick-task", "yield", "select-branch", "parallel-order", "parallel-steal", "latency",
    "write-size", "read-size", "connect", "file-io", "message", "app", "reset-loss",
];

#[derive(Clone, Debug)]
pub enum Source {
    Random(Rng),
    /// Sorted (index, value).
    Replay(Vec<(u64, u32)>, usize),
}

pub struct Choice {
    src: Source,
    idx: u64,
    pub log: Vec<(u64, u8, u32)>,
    pub counts: [u64; KINDS],
    pub nonzero: [u64; KINDS],
}

impl Choice {
    pub fn new(src: Source) -> Self {
        Choice { src, idx: 0, log: Vec::new(), counts: [0; KINDS], nonzero: [0; KINDS] }
    }

    pub fn total(&self) -> u64 {
        self.idx
    }

    pub fn choose(&mut self, kind: Kind, n: u32, gen: impl FnOnce(&mut Rng) -> u32) -> u32 {
        let idx = self.idx;
        self.idx += 1;
        self.counts[kind as usize] += 1;
        if n <= 1 {
            return 0;
        }
        let v = match &mut self.src {
            Source::Random(rng) => gen(rng).min(n - 1),
            Source::Replay(list, pos) => {
                while *pos < list.len() && list[*pos].0 < idx {
                    *pos += 1;
                }
                if *pos < list.len() && list[*pos].0 == idx {
                    list[*pos].1.min(n - 1)
                } else {
                    0
                }
            }
        };
        if v != 0 {
            self.nonzero[kind as usize] += 1;
            self.log.push((idx, kind as u8, v));
        }
        v
    }
}
