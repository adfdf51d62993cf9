//! Shared scenario generators.

use simrt::rng::Rng;
use simrt::{Cfg, Fault, FaultKind};

pub const US: u64 = 1_000;
pub const MS: u64 = 1_000_000;
pub const SEC: u64 = 1_000_000_000;

/// A world whose timing varies; nothing is ever lost.
pub fn timing(rng: &mut Rng, nodes: u32) -> Cfg {
    let mut c = Cfg { max_steps: 20_000_000, ..Cfg::default() };
    // One world in eight is plain.
    if rng.p(128) {
        return c;
    }
    c.sched = rng.pick(&[0, 1, 1, 1, 2, 3, 3, 4, 5, 6]);
    c.starve = rng.below(nodes as u64) as u32;
    c.yield_p = rng.pick(&[0, 0, 10, 100, 400]);
    c.select = rng.p(768);
    c.step_ns = rng.pick(&[0, 1, 100, 1000, 100_000]);
    match rng.below(5) {
        0 => {}
        1 => (c.lat_min, c.lat_max, c.lat_p) = (0, 10 * US, 512),
        2 => (c.lat_min, c.lat_max, c.lat_p) = (US, 5 * MS, 512),
        3 => (c.lat_min, c.lat_max, c.lat_p) = (0, SEC, 60),
        _ => (c.lat_min, c.lat_max, c.lat_p) = (50 * MS, 200 * MS, 1024),
    }
    c.ray_threads = rng.pick(&[1, 1, 2, 3, 4, 8]);
    c.ray_p = rng.pick(&[0, 0, 300, 512]);
    c
}

/// Adds byte-stream effects.
pub fn stream(rng: &mut Rng, c: &mut Cfg) {
    if rng.p(200) {
        return;
    }
    c.seg = rng.pick(&[0, 1, 2, 2, 3]);
    c.wnd = rng.pick(&[0, 0, 0, 1, 7, 64, 1000, 4096, 1 << 20]);
    c.connect_p = rng.pick(&[0, 0, 100, 400]);
}

/// Adds delays, stalls and partitions that end.
pub fn benign_faults(rng: &mut Rng, c: &mut Cfg, nodes: u32, span: u64) {
    if rng.p(400) {
        return;
    }
    let k = rng.range(1, 4);
    for _ in 0..k {
        let node = rng.below(nodes as u64) as u32;
        let b = rng.below(nodes as u64) as u32;
        let ns = rng.log(US, 20 * SEC);
        let kind = match rng.below(3) {
            0 => FaultKind::Pause { node, ns },
            1 => FaultKind::Stall { a: node, b, ns },
            _ => FaultKind::Isolate { node, ns },
        };
        c.faults.push(Fault { step: rng.log(1, span.max(2)), kind });
    }
}

/// Adds links that stall for a while, spread evenly over so many steps.
pub fn stalls(rng: &mut Rng, c: &mut Cfg, nodes: u32, span: u64) {
    for _ in 0..rng.range(3, 12) {
        let (a, b) = (rng.below(nodes as u64) as u32, rng.below(nodes as u64) as u32);
        c.faults.push(Fault { step: rng.range(1, span), kind: FaultKind::Stall { a, b, ns: rng.log(10 * MS, 20 * SEC) } });
    }
}

/// (n, t, l) with 2(t + l - 1) < n.
pub fn params(rng: &mut Rng) -> (u32, u32, u32) {
    if rng.p(512) {
        return rng.pick(&[(3, 1, 1), (4, 1, 1), (5, 1, 2), (5, 2, 1), (7, 1, 3), (7, 2, 2)]);
    }
    let n = rng.range(3, 11) as u32;
    let d = (n - 1) / 2;
    let t = rng.range(1, d as u64) as u32;
    let l = rng.range(1, (d - t + 1) as u64) as u32;
    (n, t, l)
}

/// The same, now and then with many parties, much packing or much tolerance.
pub fn params_at(rng: &mut Rng, k: u64, most: u32) -> (u32, u32, u32) {
    if k % 4096 == 9 && most > 128 {
        let n = rng.pick(&[129, 150, 200, 255, 256, 257, 300]).min(most as u64) as u32;
        return (n, rng.range(1, 3) as u32, rng.range(1, 4) as u32);
    }
    if k % 64 == 9 {
        let n = rng.range(12, (most as u64).min(36)) as u32;
        let d = (n - 1) / 2;
        let t = match rng.below(3) {
            0 => 1,
            1 => d,
            _ => rng.range(1, d as u64) as u32,
        };
        let l = if rng.p(600) { d - t + 1 } else { rng.range(1, (d - t + 1) as u64) as u32 };
        return (n, t, l);
    }
    params(rng)
}

pub fn valid_params(n: u32, t: u32, l: u32) -> bool {
    n >= 1 && t >= 1 && l >= 1 && 2 * (t + l - 1) < n && n <= 600
}

pub fn bytes(seed: u64, len: usize) -> Vec<u8> {
    let mut v = vec![0; len];
    Rng::new(seed).fill(&mut v);
    v
}

/// Message lengths around every change of the length prefix, and small ones.
pub fn msg_len(rng: &mut Rng, big: bool) -> u32 {
    match rng.below(if big { 12 } else { 10 }) {
        0 | 1 => 0,
        2 | 3 => rng.range(1, 8) as u32,
        4 => rng.range(100, 140) as u32,
        5 => rng.range(0, 300) as u32,
        6 => rng.range(16370, 16400) as u32,
        7..=9 => rng.log(1, 2000) as u32,
        10 => rng.range((1 << 21) - 40, (1 << 21) + 10) as u32,
        _ => rng.log(1, 400_000) as u32,
    }
}

/// Mostly a few parties, now and then many.
pub fn parties(rng: &mut Rng, k: u64, few: &[u64], most: u32) -> u32 {
    if k % 8192 == 77 {
        (rng.pick(&[130, 200, 256, 257, 300]) as u32).min(most)
    } else if k % 512 == 77 {
        (rng.pick(&[9, 12, 17, 20, 33, 64, 65, 66, 70, 100]) as u32).min(most)
    } else {
        rng.pick(few) as u32
    }
}
