//! Independent arithmetic in GF(2^18) and polynomial sharing over it, for the oracles.

use simrt::rng::Rng;
use std::collections::BTreeMap;
use std::sync::OnceLock;

pub const ORDER: u32 = 1 << 18;
/// x^18 + x^7 + 1
const POLY: u64 = (1 << 18) | (1 << 7) | 1;

/// Carry-less product reduced by an arbitrary polynomial of degree w.
pub fn slow_mul(a: u32, b: u32, w: u32, poly: u64) -> u32 {
    let mut p = 0u64;
    for i in 0..w {
        if b >> i & 1 == 1 {
            p ^= (a as u64) << i;
        }
    }
    for i in (w..2 * w).rev() {
        if p >> i & 1 == 1 {
            p ^= poly << (i - w);
        }
    }
    p as u32
}

struct Tables {
    log: Vec<u32>,
    exp: Vec<u32>,
}

fn tables() -> &'static Tables {
    static T: OnceLock<Tables> = OnceLock::new();
    T.get_or_init(|| {
        let q = (ORDER - 1) as usize;
        let mut t = Tables { log: vec![0; ORDER as usize], exp: vec![0; 2 * q] };
        let mut x = 1u64;
        for i in 0..q {
            t.exp[i] = x as u32;
            t.exp[i + q] = x as u32;
            t.log[x as usize] = i as u32;
            x <<= 1;
            if x >> 18 & 1 == 1 {
                x ^= POLY;
            }
        }
        assert_eq!(x, 1);
        t
    })
}

pub fn mul(a: u32, b: u32) -> u32 {
    if a == 0 || b == 0 {
        return 0;
    }
    let t = tables();
    t.exp[(t.log[a as usize] + t.log[b as usize]) as usize]
}

pub fn inv(a: u32) -> u32 {
    assert_ne!(a, 0);
    let t = tables();
    t.exp[(ORDER - 1 - t.log[a as usize]) as usize]
}

pub fn pow(a: u32, k: u32) -> u32 {
    (0..k).fold(1, |p, _| mul(p, a))
}

pub fn dot(a: &[u32], b: &[u32]) -> u32 {
    assert_eq!(a.len(), b.len());
    a.iter().zip(b).fold(0, |s, (&x, &y)| s ^ mul(x, y))
}

pub fn rand(rng: &mut Rng) -> u32 {
    rng.below(ORDER as u64) as u32
}

pub fn rands(rng: &mut Rng, n: usize) -> Vec<u32> {
    (0..n).map(|_| rand(rng)).collect()
}

/// Rows: how the value at each `to` follows from the values at `from`.
pub fn interp(from: &[u32], to: &[u32]) -> Vec<Vec<u32>> {
    to.iter()
        .map(|&x| {
            (0..from.len())
                .map(|i| {
                    let (mut a, mut b) = (1, 1);
                    for j in 0..from.len() {
                        if j != i {
                            a = mul(a, x ^ from[j]);
                            b = mul(b, from[i] ^ from[j]);
                        }
                    }
                    mul(a, inv(b))
                })
                .collect()
        })
        .collect()
}

pub fn apply(m: &[Vec<u32>], v: &[u32]) -> Vec<u32> {
    m.iter().map(|r| dot(r, v)).collect()
}

/// Rank of a matrix.
pub fn rank(mut m: Vec<Vec<u32>>) -> usize {
    let cols = m.first().map_or(0, |r| r.len());
    let mut r = 0;
    for c in 0..cols {
        let Some(p) = (r..m.len()).find(|&i| m[i][c] != 0) else { continue };
        m.swap(r, p);
        let k = inv(m[r][c]);
        for x in m[r].iter_mut() {
            *x = mul(*x, k);
        }
        for i in 0..m.len() {
            if i != r && m[i][c] != 0 {
                let f = m[i][c];
                for j in c..cols {
                    let y = mul(f, m[r][j]);
                    m[i][j] ^= y;
                }
            }
        }
        r += 1;
    }
    r
}

/// Sharings of degree d among n parties at positions 0..n with secrets at `pos`.
pub struct Pss {
    pub n: usize,
    pub d: usize,
    pub pos: Vec<u32>,
    deal: Vec<Vec<u32>>,
    rest: Vec<Vec<u32>>,
    open: Vec<Vec<u32>>,
}

impl Pss {
    pub fn new(n: usize, d: usize, pos: &[u32]) -> Self {
        assert!(d < n && pos.len() <= d + 1);
        let sh: Vec<u32> = (0..n as u32).collect();
        let from: Vec<u32> = pos.iter().chain(&sh).take(d + 1).cloned().collect();
        Pss {
            n,
            d,
            pos: pos.to_vec(),
            deal: interp(&from, &sh),
            rest: interp(&sh[..d + 1], &sh[d + 1..]),
            open: interp(&sh[..d + 1], pos),
        }
    }

    pub fn default(n: usize, d: usize, l: usize) -> Self {
        let pos: Vec<u32> = (0..l as u32).map(|i| n as u32 + i).collect();
        Self::new(n, d, &pos)
    }

    pub fn share(&self, secrets: &[u32], rng: &mut Rng) -> Vec<u32> {
        assert_eq!(secrets.len(), self.pos.len());
        let mut v = secrets.to_vec();
        v.extend(rands(rng, self.d + 1 - secrets.len()));
        apply(&self.deal, &v)
    }

    /// The secrets, if the shares lie on a polynomial of degree d.
    pub fn open(&self, shares: &[u32]) -> Option<Vec<u32>> {
        assert_eq!(shares.len(), self.n);
        if apply(&self.rest, &shares[..self.d + 1]) != shares[self.d + 1..] {
            return None;
        }
        Some(self.values(shares))
    }

    /// The secrets seen by the first d + 1 shares.
    pub fn values(&self, shares: &[u32]) -> Vec<u32> {
        apply(&self.open, &shares[..self.d + 1])
    }
}

/// Interpolation tables for many different position lists.
#[derive(Default)]
pub struct PssCache(BTreeMap<(usize, usize, Vec<u32>), Pss>);

impl PssCache {
    pub fn get(&mut self, n: usize, d: usize, pos: &[u32]) -> &Pss {
        self.0.entry((n, d, pos.to_vec())).or_insert_with(|| Pss::new(n, d, pos))
    }
}

/// For each right side b some x with m x = b; None when there is no solution.
pub fn solve_each(m: &[Vec<u32>], rhs: &[Vec<u32>]) -> Vec<Option<Vec<u32>>> {
    let cols = m[0].len();
    let mut a: Vec<Vec<u32>> =
        m.iter().enumerate().map(|(i, r)| r.iter().cloned().chain(rhs.iter().map(|b| b[i])).collect()).collect();
    let mut piv = Vec::new();
    for c in 0..cols {
        let r = piv.len();
        let Some(p) = (r..a.len()).find(|&i| a[i][c] != 0) else { continue };
        a.swap(r, p);
        let k = inv(a[r][c]);
        a[r].iter_mut().for_each(|x| *x = mul(*x, k));
        let row = a[r].clone();
        for (i, ri) in a.iter_mut().enumerate() {
            if i != r && ri[c] != 0 {
                let f = ri[c];
                for j in c..row.len() {
                    ri[j] ^= mul(f, row[j]);
                }
            }
        }
        piv.push(c);
    }
    (cols..cols + rhs.len())
        .map(|j| {
            if a[piv.len()..].iter().any(|row| row[j] != 0) {
                return None;
            }
            let mut x = vec![0; cols];
            for (r, &c) in piv.iter().enumerate() {
                x[c] = a[r][j];
            }
            Some(x)
        })
        .collect()
}
