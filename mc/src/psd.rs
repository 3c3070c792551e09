//! Reference Poseidon permutation and Merkle trees on big integers / machine words.
use crate::big::*;
use crate::blake::{blake2s, PERSON};
use crate::fp::Fp;
use fawkes_crypto::core::field::Field;
use fawkes_crypto::native::num::Num;
use fawkes_crypto::native::poseidon::PoseidonParams;
use num::bigint::BigUint;

/// a parameter set as plain integers
#[derive(Clone, Debug)]
pub struct Par {
    pub c: Vec<BigUint>,
    pub m: Vec<Vec<BigUint>>,
    pub t: usize,
    pub f: usize,
    pub p: usize,
    pub q: BigUint,
}
pub fn plain<F: Field>(x: &PoseidonParams<F>) -> Par {
    Par {
        c: x.c.iter().map(nbig).collect(),
        m: x.m.iter().map(|r| r.iter().map(nbig).collect()).collect(),
        t: x.t,
        f: x.f,
        p: x.p,
        q: modulus::<F>(),
    }
}
pub fn hash(par: &Par, ins: &[BigUint]) -> BigUint {
    let q = &par.q;
    let mut s = vec![big(0); par.t];
    for (i, x) in ins.iter().enumerate() {
        s[i] = x.clone();
    }
    let half = par.f / 2;
    let five = big(5);
    for r in 0..par.f + par.p {
        for x in s.iter_mut() {
            *x = (&*x + &par.c[r]) % q;
        }
        let full = r < half || r >= half + par.p;
        for (j, x) in s.iter_mut().enumerate() {
            if full || j == 0 {
                *x = x.modpow(&five, q);
            }
        }
        s = (0..par.t).map(|i| (0..par.t).fold(big(0), |a, j| (a + &par.m[i][j] * &s[j]) % q)).collect();
    }
    s[0].clone()
}
pub fn seed_elem(q: &BigUint, nbytes: usize, seed: &[u8]) -> BigUint {
    BigUint::from_bytes_be(&blake2s(nbytes, PERSON, seed)) % q
}

/// machine-word version for tiny fields
#[derive(Clone, Debug)]
pub struct SPar {
    pub c: Vec<u64>,
    pub m: Vec<Vec<u64>>,
    pub t: usize,
    pub f: usize,
    pub p: usize,
}
impl SPar {
    pub fn lib<const P: u64>(&self) -> PoseidonParams<Fp<P>> {
        PoseidonParams {
            c: self.c.iter().map(|x| Num(Fp(*x % P))).collect(),
            m: self.m.iter().map(|r| r.iter().map(|x| Num(Fp(*x % P))).collect()).collect(),
            t: self.t,
            f: self.f,
            p: self.p,
        }
    }
    pub fn hash(&self, q: u64, ins: &[u64]) -> u64 {
        let mut s = vec![0u64; self.t];
        s[..ins.len()].copy_from_slice(ins);
        let half = self.f / 2;
        for r in 0..self.f + self.p {
            for x in s.iter_mut() {
                *x = (*x + self.c[r]) % q;
            }
            for j in 0..self.t {
                if r < half || r >= half + self.p || j == 0 {
                    let a = s[j];
                    s[j] = a * a % q * a % q * a % q * a % q;
                }
            }
            s = (0..self.t).map(|i| (0..self.t).map(|j| self.m[i][j] % q * s[j] % q).sum::<u64>() % q).collect();
        }
        s[0]
    }
    /// kind 0: dense and asymmetric; 1: identity matrix, zero constants; 2: one zero row, one zero constant; 3: last-column shift
    pub fn make(t: usize, f: usize, p: usize, q: u64, kind: usize) -> SPar {
        let c = (0..f + p)
            .map(|i| match kind {
                1 => 0,
                2 if i % 2 == 0 => 0,
                _ => (3 + 7 * i as u64 + (i * i) as u64) % q,
            })
            .collect();
        let m = (0..t)
            .map(|i| {
                (0..t)
                    .map(|j| match kind {
                        0 => (1 + 5 * i as u64 + 2 * j as u64 + (i * j * j) as u64) % q,
                        1 => (i == j) as u64,
                        2 if i == 1 => 0,
                        2 => (2 + i as u64 + 3 * j as u64) % q,
                        _ => ((i + 1) % t == j) as u64 * (q - 1),
                    })
                    .collect()
            })
            .collect();
        SPar { c, m, t, f, p }
    }
    pub fn tree(&self, q: u64, leaves: &[u64]) -> Vec<Vec<u64>> {
        let mut v = leaves.to_vec();
        while !v.len().is_power_of_two() {
            v.push(0);
        }
        let mut levels = vec![v];
        while levels.last().unwrap().len() > 1 {
            let l = levels.last().unwrap();
            let n = (0..l.len() / 2).map(|i| self.hash(q, &[l[2 * i], l[2 * i + 1]])).collect();
            levels.push(n);
        }
        levels
    }
}
pub fn tree(par: &Par, leaves: &[BigUint]) -> Vec<Vec<BigUint>> {
    let mut v = leaves.to_vec();
    while !v.len().is_power_of_two() {
        v.push(big(0));
    }
    let mut levels = vec![v];
    while levels.last().unwrap().len() > 1 {
        let l = levels.last().unwrap();
        let n = (0..l.len() / 2).map(|i| hash(par, &[l[2 * i].clone(), l[2 * i + 1].clone()])).collect();
        levels.push(n);
    }
    levels
}
