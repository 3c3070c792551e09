//! Ethereum's alt_bn128 precompiles (EIP-196, EIP-197, gas of EIP-1108) on the pairing library, and the
//! same in the exponent for points with known discrete logarithms.
use crate::big::*;
use ff::{PrimeField, PrimeFieldRepr};
use pairing::bn256::{Bn256, Fq12, Fr, G1Affine, G1Uncompressed, G2Affine, G2Uncompressed, G1, G2};
use pairing::{CurveAffine, CurveProjective, EncodedPoint, Engine};
use std::collections::HashMap;
use std::sync::Mutex;

pub fn q() -> BigUint {
    modulus::<pairing::bn256::Fq>()
}
pub fn r() -> BigUint {
    modulus::<Fr>()
}
/// x || y as 64 bytes, zero for infinity
pub fn enc1(p: &G1Affine) -> Vec<u8> {
    let v = crate::pair::xy1(p);
    [be_bytes(&v[0], 32), be_bytes(&v[1], 32)].concat()
}
/// x imaginary, x real, y imaginary, y real
pub fn enc2(p: &G2Affine) -> Vec<u8> {
    let v = crate::pair::xy2(p);
    [be_bytes(&v[1], 32), be_bytes(&v[0], 32), be_bytes(&v[3], 32), be_bytes(&v[2], 32)].concat()
}
fn coords(b: &[u8]) -> Option<bool> {
    let m = q();
    if b.chunks(32).any(|c| BigUint::from_bytes_be(c) >= m) {
        return None;
    }
    Some(b.iter().all(|x| *x == 0))
}
pub fn dec1(b: &[u8]) -> Option<G1Affine> {
    if coords(b)? {
        return Some(G1Affine::zero());
    }
    let mut e = G1Uncompressed::empty();
    e.as_mut().copy_from_slice(b);
    e.into_affine().ok().filter(|p| !p.is_zero() && enc1(p) == b)
}
/// on the twist and in the subgroup
pub fn dec2(b: &[u8]) -> Option<G2Affine> {
    if coords(b)? {
        return Some(G2Affine::zero());
    }
    // the pairing library's encoding has the imaginary part first as well
    let mut e = G2Uncompressed::empty();
    e.as_mut().copy_from_slice(b);
    let p = e.into_affine().ok().filter(|p| !p.is_zero() && enc2(p) == b)?;
    if p.mul(Fr::char()).is_zero() {
        Some(p)
    } else {
        None
    }
}
fn pad(b: &[u8], n: usize) -> Vec<u8> {
    let mut v = b[..b.len().min(n)].to_vec();
    v.resize(n, 0);
    v
}
fn scalar(b: &[u8]) -> <Fr as PrimeField>::Repr {
    let v = BigUint::from_bytes_be(b) % r();
    let mut x = <Fr as PrimeField>::Repr::default();
    x.read_be(&be_bytes(&v, 32)[..]).unwrap();
    x
}
fn cost(addr: &BigUint, len: usize) -> u64 {
    match addr.to_bytes_be()[..] {
        [6] => 150,
        [7] => 6000,
        [8] => 45000 + 34000 * (len as u64 / 192),
        _ => 0,
    }
}
fn boolean(b: bool) -> Vec<u8> {
    be_bytes(&big(b as u64), 32)
}
pub fn precompile(addr: &BigUint, gas: &BigUint, input: &[u8]) -> Option<Vec<u8>> {
    if *gas < big(cost(addr, input.len())) {
        return None;
    }
    match addr.to_bytes_be()[..] {
        [6] => {
            let b = pad(input, 128);
            let mut p = dec1(&b[..64])?.into_projective();
            p.add_assign_mixed(&dec1(&b[64..])?);
            Some(enc1(&p.into_affine()))
        }
        [7] => {
            let b = pad(input, 96);
            Some(enc1(&dec1(&b[..64])?.mul(scalar(&b[64..])).into_affine()))
        }
        [8] => {
            if input.len() % 192 != 0 {
                return None;
            }
            let mut ps = vec![];
            for c in input.chunks(192) {
                let (a, b) = (dec1(&c[..64])?, dec2(&c[64..])?);
                if !a.is_zero() && !b.is_zero() {
                    ps.push((a.prepare(), b.prepare()));
                }
            }
            let refs: Vec<_> = ps.iter().map(|(a, b)| (a, b)).collect();
            use ff::Field;
            Some(boolean(Bn256::final_exponentiation(&Bn256::miller_loop(&refs)).map_or(false, |x| x == Fq12::one())))
        }
        // an account without code
        _ => Some(vec![]),
    }
}

/// points with known logarithms to the fixed generators
#[derive(Default)]
pub struct Logs {
    g1: Mutex<(HashMap<BigUint, Vec<u8>>, HashMap<Vec<u8>, BigUint>)>,
    g2: Mutex<(HashMap<BigUint, Vec<u8>>, HashMap<Vec<u8>, BigUint>)>,
}
impl Logs {
    pub fn p1(e: &BigUint) -> G1Affine {
        G1::one().into_affine().mul(scalar(&be_bytes(&(e % r()), 32))).into_affine()
    }
    pub fn p2(e: &BigUint) -> G2Affine {
        G2::one().into_affine().mul(scalar(&be_bytes(&(e % r()), 32))).into_affine()
    }
    pub fn e1(&self, e: &BigUint) -> Vec<u8> {
        let e = e % r();
        if let Some(b) = self.g1.lock().unwrap().0.get(&e) {
            return b.clone();
        }
        let b = enc1(&Self::p1(&e));
        let mut m = self.g1.lock().unwrap();
        m.0.insert(e.clone(), b.clone());
        m.1.insert(b.clone(), e);
        b
    }
    pub fn e2(&self, e: &BigUint) -> Vec<u8> {
        let e = e % r();
        if let Some(b) = self.g2.lock().unwrap().0.get(&e) {
            return b.clone();
        }
        let b = enc2(&Self::p2(&e));
        let mut m = self.g2.lock().unwrap();
        m.0.insert(e.clone(), b.clone());
        m.1.insert(b.clone(), e);
        b
    }
    fn l1(&self, b: &[u8]) -> Option<BigUint> {
        self.g1.lock().unwrap().1.get(b).cloned()
    }
    fn l2(&self, b: &[u8]) -> Option<BigUint> {
        self.g2.lock().unwrap().1.get(b).cloned()
    }
    fn fast(&self, addr: &BigUint, input: &[u8]) -> Option<Vec<u8>> {
        match addr.to_bytes_be()[..] {
            [6] => {
                let b = pad(input, 128);
                Some(self.e1(&(self.l1(&b[..64])? + self.l1(&b[64..])?)))
            }
            [7] => {
                let b = pad(input, 96);
                Some(self.e1(&(self.l1(&b[..64])? * BigUint::from_bytes_be(&b[64..]))))
            }
            [8] if input.len() % 192 == 0 => {
                let mut s = big(0);
                for c in input.chunks(192) {
                    s += self.l1(&c[..64])? * self.l2(&c[64..])?;
                }
                Some(boolean(s % r() == big(0)))
            }
            _ => None,
        }
    }
    /// the precompiles, in the exponent where every point is known
    pub fn call(&self, addr: &BigUint, gas: &BigUint, input: &[u8]) -> Option<Vec<u8>> {
        if *gas < big(cost(addr, input.len())) {
            return None;
        }
        self.fast(addr, input).or_else(|| precompile(addr, gas, input))
    }
}
