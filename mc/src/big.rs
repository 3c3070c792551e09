//! Integer reference arithmetic (num-bigint) independent of the code under check.
use fawkes_crypto::core::field::{Field, PrimeField};
use fawkes_crypto::native::num::Num;
pub use num::bigint::{BigInt, BigUint};
use num::traits::{One, Zero};

pub fn limbs(l: &[u64]) -> BigUint {
    let mut r = BigUint::zero();
    for x in l.iter().rev() {
        r = (r << 64) + BigUint::from(*x);
    }
    r
}
pub fn fbig<F: Field>(f: &F) -> BigUint {
    limbs(f.into_repr().as_ref())
}
pub fn nbig<F: Field>(n: &Num<F>) -> BigUint {
    fbig(&n.0)
}
pub fn modulus<F: Field>() -> BigUint {
    limbs(F::char().as_ref())
}
pub fn tolimbs(b: &BigUint, n: usize) -> Vec<u64> {
    let mut v = vec![];
    let mut x = b.clone();
    let m = BigUint::from(u64::max_value());
    for _ in 0..n {
        let l = &x & &m;
        v.push(l.to_string().parse::<u64>().unwrap());
        x = x >> 64;
    }
    assert!(x.is_zero(), "does not fit");
    v
}
/// canonical element for b mod p
pub fn felt<F: Field>(b: &BigUint) -> F {
    let b = b % modulus::<F>();
    let mut r = F::zero().into_raw_repr();
    let n = r.as_ref().len();
    let v = tolimbs(&b, n);
    r.as_mut().copy_from_slice(&v);
    F::from_repr(r).unwrap()
}
pub fn num_of<F: Field>(b: &BigUint) -> Num<F> {
    Num(felt(b))
}
pub fn nu<F: Field>(x: u64) -> Num<F> {
    num_of(&BigUint::from(x))
}
pub fn be_bytes(b: &BigUint, n: usize) -> Vec<u8> {
    let mut v = if b.is_zero() { vec![] } else { b.to_bytes_be() };
    assert!(v.len() <= n);
    while v.len() < n {
        v.insert(0, 0);
    }
    v
}
pub fn le_bytes(b: &BigUint, n: usize) -> Vec<u8> {
    let mut v = be_bytes(b, n);
    v.reverse();
    v
}
pub fn big(x: u64) -> BigUint {
    BigUint::from(x)
}
pub fn pow2(k: usize) -> BigUint {
    BigUint::one() << k
}
pub fn inv_mod(a: &BigUint, p: &BigUint) -> BigUint {
    a.modpow(&(p - big(2)), p)
}
pub fn sub_mod(a: &BigUint, b: &BigUint, p: &BigUint) -> BigUint {
    (a + p - b % p) % p
}
/// Euler's criterion on integers
pub fn is_square(a: &BigUint, p: &BigUint) -> bool {
    let a = a % p;
    a.is_zero() || a.modpow(&((p - big(1)) >> 1), p) == big(1)
}
pub fn num_bytes<F: Field>() -> usize {
    ((F::NUM_BITS + 7) / 8) as usize
}

/// Boundary alphabet of a field: small values, limb and byte boundaries, values next to the
/// modulus, halves, Montgomery-form boundaries, bit patterns. Sorted, deduplicated, below p.
pub fn alphabet<F: Field>(dense: bool) -> Vec<BigUint> {
    let p = modulus::<F>();
    let nb = F::NUM_BITS as usize;
    let nl = F::zero().into_repr().as_ref().len();
    let mut v: Vec<BigUint> = (0..10u64).map(big).collect();
    for i in 1..10u64 {
        if big(i) < p {
            v.push(&p - big(i));
        }
    }
    let half = (&p - big(1)) >> 1;
    v.push(half.clone());
    v.push(&half + big(1));
    v.push(&half >> 1);
    v.push(&half - big(1));
    for k in 0..nb {
        let near = k % 64 <= 1 || k % 64 >= 63 || k % 32 == 0 || k + 3 >= nb;
        if dense && k % 8 == 0 || near {
            v.push(pow2(k));
            v.push(pow2(k) + big(1));
            v.push(pow2(k) - big(1));
            if pow2(k) < p {
                v.push(&p - pow2(k));
            }
        }
    }
    // each limb all ones / top bit
    for l in 0..nl {
        v.push(big(u64::max_value()) << (64 * l));
        v.push(pow2(64 * l + 63));
        v.push(big(0xdead_beef_0123_4567) << (64 * l));
    }
    // Montgomery constants
    let r = pow2(64 * nl) % &p;
    v.push(r.clone());
    v.push(&r * &r % &p);
    v.push(inv_mod(&r, &p));
    v.push(sub_mod(&big(0), &r, &p));
    // internal (Montgomery) form with a single non-zero limb, and with all but one
    let rinv = inv_mod(&r, &p);
    for l in 0..nl {
        v.push(pow2(64 * l) % &p * &rinv % &p);
        if dense {
            v.push((&p - pow2(64 * l) % &p) * &rinv % &p);
        }
    }
    // patterns
    for pat in [0x55u8, 0xaa, 0xf0, 0x0f, 0x01, 0x80, 0x81, 0x7f].iter() {
        v.push(BigUint::from_bytes_be(&vec![*pat; nl * 8]) % &p);
    }
    // pseudo-random but fixed
    let mut x = big(7);
    for _ in 0..if dense { 12 } else { 4 } {
        x = (&x * &x * &x + big(11)) % &p;
        x = x.modpow(&big(65537), &p);
        v.push(x.clone());
    }
    v.retain(|x| x < &p);
    v.sort();
    v.dedup();
    v
}
