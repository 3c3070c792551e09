//! A pairing engine in the exponent: G1 = Z_P, G2 = Z_2P (cofactor 2; the prime order subgroup are
//! the even numbers), pairing(a, b) = g^(a*b). The library's generic Groth16 code and the proving
//! library run on it unchanged, and for a tiny P all keys, proofs and inputs can be enumerated.
use crate::fp::{Fp, Repr};
use ff::{Field, PrimeField, ScalarEngine};
use pairing::{CurveAffine, CurveProjective, EncodedPoint, Engine, GroupDecodingError, RawEncodable};
use rand::{Rand, Rng};
use std::fmt;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Toy<const P: u64>;
impl<const P: u64> ScalarEngine for Toy<P> {
    type Fr = Fp<P>;
}

/// target group in the exponent; `mul_assign` is the group law and `one` the neutral element
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Gt<const P: u64>(pub Fp<P>);
impl<const P: u64> fmt::Display for Gt<P> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "g^{}", self.0)
    }
}
impl<const P: u64> Rand for Gt<P> {
    fn rand<R: Rng>(rng: &mut R) -> Self {
        Gt(rng.gen())
    }
}
impl<const P: u64> Field for Gt<P> {
    fn zero() -> Self {
        unimplemented!("not an element of the target group")
    }
    fn one() -> Self {
        Gt(Fp(0))
    }
    fn is_zero(&self) -> bool {
        false
    }
    fn square(&mut self) {
        self.0.double()
    }
    fn double(&mut self) {
        unimplemented!()
    }
    fn negate(&mut self) {
        unimplemented!()
    }
    fn add_assign(&mut self, _: &Self) {
        unimplemented!()
    }
    fn sub_assign(&mut self, _: &Self) {
        unimplemented!()
    }
    fn mul_assign(&mut self, o: &Self) {
        self.0.add_assign(&o.0)
    }
    fn inverse(&self) -> Option<Self> {
        let mut t = self.0;
        t.negate();
        Some(Gt(t))
    }
    fn frobenius_map(&mut self, _: usize) {
        unimplemented!()
    }
}

macro_rules! group {
    ($A:ident, $J:ident, $Enc:ident, $len:expr, $h:expr, $Pair:ident, $left:expr) => {
        #[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord, Hash)]
        pub struct $A<const P: u64>(pub u64);
        #[derive(Clone, Copy, PartialEq, Eq, Debug)]
        pub struct $J<const P: u64>(pub u64);
        #[derive(Clone, Copy)]
        pub struct $Enc<const P: u64>(pub [u8; $len]);
        impl<const P: u64> fmt::Display for $A<P> {
            fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
                write!(f, "{}", self.0)
            }
        }
        impl<const P: u64> fmt::Display for $J<P> {
            fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
                write!(f, "{}", self.0)
            }
        }
        impl<const P: u64> Rand for $J<P> {
            fn rand<R: Rng>(rng: &mut R) -> Self {
                let s: Fp<P> = rng.gen();
                $A::<P>($h).mul(s)
            }
        }
        impl<const P: u64> From<$J<P>> for $A<P> {
            fn from(x: $J<P>) -> Self {
                $A(x.0)
            }
        }
        impl<const P: u64> From<$A<P>> for $J<P> {
            fn from(x: $A<P>) -> Self {
                $J(x.0)
            }
        }
        impl<const P: u64> CurveProjective for $J<P> {
            type Engine = Toy<P>;
            type Scalar = Fp<P>;
            type Base = Fp<P>;
            type Affine = $A<P>;
            fn zero() -> Self {
                $J(0)
            }
            fn one() -> Self {
                $J($h)
            }
            fn is_zero(&self) -> bool {
                self.0 == 0
            }
            fn batch_normalization(_: &mut [Self]) {}
            fn is_normalized(&self) -> bool {
                true
            }
            fn double(&mut self) {
                let t = *self;
                self.add_assign(&t)
            }
            fn add_assign(&mut self, o: &Self) {
                self.0 = ((self.0 as u128 + o.0 as u128) % (P as u128 * $h)) as u64
            }
            fn add_assign_mixed(&mut self, o: &$A<P>) {
                self.add_assign(&$J(o.0))
            }
            fn negate(&mut self) {
                if self.0 != 0 {
                    self.0 = P * $h - self.0
                }
            }
            fn mul_assign<S: Into<Repr<P>>>(&mut self, s: S) {
                let s: Repr<P> = s.into();
                self.0 = (self.0 as u128 * s.0[0] as u128 % (P as u128 * $h)) as u64
            }
            fn into_affine(&self) -> $A<P> {
                $A(self.0)
            }
            fn recommended_wnaf_for_scalar(_: Repr<P>) -> usize {
                3
            }
            fn recommended_wnaf_for_num_scalars(_: usize) -> usize {
                3
            }
        }
        impl<const P: u64> CurveAffine for $A<P> {
            type Engine = Toy<P>;
            type Scalar = Fp<P>;
            type Base = Fp<P>;
            type Projective = $J<P>;
            type Prepared = $A<P>;
            type Uncompressed = $Enc<P>;
            type Compressed = $Enc<P>;
            type Pair = $Pair<P>;
            type PairingResult = Gt<P>;
            fn zero() -> Self {
                $A(0)
            }
            fn one() -> Self {
                $A($h)
            }
            fn is_zero(&self) -> bool {
                self.0 == 0
            }
            fn negate(&mut self) {
                if self.0 != 0 {
                    self.0 = P * $h - self.0
                }
            }
            fn mul<S: Into<Repr<P>>>(&self, s: S) -> $J<P> {
                let mut t = $J(self.0);
                t.mul_assign(s);
                t
            }
            fn prepare(&self) -> Self {
                *self
            }
            fn pairing_with(&self, o: &$Pair<P>) -> Gt<P> {
                pair::<P>(self.0, o.0)
            }
            fn into_projective(&self) -> $J<P> {
                $J(self.0)
            }
        }
        impl<const P: u64> AsRef<[u8]> for $Enc<P> {
            fn as_ref(&self) -> &[u8] {
                &self.0
            }
        }
        impl<const P: u64> AsMut<[u8]> for $Enc<P> {
            fn as_mut(&mut self) -> &mut [u8] {
                &mut self.0
            }
        }
        /// one byte holds the element; further bytes must be zero
        impl<const P: u64> EncodedPoint for $Enc<P> {
            type Affine = $A<P>;
            fn empty() -> Self {
                $Enc([0; $len])
            }
            fn size() -> usize {
                $len
            }
            fn into_affine(&self) -> Result<$A<P>, GroupDecodingError> {
                self.into_affine_unchecked()
            }
            fn into_affine_unchecked(&self) -> Result<$A<P>, GroupDecodingError> {
                if self.0[1..].iter().any(|x| *x != 0) {
                    return Err(GroupDecodingError::UnexpectedInformation);
                }
                if self.0[0] as u64 >= P * $h {
                    return Err(GroupDecodingError::NotOnCurve);
                }
                Ok($A(self.0[0] as u64))
            }
            fn from_affine(a: $A<P>) -> Self {
                assert!(P * $h < 256, "toy encodings exist for tiny engines only");
                let mut e = [0; $len];
                e[0] = a.0 as u8;
                $Enc(e)
            }
        }
        impl<const P: u64> RawEncodable for $A<P> {
            fn into_raw_uncompressed_le(&self) -> $Enc<P> {
                self.into_uncompressed()
            }
            fn from_raw_uncompressed_le_unchecked(e: &$Enc<P>, _: bool) -> Result<Self, GroupDecodingError> {
                e.into_affine()
            }
            fn from_raw_uncompressed_le(e: &$Enc<P>, _: bool) -> Result<Self, GroupDecodingError> {
                e.into_affine()
            }
        }
    };
}
group!(G1A, G1J, Enc1, 2, 1, G2A, true);
group!(G2A, G2J, Enc2, 3, 2, G1A, false);

fn pair<const P: u64>(a: u64, b: u64) -> Gt<P> {
    let mut t = Fp::<P>(a % P);
    t.mul_assign(&Fp(b % P));
    Gt(t)
}

impl<const P: u64> Engine for Toy<P> {
    type G1 = G1J<P>;
    type G1Affine = G1A<P>;
    type G2 = G2J<P>;
    type G2Affine = G2A<P>;
    type Fq = Fp<P>;
    type Fqe = Fp<P>;
    type Fqk = Gt<P>;
    fn miller_loop<'a, I>(i: I) -> Gt<P>
    where
        I: IntoIterator<Item = &'a (&'a G1A<P>, &'a G2A<P>)>,
    {
        let mut acc = Gt::one();
        for (a, b) in i {
            acc.mul_assign(&pair(a.0, b.0));
        }
        acc
    }
    fn final_exponentiation(r: &Gt<P>) -> Option<Gt<P>> {
        Some(*r)
    }
}

/// 29 * 2^57 + 1
pub const BIGP: u64 = 4179340454199820289;
#[allow(dead_code)]
fn used() -> u32 {
    Fp::<BIGP>::S
}
