//! A prime field with a tiny (or one-limb) const modulus implementing the same public traits as
//! the production fields, so that the library's generic code runs on fields small enough to
//! enumerate completely.
use ff::{Field, LegendreSymbol, PrimeField, PrimeFieldDecodingError, PrimeFieldRepr, SqrtField};
use rand::{Rand, Rng};
use std::fmt;
use std::io::{self, Read, Write};

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Default, Debug, Hash)]
pub struct Repr<const P: u64>(pub [u64; 1]);

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Fp<const P: u64>(pub u64);

const fn bits(p: u64) -> u32 {
    64 - p.leading_zeros()
}
const fn bytes(p: u64) -> usize {
    ((bits(p) + 7) / 8) as usize
}

impl<const P: u64> fmt::Display for Repr<P> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "0x{:016x}", self.0[0])
    }
}
impl<const P: u64> fmt::Display for Fp<P> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl<const P: u64> fmt::Debug for Fp<P> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl<const P: u64> Rand for Repr<P> {
    fn rand<R: Rng>(rng: &mut R) -> Self {
        Repr([rng.gen()])
    }
}
impl<const P: u64> Rand for Fp<P> {
    fn rand<R: Rng>(rng: &mut R) -> Self {
        loop {
            let mut v: u64 = rng.gen();
            v &= u64::max_value() >> (64 - bits(P));
            if v < P {
                return Fp(v);
            }
        }
    }
}
impl<const P: u64> AsRef<[u64]> for Repr<P> {
    fn as_ref(&self) -> &[u64] {
        &self.0
    }
}
impl<const P: u64> AsMut<[u64]> for Repr<P> {
    fn as_mut(&mut self) -> &mut [u64] {
        &mut self.0
    }
}
impl<const P: u64> From<u64> for Repr<P> {
    fn from(v: u64) -> Self {
        Repr([v])
    }
}
impl<const P: u64> From<Fp<P>> for Repr<P> {
    fn from(v: Fp<P>) -> Self {
        Repr([v.0])
    }
}

impl<const P: u64> PrimeFieldRepr for Repr<P> {
    fn sub_noborrow(&mut self, o: &Self) {
        self.0[0] = self.0[0].wrapping_sub(o.0[0]);
    }
    fn add_nocarry(&mut self, o: &Self) {
        self.0[0] = self.0[0].wrapping_add(o.0[0]);
    }
    fn num_bits(&self) -> u32 {
        64 - self.0[0].leading_zeros()
    }
    fn is_zero(&self) -> bool {
        self.0[0] == 0
    }
    fn is_odd(&self) -> bool {
        self.0[0] & 1 == 1
    }
    fn is_even(&self) -> bool {
        self.0[0] & 1 == 0
    }
    fn div2(&mut self) {
        self.0[0] >>= 1;
    }
    fn shr(&mut self, a: u32) {
        self.0[0] = if a >= 64 { 0 } else { self.0[0] >> a };
    }
    fn mul2(&mut self) {
        self.0[0] = self.0[0].wrapping_shl(1);
    }
    fn shl(&mut self, a: u32) {
        self.0[0] = if a >= 64 { 0 } else { self.0[0] << a };
    }
    // Production fields have 8*limbs == ceil(NUM_BITS/8); keep that relation for small moduli.
    fn write_be<W: Write>(&self, mut w: W) -> io::Result<()> {
        w.write_all(&self.0[0].to_be_bytes()[8 - bytes(P)..])
    }
    fn read_be<R: Read>(&mut self, mut r: R) -> io::Result<()> {
        let mut b = [0u8; 8];
        r.read_exact(&mut b[8 - bytes(P)..])?;
        self.0[0] = u64::from_be_bytes(b);
        Ok(())
    }
    fn write_le<W: Write>(&self, mut w: W) -> io::Result<()> {
        w.write_all(&self.0[0].to_le_bytes()[..bytes(P)])
    }
    fn read_le<R: Read>(&mut self, mut r: R) -> io::Result<()> {
        let mut b = [0u8; 8];
        r.read_exact(&mut b[..bytes(P)])?;
        self.0[0] = u64::from_le_bytes(b);
        Ok(())
    }
}

#[inline]
fn mulmod(a: u64, b: u64, p: u64) -> u64 {
    if p < (1 << 32) {
        a * b % p
    } else {
        (a as u128 * b as u128 % p as u128) as u64
    }
}
fn powmod(mut a: u64, mut e: u64, p: u64) -> u64 {
    let mut r = 1 % p;
    while e > 0 {
        if e & 1 == 1 {
            r = mulmod(r, a, p);
        }
        a = mulmod(a, a, p);
        e >>= 1;
    }
    r
}

impl<const P: u64> Field for Fp<P> {
    fn zero() -> Self {
        Fp(0)
    }
    fn one() -> Self {
        Fp(1)
    }
    fn is_zero(&self) -> bool {
        self.0 == 0
    }
    fn square(&mut self) {
        self.0 = mulmod(self.0, self.0, P)
    }
    fn double(&mut self) {
        let t = *self;
        self.add_assign(&t)
    }
    fn negate(&mut self) {
        if self.0 != 0 {
            self.0 = P - self.0
        }
    }
    fn add_assign(&mut self, o: &Self) {
        self.0 = ((self.0 as u128 + o.0 as u128) % P as u128) as u64;
    }
    fn sub_assign(&mut self, o: &Self) {
        self.0 = if self.0 >= o.0 { self.0 - o.0 } else { P - (o.0 - self.0) };
    }
    fn mul_assign(&mut self, o: &Self) {
        self.0 = mulmod(self.0, o.0, P)
    }
    fn inverse(&self) -> Option<Self> {
        if self.0 == 0 {
            None
        } else {
            Some(Fp(powmod(self.0, P - 2, P)))
        }
    }
    fn frobenius_map(&mut self, _: usize) {}
}

impl<const P: u64> SqrtField for Fp<P> {
    fn legendre(&self) -> LegendreSymbol {
        if self.0 == 0 {
            LegendreSymbol::Zero
        } else if powmod(self.0, (P - 1) / 2, P) == 1 {
            LegendreSymbol::QuadraticResidue
        } else {
            LegendreSymbol::QuadraticNonResidue
        }
    }
    /// the root below P/2 (both parities occur)
    fn sqrt(&self) -> Option<Self> {
        if self.0 == 0 {
            return Some(*self);
        }
        if powmod(self.0, (P - 1) / 2, P) != 1 {
            return None;
        }
        // Tonelli-Shanks
        let s = (P - 1).trailing_zeros();
        let q = (P - 1) >> s;
        let mut z = 2;
        while powmod(z, (P - 1) / 2, P) == 1 {
            z += 1;
        }
        let (mut m, mut c, mut t, mut r) =
            (s, powmod(z, q, P), powmod(self.0, q, P), powmod(self.0, (q + 1) / 2, P));
        while t != 1 {
            let mut i = 0;
            let mut tt = t;
            while tt != 1 {
                tt = mulmod(tt, tt, P);
                i += 1;
            }
            let mut b = c;
            for _ in 0..m - i - 1 {
                b = mulmod(b, b, P);
            }
            m = i;
            c = mulmod(b, b, P);
            t = mulmod(t, c, P);
            r = mulmod(r, b, P);
        }
        Some(Fp(if r > P / 2 { P - r } else { r }))
    }
}

impl<const P: u64> PrimeField for Fp<P> {
    type Repr = Repr<P>;
    fn from_repr(r: Repr<P>) -> Result<Self, PrimeFieldDecodingError> {
        if r.0[0] < P {
            Ok(Fp(r.0[0]))
        } else {
            Err(PrimeFieldDecodingError::NotInField(format!("{}", r)))
        }
    }
    fn from_raw_repr(r: Repr<P>) -> Result<Self, PrimeFieldDecodingError> {
        Self::from_repr(r)
    }
    fn into_repr(&self) -> Repr<P> {
        Repr([self.0])
    }
    fn into_raw_repr(&self) -> Repr<P> {
        Repr([self.0])
    }
    fn char() -> Repr<P> {
        Repr([P])
    }
    const NUM_BITS: u32 = bits(P);
    const CAPACITY: u32 = bits(P) - 1;
    fn multiplicative_generator() -> Self {
        // smallest primitive root (moduli are small; trial division of P-1)
        let mut fs = vec![];
        let mut n = P - 1;
        let mut d = 2;
        while d * d <= n {
            if n % d == 0 {
                fs.push(d);
                while n % d == 0 {
                    n /= d;
                }
            }
            d += 1;
        }
        if n > 1 {
            fs.push(n);
        }
        let mut g = 2;
        while fs.iter().any(|f| powmod(g, (P - 1) / f, P) == 1) {
            g += 1;
        }
        Fp(g)
    }
    const S: u32 = (P - 1).trailing_zeros();
    fn root_of_unity() -> Self {
        let s = (P - 1).trailing_zeros();
        Fp(powmod(Self::multiplicative_generator().0, (P - 1) >> s, P))
    }
}
