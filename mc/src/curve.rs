//! Complete tiny instances of the curve interface and independent reference group laws.
use crate::big::*;
use crate::fp::Fp;
use fawkes_crypto::core::field::Field;
use fawkes_crypto::native::ecc::{EdwardsPoint, EdwardsPointEx, JubJubParams};
use fawkes_crypto::native::num::Num;
use num::bigint::BigUint;

pub type Pt = (u64, u64);

/// -x^2 + y^2 = 1 + d x^2 y^2 over F_P with 8Q points.
#[derive(Clone, Debug)]
pub struct Jub<const P: u64, const Q: u64> {
    pub d: u64,
    pub u: u64,
    pub ma: u64,
    pub mb: u64,
    pub g: EdwardsPoint<Fp<P>>,
    pub gp: Pt,
    pub pts: Vec<Pt>,
    pub sub: Vec<Pt>,
}
pub fn inv(a: u64, p: u64) -> u64 {
    assert!(a % p != 0);
    crate::gad::inv(a % p, p)
}
impl<const P: u64, const Q: u64> Jub<P, Q> {
    pub fn new(d: u64, u: u64) -> Self {
        let one_d = (1 + d) % P;
        let ma = 2 * (1 + P - d) % P * inv(one_d, P) % P;
        let mb = (P - 4) * inv(one_d, P) % P;
        let mut j = Jub { d, u, ma, mb, g: EdwardsPoint { x: Num(Fp(0)), y: Num(Fp(1)) }, gp: (0, 1), pts: vec![], sub: vec![] };
        for x in 0..P {
            for y in 0..P {
                if j.on_curve((x, y)) {
                    j.pts.push((x, y));
                }
            }
        }
        assert_eq!(j.pts.len() as u64, 8 * Q);
        // a point of order Q that is not the smallest one
        let g = *j.pts.iter().filter(|t| **t != (0, 1) && j.mul(**t, Q) == (0, 1)).nth(2).unwrap();
        j.gp = g;
        j.g = pt(g);
        let mut s = (0, 1);
        for _ in 0..Q {
            j.sub.push(s);
            s = j.add(s, g);
        }
        assert_eq!(s, (0, 1));
        assert_eq!(j.sub.len() as u64, Q);
        assert!((0..P).all(|x| x * x % P != u % P));
        j
    }
    pub fn on_curve(&self, (x, y): Pt) -> bool {
        let (x2, y2) = (x * x % P, y * y % P);
        (y2 + P - x2) % P == (1 + self.d * x2 % P * y2) % P
    }
    pub fn add(&self, a: Pt, b: Pt) -> Pt {
        let t = self.d * a.0 % P * b.0 % P * a.1 % P * b.1 % P;
        (
            (a.0 * b.1 + b.0 * a.1) % P * inv(1 + t, P) % P,
            (a.1 * b.1 + a.0 * b.0) % P * inv(1 + P - t, P) % P,
        )
    }
    pub fn neg(&self, a: Pt) -> Pt {
        ((P - a.0) % P, a.1)
    }
    /// repeated addition
    pub fn mul(&self, a: Pt, k: u64) -> Pt {
        let mut r = (0, 1);
        for _ in 0..k {
            r = self.add(r, a);
        }
        r
    }
    pub fn in_sub(&self, a: Pt) -> bool {
        self.sub.contains(&a)
    }
    /// the subgroup point with this x
    pub fn lift_x(&self, x: u64) -> Option<Pt> {
        let v: Vec<_> = self.sub.iter().filter(|t| t.0 == x).collect();
        assert!(v.len() <= 1);
        v.first().map(|t| **t)
    }
    /// affine Montgomery points
    pub fn mont_points(&self) -> Vec<Pt> {
        let mut v = vec![];
        for x in 0..P {
            for y in 0..P {
                if self.mb * y % P * y % P == (x * x % P * x + self.ma * x % P * x + x) % P {
                    v.push((x, y));
                }
            }
        }
        v
    }
    pub fn to_mont(&self, (x, y): Pt) -> Option<Pt> {
        if (x, y) == (0, 1) {
            None
        } else if x == 0 {
            Some((0, 0))
        } else {
            let m = (1 + y) * inv(1 + P - y, P) % P;
            Some((m, m * inv(x, P) % P))
        }
    }
    /// inverse image by search
    pub fn from_mont(&self, m: Pt) -> Pt {
        *self.pts.iter().find(|t| self.to_mont(**t) == Some(m)).unwrap()
    }
    pub fn from_scalar(&self, t: u64) -> Option<Pt> {
        let t = (t + 1) % P;
        if t == 0 {
            return None;
        }
        let w = t * t % P * self.u % P;
        let x2 = (P - 1) * inv(self.ma, P) % P * ((1 + inv(w, P)) % P) % P;
        let x3 = x2 * w % P;
        for x in [x2, x3].iter() {
            let g = (x * x % P * x + self.ma * x % P * x + x) % P * inv(self.mb, P) % P;
            if let Some(y) = (0..P).find(|y| y * y % P == g && y % 2 == 0) {
                return Some(self.mul(self.from_mont((*x, y)), 8));
            }
        }
        unreachable!()
    }
}
impl<const P: u64, const Q: u64> JubJubParams for Jub<P, Q> {
    type Fr = Fp<P>;
    type Fs = Fp<Q>;
    fn edwards_g(&self) -> &EdwardsPoint<Fp<P>> {
        &self.g
    }
    fn edwards_d(&self) -> Num<Fp<P>> {
        Num(Fp(self.d))
    }
    fn montgomery_a(&self) -> Num<Fp<P>> {
        Num(Fp(self.ma))
    }
    fn montgomery_b(&self) -> Num<Fp<P>> {
        Num(Fp(self.mb))
    }
    fn montgomery_u(&self) -> Num<Fp<P>> {
        Num(Fp(self.u))
    }
}
pub fn curve_a() -> Jub<73, 11> {
    Jub::new(5, 5)
}
pub fn curve_b() -> Jub<101, 13> {
    Jub::new(29, 2)
}
pub fn curve_c() -> Jub<137, 17> {
    Jub::new(10, 3)
}
pub fn curve_d() -> Jub<229, 31> {
    Jub::new(77, 2)
}
/// coordinates of two bytes, scalars of one
pub fn curve_e() -> Jub<269, 37> {
    Jub::new(12, 2)
}

pub fn pt<const P: u64>(a: Pt) -> EdwardsPoint<Fp<P>> {
    EdwardsPoint { x: Num(Fp(a.0)), y: Num(Fp(a.1)) }
}
pub fn unpt<const P: u64>(a: &EdwardsPoint<Fp<P>>) -> Pt {
    (a.x.0 .0, a.y.0 .0)
}
pub fn ext<const P: u64>(a: Pt, z: u64) -> EdwardsPointEx<Fp<P>> {
    let n = |v: u64| Num(Fp::<P>(v % P));
    EdwardsPointEx { x: n(a.0 * z), y: n(a.1 * z), t: n(a.0 * a.1 % P * z), z: n(z) }
}

/// A production curve with big-integer affine arithmetic.
pub struct BigCurve {
    pub p: BigUint,
    pub q: BigUint,
    pub d: BigUint,
    pub ma: BigUint,
    pub mb: BigUint,
    pub u: BigUint,
    pub g: BPt,
}
pub type BPt = (BigUint, BigUint);
impl BigCurve {
    pub fn of<J: JubJubParams>(j: &J) -> Self {
        BigCurve {
            p: modulus::<J::Fr>(),
            q: modulus::<J::Fs>(),
            d: nbig(&j.edwards_d()),
            ma: nbig(&j.montgomery_a()),
            mb: nbig(&j.montgomery_b()),
            u: nbig(&j.montgomery_u()),
            g: bunpt(j.edwards_g()),
        }
    }
    pub fn zero(&self) -> BPt {
        (big(0), big(1))
    }
    pub fn on_curve(&self, (x, y): &BPt) -> bool {
        let (x2, y2) = (x * x % &self.p, y * y % &self.p);
        sub_mod(&y2, &x2, &self.p) == (big(1) + &self.d * &x2 % &self.p * &y2) % &self.p
    }
    pub fn add(&self, a: &BPt, b: &BPt) -> BPt {
        let p = &self.p;
        let t = &self.d * &a.0 % p * &b.0 % p * &a.1 % p * &b.1 % p;
        (
            (&a.0 * &b.1 + &b.0 * &a.1) % p * inv_mod(&((big(1) + &t) % p), p) % p,
            (&a.1 * &b.1 + &a.0 * &b.0) % p * inv_mod(&sub_mod(&big(1), &t, p), p) % p,
        )
    }
    pub fn neg(&self, a: &BPt) -> BPt {
        (sub_mod(&big(0), &a.0, &self.p), a.1.clone())
    }
    /// projective double-and-add on the big integers (own formulas, least significant bit first)
    pub fn mul(&self, a: &BPt, k: &BigUint) -> BPt {
        let p = &self.p;
        type Pr = (BigUint, BigUint, BigUint);
        // projective addition: add-2008-bbjlp with a = -1
        let padd = |s: &Pr, o: &Pr| -> Pr {
            let aa = &s.2 * &o.2 % p;
            let b = &aa * &aa % p;
            let c = &s.0 * &o.0 % p;
            let d = &s.1 * &o.1 % p;
            let e = &self.d * &c % p * &d % p;
            let f = sub_mod(&b, &e, p);
            let g = (&b + &e) % p;
            let cross = (&s.0 * &o.1 + &s.1 * &o.0) % p;
            (&aa * &f % p * &cross % p, &aa * &g % p * ((&d + &c) % p) % p, &f * &g % p)
        };
        let mut r: Pr = (big(0), big(1), big(1));
        let mut b: Pr = (a.0.clone(), a.1.clone(), big(1));
        for i in 0..k.bits() {
            if (k >> i) & big(1) == big(1) {
                r = padd(&r, &b);
            }
            b = padd(&b, &b);
        }
        let zi = inv_mod(&r.2, p);
        (&r.0 * &zi % p, &r.1 * &zi % p)
    }
    pub fn sqrt(&self, a: &BigUint) -> Option<BigUint> {
        sqrt_mod(a, &self.p)
    }
    /// some x with (x, y) on the curve
    pub fn x_of_y(&self, y: &BigUint) -> Option<BigUint> {
        let p = &self.p;
        let y2 = y * y % p;
        let r = sub_mod(&y2, &big(1), p) * inv_mod(&((&self.d * &y2 + big(1)) % p), p) % p;
        self.sqrt(&r)
    }
    pub fn y_of_x(&self, x: &BigUint) -> Option<BigUint> {
        let p = &self.p;
        let x2 = x * x % p;
        let r = (&x2 + big(1)) % p * inv_mod(&sub_mod(&big(1), &(&self.d * &x2 % p), p), p) % p;
        self.sqrt(&r)
    }
    pub fn lift_x(&self, x: &BigUint) -> Option<BPt> {
        let y = self.y_of_x(x)?;
        for yy in [y.clone(), sub_mod(&big(0), &y, &self.p)].iter() {
            let c = (x.clone(), yy.clone());
            if self.mul(&c, &self.q) == self.zero() {
                return Some(c);
            }
        }
        None
    }
    pub fn to_mont(&self, a: &BPt) -> Option<BPt> {
        let p = &self.p;
        if *a == self.zero() {
            return None;
        }
        if a.0 == big(0) {
            return Some((big(0), big(0)));
        }
        let m = (big(1) + &a.1) * inv_mod(&sub_mod(&big(1), &a.1, p), p) % p;
        let y = &m * inv_mod(&a.0, p) % p;
        Some((m, y))
    }
    pub fn from_mont(&self, m: &BPt) -> BPt {
        let p = &self.p;
        if m.0 == big(0) {
            return (big(0), p - big(1));
        }
        (
            &m.0 * inv_mod(&m.1, p) % p,
            sub_mod(&m.0, &big(1), p) * inv_mod(&((&m.0 + big(1)) % p), p) % p,
        )
    }
    pub fn mont_rhs(&self, x: &BigUint) -> BigUint {
        let p = &self.p;
        (x * x % p * x + &self.ma * x % p * x + x) % p * inv_mod(&self.mb, p) % p
    }
    pub fn from_scalar(&self, t: &BigUint) -> BPt {
        let p = &self.p;
        let t = (t + big(1)) % p;
        let w = &t * &t % p * &self.u % p;
        let na = sub_mod(&big(0), &inv_mod(&self.ma, p), p);
        let x2 = na * ((big(1) + inv_mod(&w, p)) % p) % p;
        let x3 = &x2 * &w % p;
        let x = if is_square(&self.mont_rhs(&x2), p) { x2 } else { x3 };
        let mut y = self.sqrt(&self.mont_rhs(&x)).unwrap();
        if &y % big(2) == big(1) {
            y = p - y;
        }
        self.mul(&self.from_mont(&(x, y)), &big(8))
    }
    /// the eight points killed by the cofactor
    pub fn torsion(&self) -> Vec<BPt> {
        let p = &self.p;
        // an element of order 8: q * (any point) with full torsion order
        let mut y = big(2);
        loop {
            if let Some(x) = self.x_of_y(&y) {
                let c = self.mul(&(x, y.clone()), &self.q);
                if self.mul(&c, &big(4)) != self.zero() {
                    return (0..8).map(|k| self.mul(&c, &big(k))).collect();
                }
            }
            y = (y + big(1)) % p;
        }
    }
    /// boundary points: torsion, generator neighbourhood, generator plus torsion, points with small y
    pub fn points(&self, n: usize) -> Vec<BPt> {
        let mut v = self.torsion();
        let t = v.clone();
        let mut s = self.g.clone();
        for _ in 0..n {
            v.push(s.clone());
            v.push(self.neg(&s));
            s = self.add(&s, &self.g);
        }
        for k in [big(2), &self.q - big(1), &self.q - big(2), (&self.q - big(1)) / big(2), pow2(64), pow2(128) - big(1)].iter() {
            v.push(self.mul(&self.g, k));
        }
        for (i, x) in t.iter().enumerate() {
            v.push(self.add(x, &self.mul(&self.g, &big(i as u64 + 3))));
        }
        let mut y = big(2);
        while v.len() < 4 * n + 30 {
            if let Some(x) = self.x_of_y(&y) {
                v.push((x.clone(), y.clone()));
                v.push((sub_mod(&big(0), &x, &self.p), y.clone()));
            }
            y += big(1);
        }
        v
    }
}
pub fn sqrt_mod(a: &BigUint, p: &BigUint) -> Option<BigUint> {
    let one = big(1);
    if *a == big(0) {
        return Some(big(0));
    }
    if !is_square(a, p) {
        return None;
    }
    let mut q = p - &one;
    let mut s = 0;
    while &q % big(2) == big(0) {
        q = q >> 1;
        s += 1;
    }
    let mut z = big(2);
    while is_square(&z, p) {
        z += &one;
    }
    let (mut m, mut c, mut t, mut r) = (s, z.modpow(&q, p), a.modpow(&q, p), a.modpow(&((&q + &one) >> 1), p));
    while t != one {
        let mut i = 0;
        let mut tt = t.clone();
        while tt != one {
            tt = &tt * &tt % p;
            i += 1;
        }
        let b = c.modpow(&pow2(m - i - 1), p);
        m = i;
        c = &b * &b % p;
        t = t * &c % p;
        r = r * b % p;
    }
    Some(r)
}
pub fn bpt<F: Field>(a: &BPt) -> EdwardsPoint<F> {
    EdwardsPoint { x: num_of(&a.0), y: num_of(&a.1) }
}
pub fn bunpt<F: Field>(a: &EdwardsPoint<F>) -> BPt {
    (nbig(&a.x), nbig(&a.y))
}
