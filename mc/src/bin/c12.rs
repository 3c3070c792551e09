//! C12: native membership, decompression, derivation.
use fawkes_crypto::core::field::Field;
use fawkes_crypto::native::ecc::{EdwardsPoint, EdwardsPointEx, JubJubParams, MontgomeryPoint};
use fawkes_crypto::native::num::Num;
use fawkes_crypto::native::{bls12_381::JubJubBLS12_381, bn256::JubJubBN256};
use mc::big::*;
use mc::curve::*;
use mc::ensure;
use mc::fp::Fp;
use mc::report::{run, Ctx, Res};
use num::bigint::BigUint;
use rand::Rng;

/// a scripted source of randomness
struct Script(Vec<u32>, usize);
impl Rng for Script {
    fn next_u32(&mut self) -> u32 {
        let v = self.0[self.1 % self.0.len()];
        self.1 += 1;
        // after the script has been used twice, fall back to a counter so that rejection ends
        if self.1 > 2 * self.0.len() {
            v.wrapping_add((self.1 as u32).wrapping_mul(0x9E37_79B9))
        } else {
            v
        }
    }
}

fn tiny<const P: u64, const Q: u64>(ctx: &Ctx, j: &Jub<P, Q>, quads: bool) {
    let n = |v: u64| Num(Fp::<P>(v));
    ctx.par((0..P).map(|x| (format!("F{}/x={}", P, x), x)).collect(), |&x| {
        for y in 0..P {
            let e = pt::<P>((x, y));
            let on = j.on_curve((x, y));
            ensure!(e.is_in_curve(j) == on, "is_in_curve {:?}", (x, y));
            // every projective representative, with every auxiliary coordinate
            if quads {
                for z in 0..P {
                    for t in 0..P {
                        let q = EdwardsPointEx { x: n(x), y: n(y), t: n(t), z: n(z) };
                        let want = z != 0 && z * t % P == x * y % P && {
                            let zi = inv(z, P);
                            j.on_curve((x * zi % P, y * zi % P))
                        };
                        ensure!(q.is_in_curve(j) == want, "extended is_in_curve {:?}", (x, y, t, z));
                    }
                }
                ctx.point(P * P);
            }
            if on {
                for z in 1..P {
                    ensure!(ext::<P>((x, y), z).is_in_curve(j), "extended member {:?} z={} rejected", (x, y), z);
                    ensure!(ext::<P>((x, y), z).is_in_subgroup(j) == j.in_sub((x, y)), "is_in_subgroup {:?} z={}", (x, y), z);
                    ctx.point(2);
                }
                // Montgomery and back
                let m = e.into_montgomery().map(|m| (m.x.0 .0, m.y.0 .0));
                ensure!(m == j.to_mont((x, y)), "into_montgomery {:?}: {:?}", (x, y), m);
                for z in 1..P {
                    let m2 = ext::<P>((x, y), z).into_montgomery().map(|m| (m.x.0 .0, m.y.0 .0));
                    ensure!(m2 == m, "extended into_montgomery {:?} z={}", (x, y), z);
                }
                if let Some(m) = m {
                    let mp = MontgomeryPoint { x: n(m.0), y: n(m.1) };
                    ensure!(unpt(&mp.into_affine()) == (x, y), "montgomery into_affine {:?}", m);
                    let e = mp.into_extended();
                    ensure!(unpt(&e.into_affine()) == (x, y) && e.is_in_curve(j), "montgomery into_extended {:?}", m);
                }
                ctx.point(P + 2);
            }
        }
        let r = EdwardsPoint::subgroup_decompress(n(x), j).map(|p| unpt(&p));
        ensure!(r == j.lift_x(x), "subgroup_decompress({}) = {:?}, want {:?}", x, r, j.lift_x(x));
        // from y (here x plays y)
        let y = x;
        for sign in [false, true].iter() {
            let r = EdwardsPoint::get_for_y(n(y), *sign, j).map(|p| unpt(&p));
            let xs: Vec<u64> = j.pts.iter().filter(|q| q.1 == y).map(|q| q.0).collect();
            let want = xs.iter().cloned().find(|v| (v % 2 == 1) == *sign).or(xs.iter().cloned().find(|v| *v == 0)).map(|v| (v, y));
            ensure!(r == want, "get_for_y({}, {}) = {:?}, want {:?}", y, sign, r, want);
        }
        if let Some(w) = j.from_scalar(x) {
            let r = unpt(&EdwardsPoint::from_scalar(n(x), j));
            ensure!(r == w, "from_scalar({}) = {:?}, want {:?}", x, r, w);
            let r = unpt(&EdwardsPoint::from_scalar_raw(n(x), n(j.ma), n(j.mb), n(j.u)));
            ensure!(r == w, "from_scalar_raw({}) = {:?}, want {:?}", x, r, w);
            ensure!(j.in_sub(w), "model");
        }
        ctx.point(5);
        ctx.beat();
        Ok(())
    });
    ctx.case(&format!("F{}/montgomery bijection", P), || -> Res {
        let ms = j.mont_points();
        ensure!(ms.len() + 1 == j.pts.len(), "model count");
        let mut seen = std::collections::BTreeSet::new();
        for m in ms {
            let e = unpt(&MontgomeryPoint { x: n(m.0), y: n(m.1) }.into_affine());
            ensure!(j.on_curve(e) && e != (0, 1), "montgomery {:?} maps to {:?}", m, e);
            ensure!(seen.insert(e), "montgomery map is not injective at {:?}", m);
            ensure!(j.to_mont(e) == Some(m), "montgomery {:?} maps to {:?}", m, e);
            ctx.point(1);
        }
        Ok(())
    });
    // randomness: every pair of first words
    ctx.par((0..P as u32 + 3).map(|a| (format!("F{}/rand {}", P, a), a)).collect(), |&a| {
        for b in 0..P as u32 + 3 {
            for s in [0u32, 1, u32::max_value()].iter() {
                let mut rng = Script(vec![a, b, *s, b], 0);
                let e = unpt(&EdwardsPoint::rand(&mut rng, j));
                ensure!(j.on_curve(e), "rand gave {:?} off the curve", e);
                ctx.point(1);
            }
        }
        Ok(())
    });
}

fn real<J: JubJubParams + Sync>(ctx: &Ctx, name: &str, j: &J) {
    let c = BigCurve::of(j);
    let al = alphabet::<J::Fr>(ctx.thorough());
    let pts = c.points(ctx.t(6, 30));
    ctx.par(al.iter().enumerate().map(|(i, a)| (format!("{}/value {}", name, i), a.clone())).collect(), |a| {
        let na: Num<J::Fr> = num_of(a);
        let r = EdwardsPoint::subgroup_decompress(na, j).map(|p| bunpt(&p));
        ensure!(r == c.lift_x(a), "subgroup_decompress({}) = {:?}", a, r);
        for sign in [false, true].iter() {
            let r = EdwardsPoint::get_for_y(na, *sign, j).map(|p| bunpt(&p));
            let want = c.x_of_y(a).map(|x| {
                let odd = &x % big(2) == big(1);
                (if odd == *sign { x } else { sub_mod(&big(0), &x, &c.p) }, a.clone())
            });
            ensure!(r == want, "get_for_y({}, {}) = {:?} want {:?}", a, sign, r, want);
        }
        if (a + big(1)) % &c.p != big(0) {
            let r = bunpt(&EdwardsPoint::from_scalar(na, j));
            ensure!(r == c.from_scalar(a), "from_scalar({}) = {:?}", a, r);
            ensure!(EdwardsPoint::from_scalar(na, j).into_extended().is_in_subgroup(j), "from_scalar({}) not in subgroup", a);
        }
        ctx.point(5);
        Ok(())
    });
    ctx.par(pts.iter().enumerate().map(|(i, a)| (format!("{}/point {}", name, i), a.clone())).collect(), |a| {
        let e = bpt::<J::Fr>(a);
        ensure!(e.is_in_curve(j), "member rejected {:?}", a);
        let sub = c.mul(a, &c.q) == c.zero();
        let p = &c.p;
        for z in [big(1), big(2), p - big(1), pow2(130) + big(7)].iter() {
            let ex = EdwardsPointEx::<J::Fr> { x: num_of(&(&a.0 * z % p)), y: num_of(&(&a.1 * z % p)), t: num_of(&(&a.0 * &a.1 % p * z % p)), z: num_of(z) };
            ensure!(ex.is_in_curve(j), "extended member rejected");
            ensure!(ex.is_in_subgroup(j) == sub, "is_in_subgroup {:?}", a);
            // each coordinate off by one; zero z
            for k in 0..4 {
                let mut b = ex;
                match k { 0 => b.x += Num::one(), 1 => b.y += Num::one(), 2 => b.t += Num::one(), _ => b.z += Num::one() }
                let zz = nbig(&b.z);
                let want = zz != big(0) && {
                    let zi = inv_mod(&zz, p);
                    nbig(&b.x) * nbig(&b.y) % p == nbig(&b.t) * &zz % p && c.on_curve(&(nbig(&b.x) * &zi % p, nbig(&b.y) * &zi % p))
                };
                ensure!(b.is_in_curve(j) == want, "extended non-member accepted ({})", k);
            }
            let b = EdwardsPointEx::<J::Fr> { z: Num::zero(), ..ex };
            ensure!(!b.is_in_curve(j), "z = 0 accepted");
            ctx.point(7);
        }
        for (dx, dy) in [(1u64, 0u64), (0, 1), (1, 1)].iter() {
            let b = ((&a.0 + big(*dx)) % p, (&a.1 + big(*dy)) % p);
            ensure!(bpt::<J::Fr>(&b).is_in_curve(j) == c.on_curve(&b), "is_in_curve {:?}", b);
        }
        let m = e.into_montgomery();
        ensure!(m.map(|m| (nbig(&m.x), nbig(&m.y))) == c.to_mont(a), "into_montgomery {:?}", a);
        if let Some(m) = m {
            ensure!(bunpt(&m.into_affine()) == *a, "montgomery round trip {:?}", a);
            ensure!(bunpt(&m.into_extended().into_affine()) == *a, "montgomery extended round trip {:?}", a);
        }
        let r = EdwardsPoint::subgroup_decompress(e.x, j).map(|p| bunpt(&p));
        ensure!(r == c.lift_x(&a.0), "subgroup_decompress of the x of {:?}", a);
        ctx.point(6);
        Ok(())
    });
    ctx.par((0..ctx.t(40u32, 400)).map(|i| (format!("{}/rand {}", name, i), i)).collect(), |i| {
        let words: Vec<u32> = (0..11u32).map(|k| match i % 4 { 0 => 0, 1 => u32::max_value() - (k == i / 4) as u32, 2 => i.wrapping_mul(k), _ => (k == i / 4) as u32 }).collect();
        let e = bunpt(&EdwardsPoint::rand(&mut Script(words, 0), j));
        ensure!(c.on_curve(&e), "rand off curve");
        ctx.point(1);
        Ok(())
    });
    let _ = BigUint::from(0u32);
}

fn main() {
    run(
        "C12",
        &["complete coordinate spaces of small curves; boundary coordinates and all torsion points on the production curves", "from_scalar: argument other than -1"],
        true,
        |ctx| {
            tiny(ctx, &curve_a(), true);
            tiny(ctx, &curve_c(), ctx.thorough());
            if ctx.thorough() {
                tiny(ctx, &curve_b(), true);
                tiny(ctx, &curve_d(), false);
            }
            real(ctx, "bn256", &JubJubBN256::new());
            real(ctx, "bls12_381", &JubJubBLS12_381::new());
        },
    );
}
