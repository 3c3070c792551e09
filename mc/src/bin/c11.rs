//! C11: the native twisted Edwards group.
use fawkes_crypto::core::field::Field;
use fawkes_crypto::native::ecc::{EdwardsPoint, EdwardsPointEx, JubJubParams};
use fawkes_crypto::native::num::Num;
use fawkes_crypto::native::{bls12_381::JubJubBLS12_381, bn256::JubJubBN256};
use mc::big::*;
use mc::curve::*;
use mc::ensure;
use mc::fp::Fp;
use mc::report::{run, Ctx, Res};
use num::bigint::BigUint;

fn consistent<const P: u64>(e: &EdwardsPointEx<Fp<P>>, want: Pt, what: &dyn Fn() -> String) -> Res {
    let (x, y, t, z) = (e.x.0 .0, e.y.0 .0, e.t.0 .0, e.z.0 .0);
    ensure!(z != 0, "{}: z = 0", what());
    ensure!(want.0 * z % P == x && want.1 * z % P == y, "{}: {:?} is not {:?}", what(), (x, y, t, z), want);
    ensure!(t * z % P == x * y % P, "{}: inconsistent t in {:?}", what(), (x, y, t, z));
    Ok(())
}

fn tiny<const P: u64, const Q: u64>(ctx: &Ctx, j: &Jub<P, Q>, zs: &[u64]) {
    let n = j.pts.len();
    ctx.par((0..n).map(|i| (format!("F{}/point {:?}", P, j.pts[i]), j.pts[i])).collect(), |&a| {
        // unary, all representatives
        ensure!(unpt(&pt::<P>(a).into_extended().into_affine()) == a, "into_extended/into_affine {:?}", a);
        consistent(&pt::<P>(a).into_extended(), a, &|| format!("extended {:?}", a))?;
        let (d, c) = (j.add(a, a), j.mul(a, 8));
        ensure!(unpt(&pt::<P>(a).double()) == d, "affine double {:?}", a);
        ensure!(unpt(&pt::<P>(a).mul_by_cofactor()) == c, "affine cofactor {:?}", a);
        ensure!(j.in_sub(c), "model: cofactor multiple not in subgroup");
        ensure!(pt::<P>(a).mul_by_cofactor().into_extended().is_in_subgroup(j), "cofactor multiple of {:?} not in subgroup", a);
        ensure!(pt::<P>(a).is_zero() == (a == (0, 1)), "affine is_zero {:?}", a);
        let muls: Vec<Pt> = (0..Q).scan((0, 1), |s, _| { let r = *s; *s = j.add(r, a); Some(r) }).collect();
        for z in 1..P {
            let e = ext::<P>(a, z);
            let w = || format!("{:?} z={}", a, z);
            ensure!(unpt(&e.into_affine()) == a, "into_affine {}", w());
            consistent(&e.double(), d, &|| format!("double {}", w()))?;
            consistent(&e.negate(), j.neg(a), &|| format!("negate {}", w()))?;
            consistent(&e.mul_by_cofactor(), c, &|| format!("cofactor {}", w()))?;
            ensure!(e.is_zero() == (a == (0, 1)), "is_zero {}", w());
            ctx.point(5);
            for k in 0..Q {
                if zs.contains(&z) || k < 3 {
                    consistent(&e.mul(Num(Fp::<Q>(k)), j), muls[k as usize], &|| format!("{} * {}", k, w()))?;
                    ctx.point(1);
                }
            }
        }
        for k in 0..Q {
            ensure!(unpt(&pt::<P>(a).mul(Num(Fp::<Q>(k)), j)) == muls[k as usize], "affine {} * {:?}", k, a);
        }
        // pairs
        for b in j.pts.iter().cloned() {
            let s = j.add(a, b);
            ensure!(unpt(&pt::<P>(a).add(&pt::<P>(b), j)) == s, "affine {:?} + {:?}", a, b);
            ensure!((pt::<P>(a) == pt::<P>(b)) == (a == b), "affine equality {:?} {:?}", a, b);
            for z in zs.iter() {
                let e = ext::<P>(a, *z);
                for v in zs.iter() {
                    let f = ext::<P>(b, *v);
                    consistent(&e.add(&f, j), s, &|| format!("{:?} z={} + {:?} z={}", a, z, b, v))?;
                    ensure!((e == f) == (a == b), "equality of {:?} z={} and {:?} z={}", a, z, b, v);
                }
            }
            ctx.point((zs.len() * zs.len()) as u64);
        }
        ctx.beat();
        Ok(())
    });
    ctx.case(&format!("F{}/constants", P), || -> Res {
        ensure!(unpt(&EdwardsPoint::<Fp<P>>::zero()) == (0, 1), "zero");
        consistent(&EdwardsPointEx::<Fp<P>>::zero(), (0, 1), &|| "extended zero".into())?;
        Ok(())
    });
}

fn bcons<F: Field>(c: &BigCurve, e: &EdwardsPointEx<F>, want: &BPt, what: &dyn Fn() -> String) -> Res {
    let (x, y, t, z) = (nbig(&e.x), nbig(&e.y), nbig(&e.t), nbig(&e.z));
    ensure!(z != big(0), "{}: z = 0", what());
    ensure!(&want.0 * &z % &c.p == x && &want.1 * &z % &c.p == y, "{}: wrong point", what());
    ensure!(&t * &z % &c.p == &x * &y % &c.p, "{}: inconsistent t", what());
    Ok(())
}
fn bext<F: Field>(c: &BigCurve, a: &BPt, z: &BigUint) -> EdwardsPointEx<F> {
    EdwardsPointEx {
        x: num_of(&(&a.0 * z % &c.p)),
        y: num_of(&(&a.1 * z % &c.p)),
        t: num_of(&(&a.0 * &a.1 % &c.p * z % &c.p)),
        z: num_of(z),
    }
}
fn real<J: JubJubParams + Sync>(ctx: &Ctx, name: &str, j: &J)
where
    J::Fr: Sync,
{
    let c = BigCurve::of(j);
    let pts = c.points(ctx.t(4, 20));
    let scal: Vec<BigUint> = alphabet::<J::Fs>(ctx.thorough()).into_iter().step_by(ctx.t(6, 1)).collect();
    let zs: Vec<BigUint> = vec![big(1), big(2), &c.p - big(1), pow2(64), pow2(200) + big(3)];
    ctx.par(pts.iter().enumerate().map(|(i, a)| (format!("{}/point {}", name, i), a.clone())).collect(), |a| {
        let lp = bpt::<J::Fr>(a);
        let (d, c8) = (c.add(a, a), c.mul(a, &big(8)));
        ensure!(c.on_curve(a), "model point off curve");
        ensure!(bunpt(&lp.double()) == d, "double {:?}", a);
        ensure!(bunpt(&lp.mul_by_cofactor()) == c8, "cofactor {:?}", a);
        ensure!(lp.mul_by_cofactor().into_extended().is_in_subgroup(j), "cofactor multiple of {:?} not in subgroup", a);
        ensure!(lp.is_zero() == (*a == c.zero()), "is_zero");
        for z in &zs {
            let e = bext::<J::Fr>(&c, a, z);
            ensure!(bunpt(&e.into_affine()) == *a, "into_affine {:?} {}", a, z);
            bcons(&c, &e.double(), &d, &|| format!("double {:?} {}", a, z))?;
            bcons(&c, &e.negate(), &c.neg(a), &|| format!("negate {:?} {}", a, z))?;
            bcons(&c, &e.mul_by_cofactor(), &c8, &|| format!("cofactor {:?} {}", a, z))?;
            ensure!(e.is_zero() == (*a == c.zero()), "is_zero {:?} {}", a, z);
            ctx.point(5);
        }
        for (i, k) in scal.iter().enumerate() {
            let w = c.mul(a, k);
            ensure!(bunpt(&lp.mul(num_of(k), j)) == w, "{} * {:?}", k, a);
            bcons(&c, &bext::<J::Fr>(&c, a, &zs[i % zs.len()]).mul(num_of(k), j), &w, &|| format!("{} * {:?}", k, a))?;
            ctx.point(2);
        }
        for (i, b) in pts.iter().enumerate() {
            let s = c.add(a, b);
            ensure!(bunpt(&lp.add(&bpt(b), j)) == s, "{:?} + {:?}", a, b);
            ensure!((lp == bpt(b)) == (a == b), "equality {:?} {:?}", a, b);
            for (k, z) in zs.iter().enumerate() {
                let (e, f) = (bext::<J::Fr>(&c, a, z), bext::<J::Fr>(&c, b, &zs[(k + i + 1) % zs.len()]));
                bcons(&c, &e.add(&f, j), &s, &|| format!("{:?} + {:?}", a, b))?;
                ensure!((e == f) == (a == b), "projective equality {:?} {:?}", a, b);
            }
            ctx.point(6);
        }
        ctx.beat();
        Ok(())
    });
}

fn main() {
    run(
        "C11",
        &["complete curves over small fields; on the production curves all torsion points and a boundary set of points, scalars and representatives"],
        true,
        |ctx| {
            let all = |p: u64| (1..p).collect::<Vec<u64>>();
            tiny(ctx, &curve_a(), &if ctx.quick() { vec![1, 2, 5, 36, 71, 72] } else { all(73) });
            tiny(ctx, &curve_c(), &if ctx.quick() { vec![1, 3, 136] } else { all(137) });
            if ctx.thorough() {
                tiny(ctx, &curve_b(), &all(101));
                tiny(ctx, &curve_d(), &[1, 2, 3, 100, 227, 228]);
            }
            real(ctx, "bn256", &JubJubBN256::new());
            real(ctx, "bls12_381", &JubJubBLS12_381::new());
        },
    );
}
