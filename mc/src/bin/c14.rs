//! C14: circuit membership, decompression, derivation.
use fawkes_crypto::circuit::ecc::CEdwardsPoint;
use fawkes_crypto::circuit::num::CNum;
use fawkes_crypto::core::cs::ConstraintSystem;
use fawkes_crypto::native::ecc::JubJubParams;
use fawkes_crypto::native::{bls12_381::JubJubBLS12_381, bn256::JubJubBN256};
use mc::big::*;
use mc::curve::*;
use mc::gad::Shape::*;
use mc::gad::*;
use mc::report::{run, Ctx};
use num::bigint::BigUint;

fn ep<'a, CS: ConstraintSystem>(x: &CNum<'a, CS>, y: &CNum<'a, CS>) -> CEdwardsPoint<'a, CS> {
    CEdwardsPoint { x: x.clone(), y: y.clone() }
}

fn tiny<const P: u64, const Q: u64>(ctx: &Ctx, j: &Jub<P, Q>, al: &[Shape], allsub: bool) {
    let all = tuples(P, 2);
    // candidates of the subgroup check: every curve point, every coordinate next to one, all pairs when asked
    let cand: Vec<Vec<u64>> = all.iter().filter(|x| allsub || j.on_curve((x[0], x[1])) || j.on_curve(((x[0] + 1) % P, x[1])) || j.on_curve((x[0], (x[1] + 1) % P))).cloned().collect();
    let ones: Vec<Vec<u64>> = (0..P).map(|x| vec![x]).collect();
    let mut items = vec![];
    for sh in shape_tuples(al, 2) {
        items.push((format!("F{}/curve {:?}", P, sh), (0, sh.clone())));
        items.push((format!("F{}/subgroup {:?}", P, sh), (1, sh)));
    }
    for s in al {
        items.push((format!("F{}/decompress {:?}", P, s), (2, vec![*s])));
        items.push((format!("F{}/from_scalar {:?}", P, s), (3, vec![*s])));
    }
    ctx.sample(items[1].0.clone());
    let lifts: Vec<Option<Pt>> = (0..P).map(|x| j.lift_x(x)).collect();
    let scal: Vec<Option<Pt>> = (0..P).map(|x| j.from_scalar(x)).collect();
    ctx.par(items, |(k, sh)| match k {
        0 => relation::<P>(ctx, sh, &all, &|_, i| { ep(&i[0], &i[1]).assert_in_curve(j); vec![] }, &|x| {
            let on = j.on_curve((x[0], x[1]));
            // an off-curve constant is an unsatisfiable constraint, not a panic
            if !on && sh.iter().all(|s| s.is_const()) { Want::Skip } else { sat_if(on) }
        }),
        1 => relation::<P>(ctx, sh, &cand, &|_, i| { ep(&i[0], &i[1]).assert_in_subgroup(j); vec![] }, &|x| {
            let on = j.in_sub((x[0], x[1]));
            if !on && sh.iter().all(|s| s.is_const()) { Want::Skip } else { sat_if(on) }
        }),
        2 => relation::<P>(ctx, sh, &ones, &|_, i| { let r = CEdwardsPoint::subgroup_decompress(&i[0], j); vec![r.x, r.y] }, &|x| match lifts[x[0] as usize] {
            Some(p) => Want::Out(vec![p.0, p.1]),
            None if sh[0].is_const() => Want::Skip,
            None => Want::Unsat,
        }),
        _ => relation::<P>(ctx, sh, &ones, &|_, i| { let r = CEdwardsPoint::from_scalar(&i[0], j); vec![r.x, r.y] }, &|x| match scal[x[0] as usize] {
            Some(p) => Want::Out(vec![p.0, p.1]),
            None => Want::Skip,
        }),
    });
    // constants outside: the emitted constraints must still be unsatisfiable
    ctx.par((0..P).map(|x| (format!("F{}/constant x={}", P, x), x)).collect(), |&x| {
        for y in 0..P {
            let (on, sub) = (j.on_curve((x, y)), j.in_sub((x, y)));
            for c in [Const, ConstE].iter() {
                if !on {
                    const_unsat::<P>(ctx, &[*c; 2], &[x, y], &|i| { ep(&i[0], &i[1]).assert_in_curve(j); vec![] })?;
                }
                if !sub && (allsub || on) {
                    const_unsat::<P>(ctx, &[*c; 2], &[x, y], &|i| { ep(&i[0], &i[1]).assert_in_subgroup(j); vec![] })?;
                }
            }
        }
        if lifts[x as usize].is_none() {
            const_unsat::<P>(ctx, &[Const], &[x], &|i| { let r = CEdwardsPoint::subgroup_decompress(&i[0], j); vec![r.x, r.y] })?;
        }
        ctx.beat();
        Ok(())
    });
}

/// no satisfying assignment for constant operands (a panic at synthesis counts as rejection)
fn const_unsat<const P: u64>(ctx: &Ctx, sh: &[Shape], x: &[u64], build: &dyn for<'a> Fn(&[Sig<'a, P>]) -> Vec<Sig<'a, P>>) -> mc::report::Res {
    // a dummy variable operand turns off the all-constant panic requirement
    let mut shs = sh.to_vec();
    shs.push(Var);
    let mut v = x.to_vec();
    v.push(1);
    relation::<P>(ctx, &shs, &[v], &|_, i| build(&i[..sh.len()]), &|_| Want::Unsat)
}

fn real<J: JubJubParams + Sync>(ctx: &Ctx, name: &str, j: &J) {
    let c = BigCurve::of(j);
    let pts = c.points(ctx.t(2, 12));
    let fp = |a: &BPt| vec![felt::<J::Fr>(&a.0), felt::<J::Fr>(&a.1)];
    let shapes = [[RShape::Var; 2], [RShape::Long(3), RShape::Inp], [RShape::Const, RShape::Var], [RShape::Const; 2]];
    ctx.par(pts.iter().enumerate().map(|(i, a)| (format!("{}/point {}", name, i), a.clone())).collect(), |a| {
        let sub = c.mul(a, &c.q) == c.zero();
        for (k, sh) in shapes.iter().enumerate() {
            real_relation::<J::Fr>(ctx, sh, &fp(a), &|_, i| { ep(&i[0], &i[1]).assert_in_curve(j); vec![] }, Some(&[]), true)?;
            if sub {
                real_relation::<J::Fr>(ctx, sh, &fp(a), &|_, i| { ep(&i[0], &i[1]).assert_in_subgroup(j); vec![] }, Some(&[]), k == 0)?;
                real_relation::<J::Fr>(ctx, &sh[..1], &fp(a)[..1], &|_, i| { let r = CEdwardsPoint::subgroup_decompress(&i[0], j); vec![r.x, r.y] }, Some(&fp(a)), k == 0)?;
            } else if k < 3 {
                real_relation::<J::Fr>(ctx, sh, &fp(a), &|_, i| { ep(&i[0], &i[1]).assert_in_subgroup(j); vec![] }, None, k == 0)?;
                if sh[0] != RShape::Const && c.lift_x(&a.0).is_none() {
                    real_relation::<J::Fr>(ctx, &sh[..1], &fp(a)[..1], &|_, i| { let r = CEdwardsPoint::subgroup_decompress(&i[0], j); vec![r.x, r.y] }, None, k == 0)?;
                }
            }
            // neighbours off the curve
            if k < 3 {
                for (dx, dy) in [(1u64, 0u64), (0, 1)].iter() {
                    let b = ((&a.0 + big(*dx)) % &c.p, (&a.1 + big(*dy)) % &c.p);
                    if !c.on_curve(&b) {
                        real_relation::<J::Fr>(ctx, sh, &fp(&b), &|_, i| { ep(&i[0], &i[1]).assert_in_curve(j); vec![] }, None, true)?;
                        real_relation::<J::Fr>(ctx, sh, &fp(&b), &|_, i| { ep(&i[0], &i[1]).assert_in_subgroup(j); vec![] }, None, false)?;
                    }
                }
            }
        }
        ctx.beat();
        Ok(())
    });
    let al: Vec<BigUint> = alphabet::<J::Fr>(false).into_iter().filter(|t| (t + big(1)) % &c.p != big(0)).step_by(ctx.t(6, 1)).collect();
    ctx.par(al.iter().enumerate().map(|(i, a)| (format!("{}/from_scalar {}", name, i), (i, a.clone()))).collect(), |(i, t)| {
        let w = fp(&c.from_scalar(t));
        for (k, sh) in [RShape::Var, RShape::Const, RShape::Long(2)].iter().enumerate() {
            real_relation::<J::Fr>(ctx, &[*sh], &[felt(t)], &|_, i| { let r = CEdwardsPoint::from_scalar(&i[0], j); vec![r.x, r.y] }, Some(&w), k == 0 && (i % 4 == 0 || ctx.thorough()))?;
        }
        ctx.beat();
        Ok(())
    });
}

fn main() {
    run(
        "C14",
        &["complete witness spaces (including the nondeterministic preimages) on small curves; production curves: honest assignments and shapes at boundary points, witness space decided where case splitting ends", "from_scalar: argument other than -1"],
        true,
        |ctx| {
            tiny(ctx, &curve_a(), if ctx.quick() { &[Var, Dif, Const] } else { &[Var, Inp, Aff(2, 1), Dif, Tri, Const, ConstE] }, ctx.thorough());
            tiny(ctx, &curve_c(), &[Var, Const], false);
            if ctx.thorough() {
                tiny(ctx, &curve_b(), &[Var, Dif, Const], true);
                tiny(ctx, &curve_d(), &[Var], false);
            }
            real(ctx, "bn256", &JubJubBN256::new());
            real(ctx, "bls12_381", &JubJubBLS12_381::new());
        },
    );
}
