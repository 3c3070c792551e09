//! C13: circuit curve arithmetic.
use fawkes_crypto::circuit::bool::CBool;
use fawkes_crypto::circuit::ecc::{CEdwardsPoint, CMontgomeryPoint};
use fawkes_crypto::circuit::num::CNum;
use fawkes_crypto::core::cs::ConstraintSystem;
use fawkes_crypto::native::ecc::JubJubParams;
use fawkes_crypto::native::{bls12_381::JubJubBLS12_381, bn256::JubJubBN256};
use mc::big::*;
use mc::curve::*;
use mc::gad::Shape::*;
use mc::gad::*;
use mc::report::{run, Ctx};
use num::bigint::BigUint;

fn ep<'a, CS: ConstraintSystem>(x: &CNum<'a, CS>, y: &CNum<'a, CS>) -> CEdwardsPoint<'a, CS> {
    CEdwardsPoint { x: x.clone(), y: y.clone() }
}
fn mp<'a, CS: ConstraintSystem>(x: &CNum<'a, CS>, y: &CNum<'a, CS>) -> CMontgomeryPoint<'a, CS> {
    CMontgomeryPoint { x: x.clone(), y: y.clone() }
}
fn v2(p: Pt) -> Want {
    Want::Out(vec![p.0, p.1])
}

fn arith<const P: u64, const Q: u64>(ctx: &Ctx, j: &Jub<P, Q>, al: &[Shape], pairstep: usize) {
    let one: Vec<Vec<u64>> = j.pts.iter().map(|a| vec![a.0, a.1]).collect();
    let mont: Vec<Pt> = j.mont_points();
    let mone: Vec<Vec<u64>> = mont.iter().map(|a| vec![a.0, a.1]).collect();
    let pick = |k: usize, n: usize| (k * 7919 + k / n) % pairstep == 0;
    let mut pairs = vec![];
    for (i, a) in j.pts.iter().enumerate() {
        for (k, b) in j.pts.iter().enumerate() {
            if i == k || j.in_sub(*a) && j.in_sub(*b) && i < 20 || a.0 == b.0 || a.1 == b.1 || pick(i * j.pts.len() + k, j.pts.len()) {
                pairs.push(vec![a.0, a.1, b.0, b.1]);
            }
        }
    }
    let mut mpairs = vec![];
    for (i, a) in mont.iter().enumerate() {
        for (k, b) in mont.iter().enumerate() {
            if a.0 != b.0 && (pick(i * mont.len() + k, mont.len()) || a.0 == 0 || b.0 == 0) {
                mpairs.push(vec![a.0, a.1, b.0, b.1]);
            }
        }
    }
    ctx.note(format!("F{}: {} point pairs, {} Montgomery pairs", P, pairs.len(), mpairs.len()));
    let two = shape_tuples(al, 2);
    ctx.par(two.iter().map(|s| (format!("F{}/unary/{:?}", P, s), s.clone())).collect(), |sh| {
        relation::<P>(ctx, sh, &one, &|_, i| { let r = ep(&i[0], &i[1]).double(j); vec![r.x, r.y] }, &|x| v2(j.add((x[0], x[1]), (x[0], x[1]))))?;
        relation::<P>(ctx, sh, &one, &|_, i| { let r = ep(&i[0], &i[1]).mul_by_cofactor(j); vec![r.x, r.y] }, &|x| v2(j.mul((x[0], x[1]), 8)))?;
        relation::<P>(ctx, sh, &one, &|_, i| { let r = ep(&i[0], &i[1]).into_montgomery(); vec![r.x, r.y] },
            &|x| if x[0] == 0 { Want::Skip } else { v2(j.to_mont((x[0], x[1])).unwrap()) })?;
        relation::<P>(ctx, sh, &mone, &|_, i| { let r = mp(&i[0], &i[1]).into_edwards(); vec![r.x, r.y] }, &|x| v2(j.from_mont((x[0], x[1]))))?;
        relation::<P>(ctx, sh, &mone, &|_, i| { let r = mp(&i[0], &i[1]).double(j); vec![r.x, r.y] }, &|x| {
            if (x[0], x[1]) == (0, 0) { return Want::Skip; }
            let e = j.from_mont((x[0], x[1]));
            v2(j.to_mont(j.add(e, e)).unwrap())
        })
    });
    let four: Vec<Vec<Shape>> = {
        let mut v = vec![];
        for a in al {
            for b in al {
                v.push(vec![*a, *a, *b, *b]);
            }
        }
        for k in 0..4 {
            for a in [Const, ConstE, Dif].iter() {
                v.push((0..4).map(|i| if i == k { *a } else { Var }).collect());
            }
        }
        v
    };
    ctx.sample(format!("F{}/binary/{:?}", P, four[1]));
    // the Edwards image of every Montgomery point, once
    let back: std::collections::HashMap<Pt, Pt> = mont.iter().map(|m| (*m, j.from_mont(*m))).collect();
    ctx.par(four.iter().map(|s| (format!("F{}/binary/{:?}", P, s), s.clone())).collect(), |sh| {
        relation::<P>(ctx, sh, &pairs, &|_, i| { let r = ep(&i[0], &i[1]).add(&ep(&i[2], &i[3]), j); vec![r.x, r.y] }, &|x| v2(j.add((x[0], x[1]), (x[2], x[3]))))?;
        relation::<P>(ctx, sh, &mpairs, &|_, i| { let r = mp(&i[0], &i[1]).add(&mp(&i[2], &i[3]), j); vec![r.x, r.y] },
            &|x| v2(j.to_mont(j.add(back[&(x[0], x[1])], back[&(x[2], x[3])])).unwrap()))
    });
    // a point added to itself (the same signals)
    ctx.par(two.iter().map(|s| (format!("F{}/self/{:?}", P, s), s.clone())).collect(), |sh| {
        relation::<P>(ctx, sh, &one, &|_, i| { let e = ep(&i[0], &i[1]); let r = e.add(&e, j); vec![r.x, r.y] }, &|x| v2(j.add((x[0], x[1]), (x[0], x[1]))))
    });
}

fn mul<const P: u64, const Q: u64>(ctx: &Ctx, j: &Jub<P, Q>, maxlen: usize, al: &[Shape]) {
    let mut items = vec![];
    for len in 0..=maxlen {
        for b in al {
            for base in [vec![Const, Const], vec![Var, Var], vec![Dif, Inp], vec![Const, Var], vec![Var, Const], vec![ConstE, ConstE]].iter() {
                let mut sh = base.clone();
                sh.extend((0..len).map(|_| *b));
                items.push((format!("F{}/mul len {} base {:?} bits {:?}", P, len, base, b), (sh, len)));
            }
        }
        // mixed constness of the bits
        for k in 0..len {
            for base in [Const, Var].iter() {
                let mut sh = vec![*base, *base];
                sh.extend((0..len).map(|i| if i == k { Const } else { Var }));
                items.push((format!("F{}/mul len {} base {:?} const bit {}", P, len, base, k), (sh, len)));
            }
        }
    }
    ctx.sample(items[items.len() / 2].0.clone());
    // multiples of every subgroup point
    let top = 1u64 << maxlen;
    let table: Vec<Vec<Pt>> = j.sub.iter().map(|s| (0..top).scan((0, 1), |a, _| { let r = *a; *a = j.add(r, *s); Some(r) }).collect()).collect();
    ctx.par(items, |(sh, len)| {
        let mut dom = vec![];
        for s in &j.sub {
            for b in tuples(2, *len) {
                let mut t = vec![s.0, s.1];
                t.extend(b);
                dom.push(t);
            }
        }
        relation::<P>(ctx, sh, &dom, &|_, i| {
            let bits: Vec<CBool<_>> = i[2..].iter().map(|b| b.into_bool()).collect();
            let r = ep(&i[0], &i[1]).mul(&bits, j);
            vec![r.x, r.y]
        }, &|x| {
            let k = (0..*len).map(|i| x[2 + i] << i).sum::<u64>();
            let s = j.sub.iter().position(|s| *s == (x[0], x[1])).unwrap();
            v2(table[s][k as usize])
        })
    });
}

fn real<J: JubJubParams + Sync>(ctx: &Ctx, name: &str, j: &J) {
    let c = BigCurve::of(j);
    let pts = c.points(ctx.t(2, 10));
    let f = |x: &BigUint| felt::<J::Fr>(x);
    let fp = |a: &BPt| vec![felt::<J::Fr>(&a.0), felt::<J::Fr>(&a.1)];
    let shapes = [[RShape::Var; 2], [RShape::Const; 2], [RShape::Long(3), RShape::Inp], [RShape::Const, RShape::Var]];
    ctx.par(pts.iter().enumerate().map(|(i, a)| (format!("{}/point {}", name, i), (i, a.clone()))).collect(), |(i, a)| {
        for sh in shapes.iter() {
            let d = c.add(a, a);
            real_relation::<J::Fr>(ctx, sh, &fp(a), &|_, i| { let r = ep(&i[0], &i[1]).double(j); vec![r.x, r.y] }, Some(&fp(&d)), true)?;
            real_relation::<J::Fr>(ctx, sh, &fp(a), &|_, i| { let r = ep(&i[0], &i[1]).mul_by_cofactor(j); vec![r.x, r.y] }, Some(&fp(&c.mul(a, &big(8)))), true)?;
            if let Some(m) = c.to_mont(a) {
                if a.0 != big(0) {
                    real_relation::<J::Fr>(ctx, sh, &fp(a), &|_, i| { let r = ep(&i[0], &i[1]).into_montgomery(); vec![r.x, r.y] }, Some(&fp(&m)), true)?;
                    real_relation::<J::Fr>(ctx, sh, &fp(&m), &|_, i| { let r = mp(&i[0], &i[1]).double(j); vec![r.x, r.y] }, Some(&fp(&c.to_mont(&d).unwrap())), true)?;
                }
                real_relation::<J::Fr>(ctx, sh, &fp(&m), &|_, i| { let r = mp(&i[0], &i[1]).into_edwards(); vec![r.x, r.y] }, Some(&fp(a)), true)?;
            }
            for b in pts.iter().skip(*i % 3).step_by(3) {
                let s = c.add(a, b);
                let mut ins = fp(a);
                ins.extend(fp(b));
                let sh4 = [sh[0], sh[1], shapes[*i % 4][0], shapes[*i % 4][1]];
                real_relation::<J::Fr>(ctx, &sh4, &ins, &|_, i| { let r = ep(&i[0], &i[1]).add(&ep(&i[2], &i[3]), j); vec![r.x, r.y] }, Some(&fp(&s)), true)?;
                if let (Some(ma), Some(mb)) = (c.to_mont(a), c.to_mont(b)) {
                    if ma.0 != mb.0 {
                        let mut ins = fp(&ma);
                        ins.extend(fp(&mb));
                        real_relation::<J::Fr>(ctx, &sh4, &ins, &|_, i| { let r = mp(&i[0], &i[1]).add(&mp(&i[2], &i[3]), j); vec![r.x, r.y] }, Some(&fp(&c.to_mont(&s).unwrap())), true)?;
                    }
                }
            }
        }
        Ok(())
    });
    // scalar multiplication over full-width bit vectors
    let subs: Vec<BPt> = vec![c.g.clone(), c.zero(), c.mul(&c.g, &(&c.q - big(1))), c.mul(&c.g, &big(2)), c.mul(&c.g, &(pow2(100) + big(9)))];
    let w = c.p.bits();
    let ws = c.q.bits();
    let mut scal: Vec<(usize, BigUint)> = vec![];
    for v in [big(0), big(1), big(2), big(7), big(8), &c.q - big(1), c.q.clone(), &c.q + big(1), &c.p - big(1), pow2(w) - big(1), (pow2(w) - big(1)) / big(3)].iter() {
        scal.push((w, v.clone()));
        if v.bits() <= ws {
            scal.push((ws, v.clone()));
        }
    }
    for (l, v) in [(0usize, 0u64), (1, 0), (1, 1), (2, 3), (3, 5), (4, 15), (5, 16), (64, u64::max_value())].iter() {
        scal.push((*l, big(*v)));
    }
    // every length near a window or word boundary
    let lens: Vec<usize> = if ctx.quick() { vec![6, 7, 8, 9, 10, 12, 15, 16, 17, 31, 33, 63, 64, 65, 127, 128, 129, 193, 250, 253, 255, 256, 257, 258, 300] } else { (6..=300).collect() };
    let lmul: Vec<_> = lens.iter().map(|l| (format!("{}/mul len {}", name, l), *l)).collect();
    ctx.par(lmul, |l| {
        for (k, v) in [pow2(*l) - big(1), pow2(*l - 1) + big(2)].iter().enumerate() {
            let s = &subs[[0, 3][(k + l) % 2]];
            for sh in [RShape::Var, RShape::Const]
                .iter()
                .skip(if *l < 250 { l % 2 } else { 0 })
                .step_by(if *l < 250 { ctx.t(2, 1) } else { 1 })
            {
                let mut ins = fp(s);
                ins.extend((0..*l).map(|i| f(&((v >> i) & big(1)))));
                let mut shs = vec![*sh, *sh];
                shs.extend(vec![RShape::Var; *l]);
                real_relation::<J::Fr>(ctx, &shs, &ins, &|_, i| {
                    let bits: Vec<CBool<_>> = i[2..].iter().map(|b| b.into_bool()).collect();
                    let r = ep(&i[0], &i[1]).mul(&bits, j);
                    vec![r.x, r.y]
                }, Some(&fp(&c.mul(s, v))), true)?;
                ctx.beat();
            }
        }
        Ok(())
    });
    let mut items = vec![];
    for (k, s) in subs.iter().enumerate() {
        for (l, v) in scal.iter().step_by(if k > 1 { ctx.t(5, 1) } else { ctx.t(2, 1) }) {
            for (q, sh) in [RShape::Var, RShape::Const].iter().enumerate() {
                items.push((format!("{}/mul base {} len {} scalar {:x} {:?}", name, k, l, v, sh), (s.clone(), *l, v.clone(), *sh, q)));
            }
        }
    }
    ctx.par(items, |(s, l, v, sh, _)| {
        let mut ins = fp(s);
        ins.extend((0..*l).map(|i| f(&((v >> i) & big(1)))));
        let want = fp(&c.mul(s, v));
        let mut shs = vec![*sh, *sh];
        shs.extend(vec![RShape::Var; *l]);
        real_relation::<J::Fr>(ctx, &shs, &ins, &|_, i| {
            let bits: Vec<CBool<_>> = i[2..].iter().map(|b| b.into_bool()).collect();
            let r = ep(&i[0], &i[1]).mul(&bits, j);
            vec![r.x, r.y]
        }, Some(&want), true)?;
        ctx.beat();
        Ok(())
    });
}

fn main() {
    run(
        "C13",
        &[
            "domains as stated in the code: Edwards operations on curve points; Montgomery conversion of points with x != 0, Montgomery doubling of points other than (0,0), Montgomery addition of points with distinct x; scalar multiplication of subgroup points by bits",
            "complete witness spaces on small curves; production curves at boundary points and scalars",
        ],
        true,
        |ctx| {
            let al = [Var, Inp, Dif, Const];
            let al2 = [Var, Inp, Aff(2, 1), Dif, Tri, Const, ConstE];
            arith(ctx, &curve_a(), if ctx.quick() { &al } else { &al2 }, ctx.t(7, 1));
            if ctx.quick() {
                arith(ctx, &curve_a(), &[Var], 1);
            }
            arith(ctx, &curve_c(), &[Var, Const], ctx.t(41, 1));
            mul(ctx, &curve_a(), ctx.t(7, 10), if ctx.quick() { &[Var, Const] } else { &[Var, Inp, Aff(2, 1), Dif, Const, ConstE] });
            mul(ctx, &curve_c(), ctx.t(4, 9), &[Var, Const]);
            if ctx.thorough() {
                arith(ctx, &curve_b(), &al, 3);
                arith(ctx, &curve_d(), &[Var, Const], 13);
                mul(ctx, &curve_b(), 8, &[Var, Const]);
                mul(ctx, &curve_d(), 8, &[Var, Const]);
            }
            real(ctx, "bn256", &JubJubBN256::new());
            real(ctx, "bls12_381", &JubJubBLS12_381::new());
        },
    );
}
