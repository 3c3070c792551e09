//! C16: circuit EdDSA verification.
use fawkes_crypto::circuit::eddsaposeidon::c_eddsaposeidon_verify;
use fawkes_crypto::circuit::num::CNum;
use fawkes_crypto::core::field::PrimeField;
use fawkes_crypto::native::ecc::JubJubParams;
use fawkes_crypto::native::eddsaposeidon::{eddsaposeidon_sign, eddsaposeidon_verify};
use fawkes_crypto::native::num::Num;
use fawkes_crypto::native::poseidon::PoseidonParams;
use fawkes_crypto::native::{bls12_381::JubJubBLS12_381, bn256::JubJubBN256};
use mc::big::*;
use mc::curve::*;
use mc::ensure;
use mc::fp::Fp;
use mc::gad::Shape::*;
use mc::gad::*;
use mc::psd::{self, SPar};
use mc::report::{run, Ctx};
use num::bigint::BigUint;

const SALT: &[u8] = b"eddsaposeidon";
const fn nbytes(p: u64) -> usize {
    ((64 - p.leading_zeros() + 7) / 8) as usize
}

fn tiny<const P: u64, const Q: u64>(ctx: &Ctx, j: &Jub<P, Q>, par: &SPar, tag: &str, shapes: &[[Shape; 4]], ms: &[u64], full: bool) {
    let lib = par.lib::<P>();
    let salt = tolimbs(&psd::seed_elem(&big(P), nbytes(P), SALT), 1)[0];
    let sbits = 64 - Q.leading_zeros();
    let lifts: Vec<Option<Pt>> = (0..P).map(|x| j.lift_x(x)).collect();
    let want = |x: &[u64]| -> Want {
        let (s, r, a, m) = (x[0], x[1], x[2], x[3]);
        match (lifts[r as usize], lifts[a as usize]) {
            (Some(pr), Some(pa)) if s < 1 << sbits => {
                let h = par.hash(P, &[r, a, m, salt]);
                out1((j.mul(j.gp, s % Q).0 == j.add(pr, j.mul(pa, h % Q)).0) as u64)
            }
            _ => Want::Unsat,
        }
    };
    let mut items = vec![];
    for (k, sh) in shapes.iter().enumerate() {
        for a in 0..P {
            if lifts[a as usize].is_none() && k > 0 && !full {
                continue;
            }
            items.push((format!("{}/{:?} a={}", tag, sh, a), (sh.to_vec(), a, k)));
        }
    }
    ctx.sample(items[0].0.clone());
    ctx.par(items, |(sh, a, k)| {
        let mut dom = vec![];
        for r in 0..P {
            for m in ms {
                for s in 0..P {
                    let good = lifts[r as usize].is_some() && lifts[*a as usize].is_some();
                    let top = s >= 1 << sbits;
                    // every scalar for subgroup coordinates; a few for the others
                    if !good && !full && s % 19 != 0 || good && top && (s + r) % 13 != 0 || *k > 0 && !full && (s + r + m) % 5 != 0 {
                        continue;
                    }
                    dom.push(vec![s, r, *a, *m]);
                }
            }
        }
        // constants: a failing assertion may surface as a panic or as an unsatisfiable constraint
        let w = |x: &[u64]| want(x);
        relation::<P>(ctx, sh, &dom, &|_, i| vec![c_eddsaposeidon_verify(&i[0], &i[1], &i[2], &i[3], &lib, j).into_num()], &w)?;
        // native acceptance implies a true bit
        for d in &dom {
            if d[0] < Q && eddsaposeidon_verify(Num(Fp::<Q>(d[0])), Num(Fp::<P>(d[1])), Num(Fp(d[2])), Num(Fp(d[3])), &lib, j) {
                ensure!(want(d) == out1(1), "natively accepted {:?} but the relation is false", d);
                ctx.outcome("natively accepted tuple");
            }
        }
        ctx.beat();
        Ok(())
    });
}

fn real<J: JubJubParams + Sync>(ctx: &Ctx, name: &str, j: &J, t: usize) {
    let c = BigCurve::of(j);
    let lib = PoseidonParams::<J::Fr>::new(t, 8, 54);
    let par = psd::plain(&lib);
    let salt = psd::seed_elem(&c.p, num_bytes::<J::Fr>(), SALT);
    let h = |r: &BigUint, a: &BigUint, m: &BigUint| psd::hash(&par, &[r.clone(), a.clone(), m.clone(), salt.clone()]);
    let bits = J::Fs::NUM_BITS as usize;
    let sks: Vec<BigUint> = alphabet::<J::Fs>(false).into_iter().step_by(ctx.t(9, 2)).collect();
    let ms: Vec<BigUint> = alphabet::<J::Fr>(false).into_iter().step_by(ctx.t(11, 5)).collect();
    let tors = c.torsion();
    ctx.par(sks.iter().enumerate().map(|(i, s)| (format!("{}/sk {}", name, i), (i, s.clone()))).collect(), |(i, sk)| {
        let pa = c.mul(&c.g, sk);
        let m = &ms[i % ms.len()];
        let (s, r) = eddsaposeidon_sign(num_of::<J::Fs>(sk), num_of::<J::Fr>(m), &lib, j);
        let (s, r) = (nbig(&s), nbig(&r));
        let (p, q) = (&c.p, &c.q);
        let mut tup = vec![(s.clone(), r.clone(), pa.0.clone(), m.clone())];
        let n = |x: &BigUint| sub_mod(&big(0), x, p);
        // the negated equation has the same x only up to sign; the same s plus the order when it fits
        tup.push(((&s + big(1)) % q, r.clone(), pa.0.clone(), m.clone()));
        tup.push((&s + q, r.clone(), pa.0.clone(), m.clone()));
        tup.push((pow2(bits) - big(1), r.clone(), pa.0.clone(), m.clone()));
        tup.push((pow2(bits), r.clone(), pa.0.clone(), m.clone()));
        tup.push((p - big(1), r.clone(), pa.0.clone(), m.clone()));
        tup.push((s.clone(), n(&r), pa.0.clone(), m.clone()));
        tup.push((s.clone(), r.clone(), n(&pa.0), m.clone()));
        tup.push((s.clone(), r.clone(), pa.0.clone(), (m + big(1)) % p));
        tup.push((s.clone(), pa.0.clone(), r.clone(), m.clone()));
        tup.push((s.clone(), big(0), pa.0.clone(), m.clone()));
        tup.push((s.clone(), r.clone(), big(0), m.clone()));
        let t = &tors[1 + i % 7];
        tup.push((s.clone(), c.add(&c.lift_x(&r).unwrap(), t).0, pa.0.clone(), m.clone()));
        tup.push((s.clone(), r.clone(), c.add(&pa, t).0, m.clone()));
        for (k, (s, r, a, m)) in tup.into_iter().enumerate() {
            let want = match (c.lift_x(&r), c.lift_x(&a)) {
                (Some(pr), Some(pa)) if s < pow2(bits) => Some((c.mul(&c.g, &(&s % q)).0 == c.add(&pr, &c.mul(&pa, &(h(&r, &a, &m) % q))).0) as u64),
                _ => None,
            };
            if &s >= p {
                continue;
            }
            let ins: Vec<J::Fr> = [&s, &r, &a, &m].iter().map(|x| felt(x)).collect();
            let w: Vec<J::Fr> = want.iter().map(|x| felt(&big(*x))).collect();
            let sh = match (i + k) % 3 {
                0 => [RShape::Var; 4],
                1 => [RShape::Var, RShape::Inp, RShape::Long(2), RShape::Inp],
                _ => [RShape::Long(3), RShape::Var, RShape::Var, RShape::Const],
            };
            real_relation::<J::Fr>(
                ctx,
                &sh,
                &ins,
                &|_, i: &[CNum<_>]| vec![c_eddsaposeidon_verify(&i[0], &i[1], &i[2], &i[3], &lib, j).into_num()],
                if want.is_some() { Some(&w) } else { None },
                false,
            )?;
            ctx.outcome(match want {
                Some(1) => "production: accepted",
                Some(_) => "production: satisfiable, bit false",
                None => "production: unsatisfied",
            });
        }
        ctx.beat();
        Ok(())
    });
}

fn main() {
    run(
        "C16",
        &["complete witness spaces (decompression preimages and decompositions included) on small curves; production curves: honest assignments and constraint shapes at boundary keys, messages and tamperings", "the gadgets' own production-field witness spaces are decided by C06, C09, C13, C14"],
        true,
        |ctx| {
            tiny(ctx, &curve_a(), &SPar::make(4, 2, 1, 73, 0), "F73", &[[Var; 4]], if ctx.quick() { &[0, 5] } else { &[0, 1, 5, 36, 72] }, ctx.thorough());
            if ctx.thorough() {
                tiny(ctx, &curve_a(), &SPar::make(4, 2, 1, 73, 0), "F73s", &[[Inp, Var, Dif, Const], [Const, Var, Var, Inp], [Var, Const, Var, Var], [Var, Var, Const, Aff(2, 1)]], &[0, 70], false);
                tiny(ctx, &curve_b(), &SPar::make(5, 2, 2, 101, 0), "F101/t5", &[[Var; 4]], &[3], false);
            }
            real(ctx, "bn256", &JubJubBN256::new(), 4);
            real(ctx, "bls12_381", &JubJubBLS12_381::new(), 5);
        },
    );
}
