//! C05: numeric and boolean gadgets constrain exactly their relation.
use fawkes_crypto::circuit::bool::CBool;
use fawkes_crypto::circuit::num::CNum;
use fawkes_crypto::core::signal::Signal;
use fawkes_crypto::native::num::Num;
use fawkes_crypto::core::field::Field;
use mc::big::*;
use mc::fp::Fp;
use mc::gad::Shape::*;
use mc::gad::*;
use mc::rec::RecCS;
use mc::report::{run, Ctx};

type Build<const P: u64> = Box<dyn for<'a> Fn(&'a Cs<P>, &[Sig<'a, P>]) -> Vec<Sig<'a, P>> + Send + Sync>;
type Spec = Box<dyn Fn(&[u64]) -> Want + Send + Sync>;

fn b(x: bool) -> u64 {
    x as u64
}

fn gadgets<const P: u64>() -> Vec<(&'static str, usize, Build<P>, Spec)> {
    let n = |x: u64| Num(Fp::<P>(x % P));
    let mut v: Vec<(&'static str, usize, Build<P>, Spec)> = vec![];
    macro_rules! g {
        ($name:expr, $ar:expr, $b:expr, $s:expr) => {
            v.push(($name, $ar, Box::new($b), Box::new($s)));
        };
    }
    g!("mul", 2, |_, i| vec![&i[0] * &i[1]], |x: &[u64]| out1(x[0] * x[1] % P));
    g!("mul_assign_val", 2, |_, i| { let mut a = i[0].clone(); a *= i[1].clone(); vec![a] }, |x: &[u64]| out1(x[0] * x[1] % P));
    g!("mul_assign_ref", 2, |_, i| { let mut a = i[0].clone(); a *= &i[1]; vec![a] }, |x: &[u64]| out1(x[0] * x[1] % P));
    g!("div", 2, |_, i| vec![&i[0] / &i[1]], |x: &[u64]| if x[1] == 0 {
        if x[0] == 0 { Want::Skip } else { Want::Unsat }
    } else {
        out1(x[0] * inv(x[1], P) % P)
    });
    g!("div_assign", 2, |_, i| { let mut a = i[0].clone(); a /= &i[1]; vec![a] }, |x: &[u64]| if x[1] == 0 {
        if x[0] == 0 { Want::Skip } else { Want::Unsat }
    } else {
        out1(x[0] * inv(x[1], P) % P)
    });
    g!("square", 1, |_, i| vec![i[0].square()], |x: &[u64]| out1(x[0] * x[0] % P));
    g!("mul_self", 1, |_, i| vec![&i[0] * &i[0]], |x: &[u64]| out1(x[0] * x[0] % P));
    g!("div_self", 1, |_, i| vec![&i[0] / &i[0]], |x: &[u64]| if x[0] == 0 { Want::Skip } else { out1(1) });
    g!("is_zero", 1, |_, i| vec![i[0].is_zero().0], |x: &[u64]| out1(b(x[0] == 0)));
    g!("is_eq", 2, |_, i| vec![i[0].is_eq(&i[1]).0], |x: &[u64]| out1(b(x[0] == x[1])));
    g!("is_eq_self", 1, |_, i| vec![i[0].is_eq(&i[0]).0], |_: &[u64]| out1(1));
    g!("assert_eq", 2, |_, i| { i[0].assert_eq(&i[1]); vec![] }, |x: &[u64]| sat_if(x[0] == x[1]));
    g!("assert_zero", 1, |_, i| { i[0].assert_zero(); vec![] }, |x: &[u64]| sat_if(x[0] == 0));
    g!("assert_nonzero", 1, |_, i| { i[0].assert_nonzero(); vec![] }, |x: &[u64]| sat_if(x[0] != 0));
    g!("assert_bit", 1, |_, i| { i[0].assert_bit(); vec![] }, |x: &[u64]| sat_if(x[0] < 2));
    g!("bool.assert", 1, |_, i| { CBool(i[0].clone()).assert(); vec![] }, |x: &[u64]| sat_if(x[0] < 2));
    g!("bool.assert_true", 1, |_, i| { CBool(i[0].clone()).assert_true(); vec![] }, |x: &[u64]| sat_if(x[0] == 1));
    g!("bool.assert_false", 1, |_, i| { CBool(i[0].clone()).assert_false(); vec![] }, |x: &[u64]| sat_if(x[0] == 0));
    g!("bool.assert_eq", 2, |_, i| { CBool(i[0].clone()).assert_eq(&CBool(i[1].clone())); vec![] },
        |x: &[u64]| if x[0] > 1 || x[1] > 1 { Want::Skip } else { sat_if(x[0] == x[1]) });
    g!("bool.is_eq", 2, |_, i| vec![CBool(i[0].clone()).is_eq(&CBool(i[1].clone())).0],
        |x: &[u64]| if x[0] > 1 || x[1] > 1 { Want::Skip } else { out1(b(x[0] == x[1])) });
    g!("bool.into_num", 1, |_, i| vec![i[0].into_bool().into_num()], |x: &[u64]| if x[0] > 1 { Want::Skip } else { out1(x[0]) });
    g!("inputize", 1, |cs, i| {
        let k = cs.inputs.borrow().len();
        i[0].inputize();
        let inp = fawkes_crypto::circuit::num::Index::Input(k + 1);
        assert!(cs.inputs.borrow().len() == k + 1, "inputize must publish one variable");
        let val = cs.inputs.borrow()[k];
        vec![CNum::from_var(cs, val, inp)]
    }, |x: &[u64]| out1(x[0]));
    g!("bool.inputize", 1, |cs, i| {
        let k = cs.inputs.borrow().len();
        i[0].into_bool().inputize();
        let inp = fawkes_crypto::circuit::num::Index::Input(k + 1);
        let val = cs.inputs.borrow()[k];
        vec![CNum::from_var(cs, val, inp)]
    }, |x: &[u64]| out1(x[0]));
    // assertions against every constant
    for c in 0..P {
        g!(Box::leak(format!("assert_const({})", c).into_boxed_str()), 1,
            move |_, i| { i[0].assert_const(&n(c)); vec![] }, move |x: &[u64]| sat_if(x[0] == c));
    }
    for c in [false, true].iter().cloned() {
        g!(Box::leak(format!("bool.assert_const({})", c).into_boxed_str()), 1,
            move |_, i| { CBool(i[0].clone()).assert_const(&c); vec![] }, move |x: &[u64]| sat_if(x[0] == b(c)));
    }
    // compositions: outputs of one gadget feeding another
    g!("is_zero(a*b)", 2, |_, i| vec![(&i[0] * &i[1]).is_zero().0], |x: &[u64]| out1(b(x[0] * x[1] % P == 0)));
    g!("is_zero(is_zero)", 1, |_, i| vec![i[0].is_zero().0.is_zero().0], |x: &[u64]| out1(b(x[0] != 0)));
    g!("a*b+a*a-b", 2, |_, i| vec![&i[0] * &i[1] + i[0].square() - &i[1]], |x: &[u64]| out1((x[0] * x[1] + x[0] * x[0] + P - x[1]) % P));
    g!("(a/b)*b", 2, |_, i| vec![(&i[0] / &i[1]) * &i[1]], |x: &[u64]| if x[1] == 0 { Want::Skip } else { out1(x[0]) });
    g!("assert_nonzero;a/b", 2, |_, i| { i[1].assert_nonzero(); vec![&i[0] / &i[1]] },
        |x: &[u64]| if x[1] == 0 { Want::Unsat } else { out1(x[0] * inv(x[1], P) % P) });
    // constant builders
    g!("consts", 1, |cs, i| vec![CNum::zero(cs), CNum::one(cs), i[0].derive_zero(), i[0].derive_one(), CBool::c_true(cs).0, CBool::c_false(cs).0],
        |_: &[u64]| Want::Out(vec![0, 1, 0, 1, 1, 0]));
    v
}

fn field<const P: u64>(ctx: &Ctx, alpha: &[Shape]) {
    let mut items = vec![];
    for (name, ar, build, spec) in gadgets::<P>() {
        let (build, spec) = (std::sync::Arc::new(build), std::sync::Arc::new(spec));
        for sh in shape_tuples(alpha, ar) {
            items.push((format!("F{}/{}/{:?}", P, name, sh), (sh, build.clone(), spec.clone(), ar)));
        }
    }
    ctx.sample(items[0].0.clone());
    ctx.sample(items[items.len() / 2].0.clone());
    ctx.note(format!("F{}: {} gadget x operand-shape systems, all operand values, all internal assignments", P, items.len()));
    ctx.par(items, |(sh, build, spec, ar)| {
        relation::<P>(ctx, sh, &tuples(P, *ar), &***build, &***spec)
    });
}

/// the relations between two combinations of the same variables: every pair of coefficient vectors
/// (the first up to a choice of representatives), every value of the variables
fn shared<const P: u64>(ctx: &Ctx, n: usize, firsts: &[Vec<u64>]) {
    let mut items = vec![];
    for c in firsts {
        for d in tuples(P, n + 1) {
            items.push((format!("F{}/two combinations of the same {} variables/{:?} {:?}", P, n, c, d), (c.clone(), d)));
        }
    }
    ctx.note(format!("F{}: {} pairs of combinations of the same {} variables", P, items.len(), n));
    ctx.par(items, |(c, d)| {
        let comb = |v: &[u64], x: &[u64]| (v[n] + v.iter().zip(x).map(|(a, b)| a * b).sum::<u64>()) % P;
        fn mk<'a, const P: u64>(cs: &'a Cs<P>, v: &[u64], i: &[Sig<'a, P>]) -> Sig<'a, P> {
            let k = |x: u64| Num::<Fp<P>>::from(x);
            i.iter().zip(v).fold(CNum::from_const(cs, &k(v[i.len()])), |acc, (x, a)| acc + x * k(*a))
        }
        let sh = vec![Var; n];
        let dom = tuples(P, n);
        relation::<P>(ctx, &sh, &dom, &|cs, i| { mk(cs, c, i).assert_eq(&mk(cs, d, i)); vec![] }, &|x| if comb(c, x) == comb(d, x) { Want::Out(vec![]) } else { Want::Unsat })?;
        relation::<P>(ctx, &sh, &dom, &|cs, i| vec![mk(cs, c, i).is_eq(&mk(cs, d, i)).0], &|x| Want::Out(vec![(comb(c, x) == comb(d, x)) as u64]))?;
        relation::<P>(ctx, &sh, &dom, &|cs, i| vec![mk(cs, c, i) * mk(cs, d, i)], &|x| Want::Out(vec![comb(c, x) * comb(d, x) % P]))
    });
}

/// the same on a production field with many variables: two combinations that differ in one coefficient
fn shared_real<F: Field>(ctx: &Ctx, name: &str) {
    let mut items = vec![];
    for n in [2usize, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300].iter() {
        for k in 0..*n {
            if *n < 10 || k < 3 || k + 3 > *n || k % 32 == 0 || k % 32 == 31 || ctx.thorough() {
                items.push((format!("{}/two combinations of the same {} variables that differ at {}", name, n, k), (*n, k)));
            }
        }
    }
    ctx.par(items, |&(n, k)| {
        type S<'a, F> = CNum<'a, RecCS<F>>;
        fn mk<'a, F: Field>(cs: &'a RecCS<F>, i: &[S<'a, F>], at: usize) -> S<'a, F> {
            i.iter().enumerate().fold(CNum::from_const(cs, &nu(3)), |acc, (j, x)| acc + x * nu::<F>(j as u64 % 7 + 1 + (j == at) as u64))
        }
        let sh: Vec<RShape> = (0..n).map(|j| if j % 3 == 1 { RShape::Inp } else { RShape::Var }).collect();
        for v in [0u64, 1].iter() {
            let x: Vec<Num<F>> = (0..n).map(|j| if j == k { nu(*v) } else { nu(j as u64 + 2) }).collect();
            let ins: Vec<F> = x.iter().map(|n| n.0).collect();
            let c = x.iter().enumerate().fold(nu::<F>(3), |acc, (j, x)| acc + *x * nu(j as u64 % 7 + 1));
            let d = c + x[k];
            let none: [F; 0] = [];
            real_relation::<F>(ctx, &sh, &ins, &|cs, i| { mk(cs, i, n).assert_eq(&mk(cs, i, k)); vec![] }, if *v == 0 { Some(&none[..]) } else { None }, true)?;
            real_relation::<F>(ctx, &sh, &ins, &|cs, i| vec![mk(cs, i, k).is_eq(&mk(cs, i, n)).0], Some(&[Num::<F>::from(*v == 0).0]), true)?;
            real_relation::<F>(ctx, &sh, &ins, &|cs, i| vec![mk(cs, i, k) * mk(cs, i, n)], Some(&[(c * d).0]), true)?;
        }
        Ok(())
    });
}

/// the same relations on a production field, boundary operands, long combinations
fn real<F: Field>(ctx: &Ctx, name: &str) {
    let al: Vec<BigUint> = alphabet::<F>(false).into_iter().step_by(ctx.t(8, 3)).collect();
    let mut elems: Vec<Num<F>> = al.iter().map(num_of).collect();
    for x in [0u64, 1, 2].iter() {
        elems.push(nu(*x));
    }
    elems.push(-Num::one());
    let sh = [RShape::Var, RShape::Inp, RShape::Const, RShape::Long(3), RShape::Long(33)];
    type Bld<F> = Box<dyn for<'a> Fn(&'a RecCS<F>, &[CNum<'a, RecCS<F>>]) -> Vec<CNum<'a, RecCS<F>>> + Send + Sync>;
    let mut g: Vec<(&str, usize, Bld<F>, Box<dyn Fn(&[Num<F>]) -> Option<Option<Vec<Num<F>>>> + Send + Sync>)> = vec![];
    let b = |x: bool| Some(Some(vec![Num::<F>::from(x)]));
    let sat = |c: bool| Some(if c { Some(vec![]) } else { None });
    g.push(("a*b", 2, Box::new(|_, i| vec![&i[0] * &i[1]]), Box::new(|x| Some(Some(vec![x[0] * x[1]])))));
    g.push(("a/b", 2, Box::new(|_, i| vec![&i[0] / &i[1]]), Box::new(|x| if x[1].is_zero() { None } else { Some(Some(vec![x[0] / x[1]])) })));
    g.push(("square", 1, Box::new(|_, i| vec![i[0].square()]), Box::new(|x| Some(Some(vec![x[0] * x[0]])))));
    g.push(("is_zero", 1, Box::new(|_, i| vec![i[0].is_zero().0]), Box::new(move |x| b(x[0].is_zero()))));
    g.push(("is_eq", 2, Box::new(|_, i| vec![i[0].is_eq(&i[1]).0]), Box::new(move |x| b(x[0] == x[1]))));
    g.push(("is_eq self+1", 1, Box::new(|_, i| vec![i[0].is_eq(&(&i[0] + Num::one())).0, i[0].is_eq(&i[0]).0]), Box::new(|_| Some(Some(vec![Num::zero(), Num::one()])))));
    g.push(("assert_eq", 2, Box::new(|_, i| { i[0].assert_eq(&i[1]); vec![] }), Box::new(move |x| sat(x[0] == x[1]))));
    g.push(("assert_zero", 1, Box::new(|_, i| { i[0].assert_zero(); vec![] }), Box::new(move |x| sat(x[0].is_zero()))));
    g.push(("assert_nonzero", 1, Box::new(|_, i| { i[0].assert_nonzero(); vec![] }), Box::new(move |x| sat(!x[0].is_zero()))));
    g.push(("assert_bit", 1, Box::new(|_, i| { i[0].assert_bit(); vec![] }), Box::new(move |x| sat(x[0].is_zero() || x[0] == Num::one()))));
    for c in elems.iter().cloned().step_by(3) {
        g.push(("assert_const", 1, Box::new(move |_, i| { i[0].assert_const(&c); vec![] }), Box::new(move |x| sat(x[0] == c))));
    }
    let g = std::sync::Arc::new(g);
    let mut items = vec![];
    for (k, (n, ar, _, _)) in g.iter().enumerate() {
        for (q, s) in sh.iter().enumerate() {
            for (r, t) in sh.iter().enumerate() {
                if *ar == 1 && q != r {
                    continue;
                }
                items.push((format!("{}/real/{}{}/{:?}{:?}", name, n, k, s, t), (k, *ar, vec![*s, *t])));
            }
        }
    }
    let m = g.clone();
    let e = &elems;
    ctx.par(items, move |(k, ar, sh)| {
        for (ia, a) in e.iter().enumerate() {
            for (ib, bb) in e.iter().enumerate() {
                if *ar == 1 && ia != ib || ctx.quick() && *ar == 2 && ia != ib && (ia * 5 + ib) % 4 != 0 {
                    continue;
                }
                let x = [*a, *bb];
                if let Some(w) = (m[*k].3)(&x[..*ar]) {
                    let w: Option<Vec<F>> = w.map(|v| v.iter().map(|n| n.0).collect());
                    let ins: Vec<F> = x[..*ar].iter().map(|n| n.0).collect();
                    real_relation::<F>(ctx, &sh[..*ar], &ins, &*m[*k].2, w.as_ref().map(|w| &w[..]), true)?;
                }
            }
        }
        Ok(())
    });
}

fn main() {
    run(
        "C05",
        &["the relation is decided on complete tiny prime fields; the gadgets are generic in the field",
          "0/0 is outside the division's domain; a boolean gadget's operands are bits"],
        true,
        |ctx| {
            let small = [Var, Inp, Aff(2, 1), Aff(1, 0), Dif, Tri, Const, ConstE];
            field::<3>(ctx, &[Var, Inp, Aff(2, 1), Const]);
            field::<5>(ctx, &small);
            field::<7>(ctx, &small);
            field::<13>(ctx, &small);
            field::<61>(ctx, &[Var, Aff(2, 1), Const]);
            if ctx.thorough() {
                field::<11>(ctx, &[Var, Inp, Aff(2, 1), Aff(10, 0), Aff(1, 10), Aff(5, 5), Dif, Tri, Const, ConstE]);
                field::<31>(ctx, &small);
                field::<61>(ctx, &small);
            }
            shared::<3>(ctx, 4, &[vec![1, 1, 1, 1, 0], vec![2, 1, 0, 1, 1], vec![0, 0, 0, 0, 1]]);
            shared::<3>(ctx, 5, &[vec![1, 2, 1, 2, 1, 1]]);
            shared::<5>(ctx, 2, &tuples(5, 3));
            shared::<5>(ctx, 3, &[vec![1, 2, 3, 0]]);
            if ctx.thorough() {
                shared::<3>(ctx, 3, &tuples(3, 4));
                shared::<3>(ctx, 6, &[vec![1, 1, 2, 2, 1, 1, 0]]);
                shared::<7>(ctx, 2, &tuples(7, 3));
            }
            use fawkes_crypto::native::{bls12_381 as bl, bn256 as bn};
            shared_real::<bn::Fr>(ctx, "bn256.Fr");
            shared_real::<bl::Fr>(ctx, "bls12_381.Fr");
            real::<bn::Fr>(ctx, "bn256.Fr");
            real::<bl::Fr>(ctx, "bls12_381.Fr");
        },
    );
}
