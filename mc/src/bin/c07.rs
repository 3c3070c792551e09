//! C07: conditional selection and the three-bit table.
use fawkes_crypto::circuit::bool::CBool;
use fawkes_crypto::circuit::ecc::{CEdwardsPoint, CMontgomeryPoint};
use fawkes_crypto::circuit::mux::c_mux3;
use fawkes_crypto::circuit::num::CNum;
use fawkes_crypto::core::field::Field;
use fawkes_crypto::core::signal::Signal;
use fawkes_crypto::core::sizedvec::SizedVec;
use fawkes_crypto::native::num::Num;
use mc::big::*;
use mc::ensure;
use mc::fp::Fp;
use mc::gad::Shape::*;
use mc::gad::*;
use mc::report::{panics, run, Ctx, Res};
use typenum::*;

/// operands: selector, then pairs
fn select<const P: u64>(ctx: &Ctx, alpha: &[Shape]) {
    let mut items = vec![];
    for sh in shape_tuples(alpha, 3) {
        items.push((format!("F{}/num/{:?}", P, sh), sh.clone()));
    }
    let dom: Vec<Vec<u64>> = tuples(P, 3).into_iter().filter(|t| t[0] < 2).collect();
    let bdom: Vec<Vec<u64>> = tuples(2, 3);
    ctx.sample(items[items.len() / 3].0.clone());
    ctx.par(items, |sh| {
        let pick = |x: &[u64]| if x[0] == 1 { x[1] } else { x[2] };
        relation::<P>(ctx, sh, &dom, &|_, i| vec![i[1].switch(&i[0].into_bool(), &i[2])], &|x| out1(pick(x)))?;
        relation::<P>(ctx, sh, &dom, &|_, i| vec![i[0].into_bool().if_else(&i[1], &i[2])], &|x| out1(pick(x)))?;
        relation::<P>(ctx, sh, &bdom, &|_, i| vec![i[1].into_bool().switch(&i[0].into_bool(), &i[2].into_bool()).0], &|x| out1(pick(x)))?;
        relation::<P>(ctx, sh, &bdom, &|_, i| vec![i[0].into_bool().if_else(&i[1].into_bool(), &i[2].into_bool()).0], &|x| out1(pick(x)))?;
        // both operands the same signal, and selection by an operand
        relation::<P>(ctx, &sh[..2], &tuples(P, 2).into_iter().filter(|t| t[0] < 2).collect::<Vec<_>>(),
            &|_, i| vec![i[1].switch(&i[0].into_bool(), &i[1])], &|x| out1(x[1]))?;
        relation::<P>(ctx, &sh[..2], &tuples(P, 2).into_iter().filter(|t| t[0] < 2).collect::<Vec<_>>(),
            &|_, i| vec![i[0].switch(&i[0].into_bool(), &i[1]), i[1].switch(&i[0].into_bool(), &i[0])],
            &|x| Want::Out(if x[0] == 1 { vec![1, x[1]] } else { vec![x[1], 0] }))?;
        // a chain of selections
        relation::<P>(ctx, sh, &dom, &|_, i| {
            let s = i[0].into_bool();
            let a = i[1].switch(&s, &i[2]);
            let b = i[2].switch(&s, &i[1]);
            vec![a.switch(&s, &b), b.switch(&s, &a)]
        }, &|x| if x[0] == 1 { Want::Out(vec![x[1], x[2]]) } else { Want::Out(vec![x[1], x[2]]) })
    });
}

/// selection between two combinations of the same variables, the selector possibly among them
fn shared<const P: u64>(ctx: &Ctx, n: usize, firsts: &[Vec<u64>]) {
    let mut items = vec![];
    for c in firsts {
        for d in tuples(P, n + 1) {
            items.push((format!("F{}/two combinations of the same {} variables/{:?} {:?}", P, n, c, d), (c.clone(), d)));
        }
    }
    ctx.note(format!("F{}: {} pairs of combinations of the same {} variables", P, items.len(), n));
    ctx.par(items, |(c, d)| {
        let comb = |v: &[u64], x: &[u64]| (v[n] + v.iter().zip(x).map(|(a, b)| a * b).sum::<u64>()) % P;
        fn mk<'a, const P: u64>(cs: &'a Cs<P>, v: &[u64], i: &[Sig<'a, P>]) -> Sig<'a, P> {
            let k = |x: u64| Num::<Fp<P>>::from(x);
            i.iter().zip(v).fold(CNum::from_const(cs, &k(v[i.len()])), |acc, (x, a)| acc + x * k(*a))
        }
        let dom: Vec<Vec<u64>> = tuples(P, n).into_iter().filter(|t| t[0] < 2).collect();
        relation::<P>(ctx, &vec![Var; n], &dom, &|cs, i| vec![mk(cs, c, i).switch(&i[0].into_bool(), &mk(cs, d, i)), i[0].into_bool().if_else(&mk(cs, d, i), &mk(cs, c, i))],
            &|x| Want::Out(if x[0] == 1 { vec![comb(c, x), comb(d, x)] } else { vec![comb(d, x), comb(c, x)] }))
    });
}

fn shared_real<F: Field>(ctx: &Ctx, name: &str) {
    let mut items = vec![];
    for n in [2usize, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300].iter() {
        for k in 0..*n {
            if *n < 10 || k < 3 || k + 3 > *n || k % 32 == 0 || k % 32 == 31 || ctx.thorough() {
                items.push((format!("{}/two combinations of the same {} variables that differ at {}", name, n, k), (*n, k)));
            }
        }
    }
    ctx.par(items, |&(n, k)| {
        // variable 0 is the selector
        fn mk<'a, F: Field>(cs: &'a mc::rec::RecCS<F>, i: &[CNum<'a, mc::rec::RecCS<F>>], at: usize) -> CNum<'a, mc::rec::RecCS<F>> {
            i.iter().enumerate().fold(CNum::from_const(cs, &nu(3)), |acc, (j, x)| acc + x * nu::<F>(j as u64 % 7 + 1 + (j == at) as u64))
        }
        let sh: Vec<RShape> = (0..n).map(|j| if j % 3 == 1 { RShape::Inp } else { RShape::Var }).collect();
        for v in [0u64, 1].iter() {
            let x: Vec<Num<F>> = (0..n).map(|j| if j == 0 { nu(*v) } else { nu(j as u64 + 2) }).collect();
            let ins: Vec<F> = x.iter().map(|n| n.0).collect();
            let c = x.iter().enumerate().fold(nu::<F>(3), |acc, (j, x)| acc + *x * nu(j as u64 % 7 + 1));
            let d = c + x[k];
            let want = if *v == 1 { [c.0, d.0] } else { [d.0, c.0] };
            real_relation::<F>(ctx, &sh, &ins, &|cs, i| vec![mk(cs, i, n).switch(&i[0].into_bool(), &mk(cs, i, k)), i[0].into_bool().if_else(&mk(cs, i, k), &mk(cs, i, n))], Some(&want), true)?;
        }
        Ok(())
    });
}

/// points, vectors and nested vectors: selector + 2 x 4 components
fn composite<const P: u64>(ctx: &Ctx, alpha: &[Shape]) {
    let dom: Vec<Vec<u64>> = {
        // every component distinguishable
        let mut v = vec![];
        for s in 0..2u64 {
            for b in 0..P {
                v.push((0..9).map(|i| if i == 0 { s } else { (b + i * 3 + b * i * i) % P }).collect::<Vec<u64>>());
            }
        }
        v
    };
    let mut items = vec![];
    for sel in alpha {
        for k in 0..9usize {
            for other in alpha {
                // component k has shape `other`, the rest alternate
                let sh: Vec<Shape> = (0..9).map(|i| if i == 0 { *sel } else if i == k { *other } else if i % 2 == 0 { Var } else { Const }).collect();
                items.push((format!("F{}/composite/{:?}", P, sh), sh));
            }
        }
    }
    ctx.par(items, |sh| {
        let want = |x: &[u64]| Want::Out(if x[0] == 1 { x[1..5].to_vec() } else { x[5..9].to_vec() });
        relation::<P>(ctx, sh, &dom, &|_, i| {
            let s = i[0].into_bool();
            let a = CEdwardsPoint { x: i[1].clone(), y: i[2].clone() };
            let b = CEdwardsPoint { x: i[5].clone(), y: i[6].clone() };
            let c = CMontgomeryPoint { x: i[3].clone(), y: i[4].clone() };
            let d = CMontgomeryPoint { x: i[7].clone(), y: i[8].clone() };
            let (r, q) = (a.switch(&s, &b), s.if_else(&c, &d));
            vec![r.x, r.y, q.x, q.y]
        }, &want)?;
        relation::<P>(ctx, sh, &dom, &|_, i| {
            let s = i[0].into_bool();
            let a: SizedVec<_, U4> = i[1..5].iter().cloned().collect();
            let b: SizedVec<_, U4> = i[5..9].iter().cloned().collect();
            a.switch(&s, &b).0
        }, &want)?;
        relation::<P>(ctx, sh, &dom, &|_, i| {
            let s = i[0].into_bool();
            let a = ((i[1].clone(), i[2].clone()), i[3].clone(), i[4].clone());
            let b = ((i[5].clone(), i[6].clone()), i[7].clone(), i[8].clone());
            let r = s.if_else(&a, &b);
            vec![(r.0).0, (r.0).1, r.1, r.2]
        }, &want)
    });
}

/// the table lookup with every selector shape
fn mux<const P: u64>(ctx: &Ctx, tables: Vec<Vec<Vec<u64>>>, alpha: &[Shape]) {
    let dom = tuples(2, 3);
    let shapes = shape_tuples(alpha, 3);
    let items: Vec<_> = tables.into_iter().enumerate().map(|(i, t)| (format!("F{}/mux3 table {}", P, i), t)).collect();
    ctx.par(items, |t| {
        for sh in &shapes {
            relation::<P>(ctx, sh, &dom, &|_, i| {
                let s: Vec<_> = i.iter().map(|x| x.into_bool()).collect();
                let c: Vec<Vec<Num<Fp<P>>>> = t.iter().map(|c| c.iter().map(|x| Num(Fp(*x))).collect()).collect();
                c_mux3(&s, &c)
            }, &|x| {
                let k = (x[0] + 2 * x[1] + 4 * x[2]) as usize;
                Want::Out(t.iter().map(|c| c[k]).collect())
            })?;
        }
        Ok(())
    });
}

fn tables<const P: u64>(cols: usize) -> Vec<Vec<Vec<u64>>> {
    // one-hot columns in every position, pairs, constants, ramps
    let hot = |k: usize, v: u64| (0..8).map(|i| if i == k { v } else { 0 }).collect::<Vec<u64>>();
    let mut v: Vec<Vec<Vec<u64>>> = vec![vec![]];
    for k in 0..8 {
        for val in [1, 2, P - 1].iter() {
            let mut t = vec![hot(k, *val)];
            for c in 1..cols {
                t.push((0..8u64).map(|i| (i * i * 3 + c as u64 * (i + 1) + k as u64) % P).collect());
            }
            v.push(t);
        }
        for l in 0..8 {
            v.push(vec![(0..8).map(|i| (i == k) as u64 * (P - 2) + (i == l) as u64).map(|x| x % P).collect()]);
        }
    }
    v.push(vec![vec![0; 8], vec![1; 8], vec![P - 1; 8]]);
    v
}

fn real<F: Field>(ctx: &Ctx, name: &str) {
    let al: Vec<BigUint> = alphabet::<F>(false).into_iter().step_by(ctx.t(9, 3)).collect();
    let sh = [RShape::Var, RShape::Const, RShape::Long(2), RShape::Long(7), RShape::Long(40)];
    let mut items = vec![];
    for (i, s0) in sh.iter().enumerate() {
        for s1 in &sh {
            for s2 in &sh {
                items.push((format!("{}/switch/{:?}{:?}{:?}", name, s0, s1, s2), (i, vec![*s0, *s1, *s2])));
            }
        }
    }
    ctx.par(items, |(_, sh)| {
        for (k, a) in al.iter().enumerate() {
            let b = &al[(k * 7 + 3) % al.len()];
            for s in 0..2u64 {
                let ins: Vec<F> = vec![felt(&big(s)), felt(a), felt(b)];
                let w = vec![if s == 1 { ins[1] } else { ins[2] }];
                real_relation::<F>(ctx, sh, &ins, &|_, i| vec![i[1].switch(&i[0].into_bool(), &i[2])], Some(&w), true)?;
            }
        }
        Ok(())
    });
    ctx.par(vec![(format!("{}/mux3", name), ())], |_| {
        let t: Vec<Vec<Num<F>>> = (0..3).map(|c| (0..8).map(|i| num_of(&al[(c * 8 + i) % al.len()])).collect()).collect();
        for k in 0..8u64 {
            let ins: Vec<F> = (0..3).map(|i| felt(&big((k >> i) & 1))).collect();
            let w: Vec<F> = t.iter().map(|c| c[k as usize].0).collect();
            for s in [RShape::Var, RShape::Const, RShape::Long(5)].iter() {
                real_relation::<F>(ctx, &[*s; 3], &ins, &|_, i| {
                    let s: Vec<CBool<_>> = i.iter().map(|x| x.into_bool()).collect();
                    c_mux3(&s, &t)
                }, Some(&w), true)?;
            }
        }
        Ok(())
    });
}

fn domain(ctx: &Ctx) {
    ctx.case("mux3 domain", || -> Res {
        for n in 0..6usize {
            for m in 0..10usize {
                let cs = Cs::<7>::new();
                let s = vec![CBool::c_true(&cs); n];
                let t = vec![vec![Num(Fp::<7>(1)); m]];
                ensure!(panics(|| c_mux3(&s, &t)) == !(n == 3 && m == 8), "mux3 with {} bits and {} entries", n, m);
                ctx.point(1);
            }
        }
        Ok(())
    });
}

fn main() {
    run(
        "C07",
        &["selectors are bits (the gadgets' domain)", "complete witness space on tiny fields; production fields at boundary values"],
        true,
        |ctx| {
            domain(ctx);
            let sh = [Var, Inp, Aff(2, 1), Dif, Tri, Const, ConstE];
            select::<3>(ctx, &[Var, Aff(2, 1), Const]);
            select::<5>(ctx, &sh);
            select::<7>(ctx, &sh);
            shared::<3>(ctx, 2, &tuples(3, 3));
            shared::<3>(ctx, 3, &tuples(3, 4));
            shared::<3>(ctx, 5, &[vec![1, 1, 2, 1, 1, 0], vec![0, 1, 2, 1, 1, 1]]);
            shared::<5>(ctx, 3, &[vec![1, 2, 3, 0]]);
            if ctx.thorough() {
                shared::<5>(ctx, 2, &tuples(5, 3));
                shared::<5>(ctx, 3, &tuples(5, 4).into_iter().step_by(7).collect::<Vec<_>>());
                shared::<3>(ctx, 6, &[vec![1, 1, 2, 2, 1, 1, 0]]);
            }
            composite::<11>(ctx, &[Var, Dif, Tri, Const, ConstE]);
            // all tables over F3 restricted to the values 0,1,2 in every position
            let all3: Vec<Vec<Vec<u64>>> = tuples(3, 8).into_iter().map(|t| vec![t]).collect();
            mux::<3>(ctx, all3, &[Var, Const]);
            mux::<13>(ctx, tables::<13>(2), &[Var, Inp, Aff(2, 1), Tri, Const]);
            // wide tables
            let wide: Vec<Vec<Vec<u64>>> = (3..=20usize).chain([33, 64, 65, 100].iter().cloned())
                .map(|c| (0..c as u64).map(|c| (0..8u64).map(|i| (i * i * 5 + c * (i + 2) + c * c) % 61).collect()).collect()).collect();
            mux::<61>(ctx, wide, &[Var, Const]);
            if ctx.thorough() {
                select::<13>(ctx, &sh);
                composite::<31>(ctx, &sh);
                mux::<61>(ctx, tables::<61>(3), &sh);
            }
            use fawkes_crypto::native::{bls12_381 as bl, bn256 as bn};
            shared_real::<bn::Fr>(ctx, "bn256.Fr");
            shared_real::<bl::Fr>(ctx, "bls12_381.Fr");
            real::<bn::Fr>(ctx, "bn256.Fr");
            real::<bl::Fr>(ctx, "bls12_381.Fr");
        },
    );
}
