//! C08: the constraint system does not depend on the witness.
use fawkes_crypto::circuit::bitify::{c_comp_constant, c_from_bits_le, c_into_bits_le, c_into_bits_le_strict};
use fawkes_crypto::circuit::bool::CBool;
use fawkes_crypto::circuit::ecc::{CEdwardsPoint, CMontgomeryPoint};
use fawkes_crypto::circuit::eddsaposeidon::c_eddsaposeidon_verify;
use fawkes_crypto::circuit::mux::c_mux3;
use fawkes_crypto::circuit::num::CNum;
use fawkes_crypto::circuit::poseidon::{c_poseidon, c_poseidon_merkle_proof_root, c_poseidon_merkle_tree_root, c_poseidon_with_salt, CMerkleProof};
use fawkes_crypto::core::field::Field;
use fawkes_crypto::core::signal::Signal;
use fawkes_crypto::core::sizedvec::SizedVec;
use fawkes_crypto::native::ecc::{EdwardsPoint, JubJubParams};
use fawkes_crypto::native::num::Num;
use fawkes_crypto::native::poseidon::{MerkleProof, PoseidonParams};
use fawkes_crypto::native::{bls12_381::JubJubBLS12_381, bn256::JubJubBN256};
use mc::big::*;
use mc::curve::*;
use mc::fp::Fp;
use mc::psd::SPar;
use mc::rec::{lc_of, Lc, RecCS};
use mc::report::{guard, run, Ctx, Res};
use typenum::*;

type C<'a, F> = CNum<'a, RecCS<F>>;
type Build<'x, F> = Box<dyn for<'a> Fn(&'a RecCS<F>, &[C<'a, F>]) -> Vec<C<'a, F>> + Send + Sync + 'x>;

/// a circuit over n allocated numbers; `partial`: some witnesses make the prover panic (division by zero)
struct Circ<'x, F: Field> {
    name: String,
    n: usize,
    partial: bool,
    heavy: bool,
    build: Build<'x, F>,
}

fn synth<F: Field>(c: &Circ<F>, w: &[Option<F>]) -> Result<(RecCS<F>, Vec<Lc<F>>), String> {
    let cs = RecCS::<F>::new();
    let r = &cs;
    let outs = guard(|| {
        let ins: Vec<C<F>> = w
            .iter()
            .enumerate()
            .map(|(i, v)| {
                let v = v.map(Num);
                if i % 2 == 1 {
                    let k = fawkes_crypto::core::cs::ConstraintSystem::alloc_input(r, v);
                    CNum::from_var(r, v, k)
                } else {
                    CNum::alloc(r, v.as_ref())
                }
            })
            .collect();
        (c.build)(r, &ins).iter().map(|o| lc_of(o)).collect::<Vec<_>>()
    })?;
    Ok((cs, outs))
}

/// None against all given witnesses and, for each, every subset of known values (up to 2^n subsets for n <= 3)
fn check<F: Field>(ctx: &Ctx, c: &Circ<F>, wits: &[Vec<F>], subsets: bool) -> Res {
    let none: Vec<Option<F>> = vec![None; c.n];
    let (base, bo) = synth(c, &none).map_err(|m| format!("{}: synthesis without values panics: {}", c.name, m))?;
    ctx.point(1);
    for w in wits {
        let masks: Vec<usize> = if subsets && c.n <= 3 { (1..1usize << c.n).collect() } else { vec![(1 << c.n) - 1] };
        for m in masks {
            let v: Vec<Option<F>> = w.iter().enumerate().map(|(i, x)| if m >> i & 1 == 1 { Some(*x) } else { None }).collect();
            match synth(c, &v) {
                Err(e) => {
                    if !c.partial {
                        return Err(format!("{} with {:?}: panics: {}", c.name, v, e));
                    }
                    ctx.outcome("prover panics (division by zero)");
                }
                Ok((cs, o)) => {
                    cs.same_shape(&base).map_err(|e| format!("{} with {:?}: {}", c.name, v, e))?;
                    if o != bo {
                        return Err(format!("{} with {:?}: outputs are other combinations than without values", c.name, v));
                    }
                    ctx.outcome("same system");
                }
            }
            ctx.point(1);
        }
        ctx.beat();
    }
    Ok(())
}

fn both<A: Copy, B: Copy>(a: Option<A>, b: Option<B>) -> Option<(A, B)> {
    a.and_then(|a| b.map(|b| (a, b)))
}
/// a boolean derived from a number without constraints linking them
fn bit<'a, F: Field>(cs: &'a RecCS<F>, x: &C<'a, F>) -> CBool<'a, RecCS<F>> {
    CBool::alloc(cs, x.value.map(|v| !v.is_even()).as_ref())
}

fn basic<'x, F: Field + 'x>(nb: usize) -> Vec<Circ<'x, F>> {
    let mut v: Vec<Circ<F>> = vec![];
    macro_rules! add {
        ($name:expr, $n:expr, $partial:expr, $b:expr) => {
            v.push(Circ { name: $name.to_string(), n: $n, partial: $partial, heavy: false, build: Box::new($b) })
        };
    }
    add!("mul", 2, false, |_, i| vec![&i[0] * &i[1]]);
    add!("div", 2, true, |_, i| vec![&i[0] / &i[1]]);
    add!("constant / signal", 1, true, |cs, i| vec![CNum::from_const(cs, &Num::from(2u64)) / &i[0]]);
    add!("linear", 2, false, |_, i| vec![&i[0] * Num::from(2u64) + &i[1] - Num::from(1u64), -&i[0], &i[0] - &i[1], &i[0] - &i[0]]);
    add!("square", 1, false, |_, i| vec![i[0].square()]);
    add!("is_zero", 1, false, |_, i| vec![i[0].is_zero().into_num()]);
    add!("is_zero of a difference", 2, false, |_, i| vec![(&i[0] - &i[1]).is_zero().into_num()]);
    add!("is_eq", 2, false, |_, i| vec![i[0].is_eq(&i[1]).into_num()]);
    add!("assert_eq", 2, false, |_, i| { i[0].assert_eq(&i[1]); vec![] });
    add!("assert_const", 1, false, |_, i| { i[0].assert_const(&Num::from(3u64)); vec![] });
    add!("assert_zero", 1, false, |_, i| { i[0].assert_zero(); vec![] });
    add!("assert_nonzero", 1, false, |_, i| { i[0].assert_nonzero(); vec![] });
    add!("assert_bit", 1, false, |_, i| { i[0].assert_bit(); vec![] });
    add!("inputize", 1, false, |_, i| { i[0].inputize(); (&i[0] + Num::one()).inputize(); vec![] });
    add!("switch", 3, false, |cs, i| vec![i[0].switch(&bit(cs, &i[2]), &i[1]), (&i[0] + &i[1]).switch(&i[2].is_zero(), &i[1])]);
    add!("bool", 2, false, |cs, i| {
        let (a, b) = (bit(cs, &i[0]), bit(cs, &i[1]));
        a.assert();
        a.assert_eq(&b);
        b.assert_true();
        b.assert_false();
        a.inputize();
        vec![a.is_eq(&b).into_num(), a.switch(&b, &i[0].is_zero()).into_num(), b.if_else(&i[0], &i[1])]
    });
    for k in [1, 2, nb / 2, nb - 1, nb].iter().cloned() {
        add!(format!("into_bits {}", k), 1, false, move |_, i| {
            let b = c_into_bits_le(&i[0], k);
            let mut o: Vec<_> = b.iter().map(|x| x.into_num()).collect();
            o.push(c_from_bits_le(&b));
            o
        });
        add!(format!("comp_constant {}", k), 1, false, move |_, i| {
            let b = c_into_bits_le(&i[0], k);
            [0u64, 1, 2].iter().map(|c| c_comp_constant(&b, Num::from(*c)).into_num()).collect()
        });
    }
    add!("into_bits_strict", 1, false, |_, i| c_into_bits_le_strict(&i[0]).iter().map(|x| x.into_num()).collect());
    add!("mux3", 3, false, |cs, i| {
        let s: Vec<_> = i.iter().map(|x| bit(cs, x)).collect();
        let t: Vec<Vec<Num<F>>> = vec![(0..8).map(|x| Num::from((x * x % 5) as u64)).collect(), vec![Num::one(); 8], vec![Num::zero(); 8]];
        c_mux3(&s, &t)
    });
    // composites
    add!("tuple", 3, false, |cs, i| {
        let val = both(both(i[0].value, i[1].value), i[2].value.map(|x| x.is_even())).map(|((a, b), c)| (a, b, c));
        let t = <(C<F>, C<F>, CBool<RecCS<F>>)>::alloc(cs, val.as_ref());
        let u = (i[1].clone(), i[0].clone(), i[2].is_zero());
        t.inputize();
        t.assert_eq(&u);
        let mut o = t.switch(&bit(cs, &i[0]), &u).linearize();
        o.push(t.is_eq(&u).into_num());
        o
    });
    add!("sized vector", 2, false, |cs, i| {
        let val = both(i[0].value, i[1].value).map(|(a, b)| vec![a, b, a + b].into_iter().collect::<SizedVec<_, U3>>());
        let t = SizedVec::<C<F>, U3>::alloc(cs, val.as_ref());
        let u: SizedVec<C<F>, U3> = vec![i[0].clone(), &i[0] * &i[1], i[1].clone()].into_iter().collect();
        t.inputize();
        t.assert_eq(&u);
        let _ = (t.get_value().is_some(), t.as_const().is_some(), u.get_value().is_some());
        let mut o = t.switch(&i[0].is_zero(), &u).linearize();
        o.push(t.is_eq(&u).into_num());
        o
    });
    add!("point", 3, false, |cs, i| {
        let val = both(i[0].value, i[1].value).map(|(x, y)| EdwardsPoint { x, y });
        let t = CEdwardsPoint::alloc(cs, val.as_ref());
        let u = CEdwardsPoint { x: i[1].clone(), y: i[2].clone() };
        t.inputize();
        t.assert_eq(&u);
        let mut o = t.switch(&bit(cs, &i[2]), &u).linearize();
        o.push(t.is_eq(&u).into_num());
        o
    });
    v
}

fn hashes<'x, F: Field + 'x>(par: PoseidonParams<F>) -> Vec<Circ<'x, F>> {
    let mut v: Vec<Circ<F>> = vec![];
    let (p, q, r, s) = (par.clone(), par.clone(), par.clone(), par);
    let mut add = |name: &str, n, b: Build<'x, F>| v.push(Circ { name: name.into(), n, partial: false, heavy: true, build: b });
    add("poseidon", 2, Box::new(move |_, i| vec![c_poseidon(i, &p), c_poseidon(&i[..1], &p)]));
    add("poseidon_with_salt", 2, Box::new(move |_, i| vec![c_poseidon_with_salt(i, b"x", &q)]));
    add("merkle tree", 3, Box::new(move |_, i| vec![c_poseidon_merkle_tree_root(i, &r), c_poseidon_merkle_tree_root(&i[..1], &r)]));
    add(
        "merkle proof",
        3,
        Box::new(move |cs, i| {
            let val = both(i[1].value, i[2].value).map(|(a, b)| MerkleProof::<F, U2> { sibling: vec![a, b].into_iter().collect(), path: vec![a.is_even(), !b.is_even()].into_iter().collect() });
            let pr = CMerkleProof::<RecCS<F>, U2>::alloc(cs, val.as_ref());
            let _ = (pr.get_value().is_some(), pr.as_const().is_some());
            vec![c_poseidon_merkle_proof_root(&i[0], &pr, &s)]
        }),
    );
    v
}

fn curves<'x, J: JubJubParams + Sync + Send>(j: &'x J, par: PoseidonParams<J::Fr>, nbits: usize) -> Vec<Circ<'x, J::Fr>> {
    let mut v: Vec<Circ<J::Fr>> = vec![];
    let mut add = |name: &str, n, partial, b: Build<'x, J::Fr>| v.push(Circ { name: name.into(), n, partial, heavy: true, build: b });
    fn ep<'a, F: Field>(x: &C<'a, F>, y: &C<'a, F>) -> CEdwardsPoint<'a, RecCS<F>> {
        CEdwardsPoint { x: x.clone(), y: y.clone() }
    }
    fn out<'a, F: Field, S: Signal<'a, RecCS<F>>>(s: S) -> Vec<C<'a, F>> {
        s.linearize()
    }
    add("edwards double", 2, true, Box::new(move |_, i| out(ep(&i[0], &i[1]).double(j))));
    add("cofactor", 2, true, Box::new(move |_, i| out(ep(&i[0], &i[1]).mul_by_cofactor(j))));
    add("edwards add", 3, true, Box::new(move |cs, i| out(ep(&i[0], &i[1]).add(&CEdwardsPoint { x: i[2].clone(), y: CNum::one(cs) }, j))));
    add("edwards add constant", 2, true, Box::new(move |cs, i| out(ep(&i[0], &i[1]).add(&CEdwardsPoint::from_const(cs, j.edwards_g()), j))));
    add("in curve", 2, false, Box::new(move |_, i| { ep(&i[0], &i[1]).assert_in_curve(j); vec![] }));
    add("in subgroup", 2, true, Box::new(move |_, i| { ep(&i[0], &i[1]).assert_in_subgroup(j); vec![] }));
    add("decompress", 1, false, Box::new(move |_, i| out(CEdwardsPoint::subgroup_decompress(&i[0], j))));
    add("into montgomery", 2, true, Box::new(move |_, i| out(ep(&i[0], &i[1]).into_montgomery())));
    add("into edwards", 2, true, Box::new(move |_, i| out(CMontgomeryPoint { x: i[0].clone(), y: i[1].clone() }.into_edwards())));
    add("montgomery double", 2, true, Box::new(move |_, i| out(CMontgomeryPoint { x: i[0].clone(), y: i[1].clone() }.double(j))));
    add("montgomery add", 3, true, Box::new(move |cs, i| out(CMontgomeryPoint { x: i[0].clone(), y: i[1].clone() }.add(&CMontgomeryPoint { x: i[2].clone(), y: CNum::one(cs) }, j))));
    add("from scalar", 1, true, Box::new(move |_, i| out(CEdwardsPoint::from_scalar(&i[0], j))));
    add("multiply variable", 3, true, Box::new(move |_, i| out(ep(&i[0], &i[1]).mul(&c_into_bits_le(&i[2], nbits), j))));
    add("multiply constant", 1, false, Box::new(move |cs, i| out(CEdwardsPoint::from_const(cs, j.edwards_g()).mul(&c_into_bits_le(&i[0], nbits), j))));
    add("multiply constant, free bits", 2, false, Box::new(move |cs, i| out(CEdwardsPoint::from_const(cs, j.edwards_g()).mul(&[bit(cs, &i[0]), i[1].is_zero(), bit(cs, &i[1])], j))));
    // a subgroup point obtained from a scalar, so that no witness is outside the domain
    add("eddsa", 4, true, Box::new(move |_, i| vec![c_eddsaposeidon_verify(&i[0], &i[1], &i[2], &i[3], &par, j).into_num()]));
    v
}

/// every program of `depth` operations over two variables and a constant
#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Bin(u8, u8),
    Un(u8),
}
fn ops() -> Vec<Op> {
    let mut v = vec![];
    for k in 0..6 {
        for o in 0..3 {
            v.push(Op::Bin(k, o));
        }
    }
    for k in 0..7 {
        v.push(Op::Un(k));
    }
    v
}
fn step<'a, F: Field>(cs: &'a RecCS<F>, base: &[C<'a, F>], acc: C<'a, F>, op: Op) -> C<'a, F> {
    match op {
        Op::Bin(k, o) => {
            let x = &base[o as usize];
            match k {
                0 => acc + x,
                1 => x - acc,
                2 => acc * x,
                3 => acc.is_eq(x).into_num(),
                4 => acc.switch(&base[1].is_zero(), x),
                _ => {
                    if (&acc - x).as_const().is_none() {
                        acc.assert_eq(x)
                    }
                    acc
                }
            }
        }
        Op::Un(k) => match k {
            0 => acc.is_zero().into_num(),
            1 => acc.square(),
            2 => acc * Num::from(3u64) + Num::from(1u64),
            3 => {
                if acc.as_const().is_none() {
                    acc.assert_nonzero()
                }
                acc.inputize();
                acc
            }
            4 => {
                if acc.as_const().is_some() {
                    acc
                } else {
                    let b = c_into_bits_le(&acc, 3);
                    b[0].into_num() + b[2].into_num()
                }
            }
            5 => (acc.clone(), base[0].clone()).is_eq(&(base[1].clone(), acc)).into_num(),
            _ => &acc - &acc + CNum::from_const(cs, &Num::from(1u64)) * acc,
        },
    }
}
fn programs<const P: u64>(ctx: &Ctx, depth: usize, wstep: usize) {
    let all = ops();
    let wits: Vec<Vec<Fp<P>>> = mc::gad::tuples(P, 2).into_iter().map(|w| w.into_iter().map(Fp).collect()).collect();
    let wits: Vec<Vec<Fp<P>>> = wits.into_iter().enumerate().filter(|(i, w)| i % wstep == 0 || w[0] == Fp(0) || w[1] == Fp(0) || w[0] == w[1]).map(|x| x.1).collect();
    let all2 = all.clone();
    ctx.par(
        all.iter().flat_map(|a| all2.iter().map(move |b| (format!("F{}/depth {} program {:?} {:?}", P, depth, a, b), vec![*a, *b]))).collect(),
        |pre| {
            let rest = mc::gad::tuples(all.len() as u64, depth - 2);
            for r in rest {
                let mut prog = pre.clone();
                prog.extend(r.iter().map(|k| all[*k as usize]));
                let pr = prog.clone();
                let c = Circ::<Fp<P>> {
                    name: format!("{:?}", prog),
                    n: 2,
                    partial: false,
                    heavy: false,
                    build: Box::new(move |cs, i| {
                        let base = [i[0].clone(), i[1].clone(), CNum::from_const(cs, &Num::from(2u64))];
                        let mut acc = i[0].clone();
                        for o in &pr {
                            acc = step(cs, &base, acc, *o);
                        }
                        vec![acc]
                    }),
                };
                check(ctx, &c, &wits, false)?;
            }
            Ok(())
        },
    );
}

fn tiny<const P: u64>(ctx: &Ctx, cs: Vec<Circ<Fp<P>>>, tag: &str, pool: &[Vec<Fp<P>>]) {
    ctx.par(cs.into_iter().map(|c| (format!("{}/{}", tag, c.name), c)).collect(), |c| {
        let mut w: Vec<Vec<Fp<P>>> = if c.n <= 2 || c.n == 3 && !c.heavy && P < 20 {
            mc::gad::tuples(P, c.n).into_iter().map(|w| w.into_iter().map(Fp).collect()).collect()
        } else {
            vec![]
        };
        w.extend(pool.iter().filter(|p| p.len() >= c.n).map(|p| p[..c.n].to_vec()));
        if ctx.quick() && c.heavy {
            let k = w.len() / 400 + 1;
            w = w.into_iter().step_by(k).collect();
        }
        ctx.sample(format!("{}/{}: {} witnesses", tag, c.name, w.len()));
        check(ctx, c, &w, !c.heavy || w.len() < 200)
    });
}

fn real<F: Field>(ctx: &Ctx, tag: &str, cs: Vec<Circ<F>>, extra: &[Vec<F>]) {
    let al: Vec<F> = alphabet::<F>(false).iter().map(|x| felt(x)).collect();
    ctx.par(cs.into_iter().map(|c| (format!("{}/{}", tag, c.name), c)).collect(), |c| {
        let n = al.len();
        let st = if c.heavy { ctx.t(16, 3) } else { 1 };
        let mut w: Vec<Vec<F>> = vec![];
        for i in (0..n).step_by(st) {
            for (a, b) in [(0, 0), (1, 3), (n - 1, 2)].iter() {
                w.push((0..c.n).map(|k| al[(i + k * a + (k / 2) * b) % n]).collect());
            }
        }
        w.extend(extra.iter().filter(|p| p.len() >= c.n).map(|p| p[..c.n].to_vec()));
        check(ctx, c, &w, !c.heavy)
    });
}
fn pts_pool<F: Field>(c: &BigCurve, k: usize) -> Vec<Vec<F>> {
    c.points(k).iter().enumerate().map(|(i, p)| vec![felt(&p.0), felt(&p.1), felt(&big(i as u64 * 77)), felt(&p.0)]).collect()
}

fn main() {
    run(
        "C08",
        &["all witnesses (and all subsets of known values) for small circuits over small fields; boundary witnesses on the production fields", "a prover may panic instead of producing a system when a division by zero is evaluated"],
        true,
        |ctx| {
            tiny::<13>(ctx, basic(4), "F13", &[]);
            tiny::<73>(ctx, basic(7), "F73", &(0..73).map(|x| vec![Fp(x), Fp(x * x % 73), Fp((x + 40) % 73)]).collect::<Vec<_>>());
            tiny::<13>(ctx, hashes(SPar::make(3, 2, 1, 13, 0).lib()), "F13", &mc::gad::tuples(13, 3).into_iter().map(|w| w.into_iter().map(Fp).collect()).collect::<Vec<_>>());
            let j = curve_a();
            let mut pool = vec![];
            for p in &j.pts {
                for k in 0..16u64 {
                    pool.push(vec![Fp(p.0), Fp(p.1), Fp(k * 5 % 73), Fp(k)]);
                    pool.push(vec![Fp(k), Fp(p.0), Fp(j.sub[k as usize % 11].0), Fp(p.1)]);
                }
            }
            tiny::<73>(ctx, curves(&j, SPar::make(4, 2, 1, 73, 0).lib(), 5), "F73", &pool);
            programs::<13>(ctx, 2, 1);
            programs::<13>(ctx, 3, ctx.t(41, 1));
            if ctx.thorough() {
                programs::<11>(ctx, 4, 37);
            }
            let (jb, jl) = (JubJubBN256::new(), JubJubBLS12_381::new());
            real::<fawkes_crypto::native::bn256::Fr>(ctx, "bn256", basic(254), &[]);
            real::<fawkes_crypto::native::bls12_381::Fr>(ctx, "bls12_381", basic(255), &[]);
            real::<fawkes_crypto::native::bn256::Fr>(ctx, "bn256", hashes(PoseidonParams::new(3, 8, 53)), &[]);
            real::<fawkes_crypto::native::bls12_381::Fr>(ctx, "bls12_381", hashes(PoseidonParams::new(4, 8, 54)), &[]);
            let cb = curves(&jb, PoseidonParams::new(4, 8, 54), 251);
            real(ctx, "bn256", cb, &pts_pool(&BigCurve::of(&jb), 1));
            let cl = curves(&jl, PoseidonParams::new(5, 8, 54), 252);
            real(ctx, "bls12_381", cl, &pts_pool(&BigCurve::of(&jl), 1));
        },
    );
}
