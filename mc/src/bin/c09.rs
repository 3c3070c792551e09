//! C09: Poseidon, native and circuit.
use fawkes_crypto::circuit::poseidon::{c_poseidon, c_poseidon_with_salt};
use fawkes_crypto::core::field::Field;
use fawkes_crypto::core::signal::Signal;
use fawkes_crypto::circuit::num::CNum;
use fawkes_crypto::native::num::Num;
use fawkes_crypto::native::poseidon::{poseidon, poseidon_with_salt, PoseidonParams};
use mc::big::*;
use mc::ensure;
use mc::fp::Fp;
use mc::gad::Shape::*;
use mc::gad::*;
use mc::psd::{self, SPar};
use mc::report::{panics, run, Ctx, Res};
use num::bigint::BigUint;

const SEEDS: [&[u8]; 4] = [b"eddsaposeidon", b"", b"\x00", b"a seed of more than sixty-four bytes, to reach the second compression block....."];

fn tiny<const P: u64>(ctx: &Ctx, tmax: usize, fmax: usize, pmax: usize, maxdom: usize) {
    let mut items = vec![];
    for t in 1..=tmax {
        for f in 0..=fmax {
            for p in 0..=pmax {
                for kind in 0..4 {
                    items.push((format!("F{}/t={} f={} p={} kind {}", P, t, f, p, kind), SPar::make(t, f, p, P, kind)));
                }
            }
        }
    }
    ctx.sample(items[items.len() / 2].0.clone());
    ctx.par(items, |s: &SPar| {
        let lib = s.lib::<P>();
        for n in 1..=s.t {
            let mut dom = tuples(P, n);
            if dom.len() > maxdom {
                // boundary subset: all tuples over {0,1,2,p-1}
                dom = tuples(4, n).into_iter().map(|v| v.iter().map(|x| if *x == 3 { P - 1 } else { *x }).collect()).collect();
            }
            // native
            for d in &dom {
                let v: Vec<_> = d.iter().map(|x| Num(Fp::<P>(*x))).collect();
                let r = poseidon(&v, &lib).0 .0;
                ensure!(r == s.hash(P, d), "native {:?}: {} want {}", d, r, s.hash(P, d));
                ctx.point(1);
                // zero-padded inputs hash alike: unused cells are zero
                if n < s.t {
                    let mut w = v.clone();
                    w.push(Num::zero());
                    ensure!(poseidon(&w, &lib).0 .0 == r, "unused cells are not zero");
                }
            }
            // circuit, whole witness space
            let alphabet: &[Shape] = if n == 1 { &[Var, Inp, Dif, Tri, Const, ConstE] } else { &[Var, Dif, Const] };
            let shapes: Vec<Vec<Shape>> = if n <= 2 {
                shape_tuples(alphabet, n)
            } else {
                (0..=n).map(|k| (0..n).map(|i| if k == n { Var } else if i == k { Const } else if i == (k + 1) % n { Dif } else { Var }).collect()).chain(std::iter::once(vec![Const; n])).collect()
            };
            for sh in &shapes {
                relation::<P>(ctx, sh, &dom, &|_, i| vec![c_poseidon(i, &lib)], &|x| out1(s.hash(P, x)))?;
            }
            // one operand used in several cells
            if n >= 2 {
                let d1: Vec<Vec<u64>> = (0..P).map(|x| vec![x]).collect();
                relation::<P>(ctx, &[Var], &d1, &|_, i| vec![c_poseidon(&vec![i[0].clone(); n], &lib)], &|x| out1(s.hash(P, &vec![x[0]; n])))?;
            }
            // salted
            if n < s.t {
                for seed in SEEDS.iter() {
                    let e = psd::seed_elem(&big(P), 1, seed).to_u64_digits_();
                    let want = |x: &[u64]| {
                        let mut y = x.to_vec();
                        y.push(e);
                        s.hash(P, &y)
                    };
                    for d in &dom {
                        let v: Vec<_> = d.iter().map(|x| Num(Fp::<P>(*x))).collect();
                        let r = poseidon_with_salt(&v, seed, &lib).0 .0;
                        ensure!(r == want(d), "salted {:?} {:?}: {} want {}", d, seed, r, want(d));
                        ctx.point(1);
                    }
                    relation::<P>(ctx, &vec![Var; n], &dom, &|_, i| vec![c_poseidon_with_salt(i, seed, &lib)], &|x| out1(want(x)))?;
                    let mut sh = vec![Dif; n];
                    sh[0] = Const;
                    relation::<P>(ctx, &sh, &dom, &|_, i| vec![c_poseidon_with_salt(i, seed, &lib)], &|x| out1(want(x)))?;
                }
            }
        }
        Ok(())
    });
}

trait ToU {
    fn to_u64_digits_(&self) -> u64;
}
impl ToU for BigUint {
    fn to_u64_digits_(&self) -> u64 {
        use num::ToPrimitive;
        self.to_u64().unwrap()
    }
}

fn arity<F: Field>(ctx: &Ctx, name: &str) {
    ctx.case(&format!("{}/inadmissible counts", name), || -> Res {
        for t in 0..6usize {
            for (f, p) in [(2, 1), (8, 3), (0, 0), (1, 0), (0, 1)].iter() {
                let par = PoseidonParams::<F>::new(t, *f, *p);
                for n in 0..9usize {
                    let ins = vec![Num::<F>::one(); n];
                    let cs = mc::rec::RecCS::<F>::new();
                    let cins: Vec<CNum<_>> = ins.iter().map(|v| CNum::alloc(&cs, Some(v))).collect();
                    let kins: Vec<CNum<_>> = ins.iter().map(|v| CNum::from_const(&cs, v)).collect();
                    let bad = n == 0 || n > t;
                    ensure!(panics(|| poseidon(&ins, &par)) == bad, "native t={} n={}", t, n);
                    ensure!(panics(|| c_poseidon(&cins, &par)) == bad, "circuit t={} n={}", t, n);
                    ensure!(panics(|| c_poseidon(&kins, &par)) == bad, "circuit const t={} n={}", t, n);
                    let bad = n == 0 || n >= t;
                    ensure!(panics(|| poseidon_with_salt(&ins, b"x", &par)) == bad, "native salted t={} n={}", t, n);
                    ensure!(panics(|| c_poseidon_with_salt(&cins, b"x", &par)) == bad, "circuit salted t={} n={}", t, n);
                    ctx.point(5);
                }
            }
        }
        Ok(())
    });
}

fn real<F: Field>(ctx: &Ctx, name: &str, sets: &[(usize, usize, usize)]) {
    let al: Vec<BigUint> = alphabet::<F>(false).into_iter().step_by(ctx.t(4, 1)).collect();
    let mut items = vec![];
    for (t, f, p) in sets {
        for n in 1..=*t {
            items.push((format!("{}/t={} f={} p={} n={}", name, t, f, p, n), (*t, *f, *p, n)));
        }
    }
    ctx.par(items, |(t, f, p, n)| {
        let lib = PoseidonParams::<F>::new(*t, *f, *p);
        let par = psd::plain(&lib);
        for (k, _) in al.iter().enumerate() {
            let ins: Vec<BigUint> = (0..*n).map(|i| al[(k + i * (k + 3)) % al.len()].clone()).collect();
            let nums: Vec<Num<F>> = ins.iter().map(|x| num_of(x)).collect();
            let w = psd::hash(&par, &ins);
            ensure!(nbig(&poseidon(&nums, &lib)) == w, "native {:?}", ins);
            ctx.point(1);
            let salted = if n < t {
                let mut y = ins.clone();
                y.push(psd::seed_elem(&modulus::<F>(), num_bytes::<F>(), SEEDS[k % 4]));
                let w = psd::hash(&par, &y);
                ensure!(nbig(&poseidon_with_salt(&nums, SEEDS[k % 4], &lib)) == w, "native salted {:?}", ins);
                Some(felt::<F>(&w))
            } else {
                None
            };
            if k % ctx.t(5, 2) == 0 {
                let fins: Vec<F> = ins.iter().map(|x| felt(x)).collect();
                let wf = felt::<F>(&w);
                let shapes = [vec![RShape::Var; *n], vec![RShape::Long(3); *n], vec![RShape::Const; *n], (0..*n).map(|i| if i % 2 == 0 { RShape::Const } else { RShape::Inp }).collect::<Vec<_>>()];
                for sh in shapes.iter() {
                    real_relation::<F>(ctx, sh, &fins, &|_, i| vec![c_poseidon(i, &lib)], Some(&[wf]), true)?;
                    if let Some(s) = salted {
                        real_relation::<F>(ctx, sh, &fins, &|_, i| vec![c_poseidon_with_salt(i, SEEDS[k % 4], &lib)], Some(&[s]), true)?;
                    }
                }
            }
            ctx.beat();
        }
        Ok(())
    });
}

/// widths and round counts beyond the complete exploration: the hash at a few inputs per
/// (width, rounds, input count), native and in circuit with every variable determined
fn wide<F: Field>(ctx: &Ctx, name: &str, ts: &[usize], rounds: &[(usize, usize)]) {
    let al: Vec<BigUint> = alphabet::<F>(false);
    let mut items = vec![];
    for t in ts {
        for (f, p) in rounds {
            items.push((format!("{}/wide t={} f={} p={}", name, t, f, p), (*t, *f, *p)));
        }
    }
    ctx.par(items, |(t, f, p)| {
        let lib = PoseidonParams::<F>::new(*t, *f, *p);
        let par = psd::plain(&lib);
        for n in 1..=*t {
            let ins: Vec<BigUint> = (0..n).map(|i| al[(n + i * 5 + t) % al.len()].clone()).collect();
            let nums: Vec<Num<F>> = ins.iter().map(|x| num_of(x)).collect();
            let w = psd::hash(&par, &ins);
            ensure!(nbig(&poseidon(&nums, &lib)) == w, "native {} inputs", n);
            ctx.point(1);
            if n < *t {
                let mut y = ins.clone();
                y.push(psd::seed_elem(&modulus::<F>(), num_bytes::<F>(), SEEDS[n % 4]));
                ensure!(nbig(&poseidon_with_salt(&nums, SEEDS[n % 4], &lib)) == psd::hash(&par, &y), "native salted {} inputs", n);
                ctx.point(1);
            }
            if n == *t || n == 1 || n == *t / 2 {
                let fins: Vec<F> = ins.iter().map(|x| felt(x)).collect();
                for sh in [RShape::Var, RShape::Const].iter() {
                    real_relation::<F>(ctx, &vec![*sh; n], &fins, &|_, i| vec![c_poseidon(i, &lib)], Some(&[felt::<F>(&w)]), true)?;
                }
            }
            ctx.beat();
        }
        Ok(())
    });
}

fn main() {
    run(
        "C09",
        &[
            "complete input and witness spaces on tiny fields for all shapes up to the bound (beyond 5000 tuples: all tuples over {0,1,2,p-1})",
            "widths beyond 6 (up to 33) and rounds up to 32 full and 128 partial: a few inputs per input count",
            "production fields at boundary inputs; every internal variable there is determined by propagation",
        ],
        true,
        |ctx| {
            use fawkes_crypto::native::{bls12_381 as bl, bn256 as bn};
            arity::<Fp<7>>(ctx, "F7");
            arity::<bn::Fr>(ctx, "bn256.Fr");
            tiny::<7>(ctx, ctx.t(3, 4), ctx.t(3, 5), ctx.t(2, 4), 5000);
            tiny::<13>(ctx, ctx.t(2, 4), ctx.t(4, 5), ctx.t(2, 3), ctx.t(500, 5000));
            tiny::<61>(ctx, 2, ctx.t(2, 4), ctx.t(1, 3), 5000);
            let sets = [(2, 8, 56), (3, 8, 53), (4, 8, 54), (5, 8, 3), (3, 7, 2), (6, 3, 4)];
            real::<bn::Fr>(ctx, "bn256.Fr", &sets);
            real::<bl::Fr>(ctx, "bls12_381.Fr", &sets);
            let mid: Vec<usize> = (5..=12).collect();
            wide::<bn::Fr>(ctx, "bn256.Fr", &mid, &[(4, 2), (8, 1), (9, 3)]);
            wide::<bn::Fr>(ctx, "bn256.Fr", &[16, 17, 24, 33], &[(2, 1)]);
            wide::<bn::Fr>(ctx, "bn256.Fr", &[2, 3], &[(2, 56), (2, 57), (2, 60), (2, 63), (2, 64), (2, 65), (2, 83), (2, 100), (2, 128), (6, 0), (10, 57), (12, 20), (16, 2), (17, 1), (20, 0), (32, 3)]);
            if ctx.thorough() {
                wide::<bl::Fr>(ctx, "bls12_381.Fr", &(5..=20).collect::<Vec<_>>(), &[(4, 2), (8, 57), (9, 3)]);
                wide::<bl::Fr>(ctx, "bls12_381.Fr", &[2, 4], &(0..20).flat_map(|f| (0..30).map(move |p| (f, p * 5))).collect::<Vec<_>>());
                real::<bn::Fs>(ctx, "bn256.Fs", &sets);
                real::<bl::Fs>(ctx, "bls12_381.Fs", &sets);
            }
        },
    );
}
