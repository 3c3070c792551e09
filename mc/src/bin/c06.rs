//! C06: bit decomposition, constant comparison, packing.
use fawkes_crypto::circuit::bitify::*;
use fawkes_crypto::circuit::bool::CBool;
use fawkes_crypto::circuit::num::CNum;
use fawkes_crypto::core::field::{Field, PrimeField};
use fawkes_crypto::core::signal::Signal;
use fawkes_crypto::native::num::Num;
use mc::big::*;
use mc::ensure;
use mc::fp::Fp;
use mc::gad::Shape::*;
use mc::gad::*;
use mc::rec::{lc_value, RecCS};
use mc::report::{guard, run, Ctx, Res};

fn digits(x: u64, n: usize) -> Vec<u64> {
    (0..n).map(|i| (x >> i) & 1).collect()
}

fn tiny<const P: u64>(ctx: &Ctx, alpha: &[Shape]) {
    let nb = <Fp<P> as PrimeField>::NUM_BITS as usize;
    let all = tuples(P, 1);
    // decomposition to n bits
    let mut items = vec![];
    for n in 1..=nb {
        for s in alpha {
            items.push((format!("F{}/into_bits({})/{:?}", P, n, s), (n, *s)));
        }
    }
    ctx.par(items, |(n, s)| {
        let n = *n;
        relation::<P>(
            ctx,
            &[*s],
            &all,
            &|_, i| c_into_bits_le(&i[0], n).into_iter().map(|b| b.0).collect(),
            &|x| {
                if n == nb && !s.is_const() {
                    // digits of some n-bit integer congruent to the value
                    let mut set = std::collections::BTreeSet::new();
                    let mut y = x[0];
                    while y < 1 << n {
                        set.insert(digits(y, n));
                        y += P;
                    }
                    Want::AnyOf(set)
                } else if x[0] < 1 << n {
                    Want::Out(digits(x[0], n))
                } else {
                    Want::Unsat
                }
            },
        )
    });
    // strict decomposition: honest digits are canonical and nothing else is possible
    if nb >= 4 {
        ctx.par(alpha.iter().map(|s| (format!("F{}/into_bits_strict/{:?}", P, s), *s)).collect(), |s| {
            relation::<P>(
                ctx,
                &[*s],
                &all,
                &|_, i| c_into_bits_le_strict(&i[0]).into_iter().map(|b| b.0).collect(),
                &|x| Want::Out(digits(x[0], nb)),
            )
        });
    }
}

/// comparison and packing: all bit-vector lengths, all constants, all bit vectors
fn tiny_bits<const P: u64>(ctx: &Ctx, alpha: &[Vec<Shape>], cts: &[u64]) {
    let nb = <Fp<P> as PrimeField>::NUM_BITS as usize;
    let mut items = vec![];
    for n in 1..=nb {
        for (k, sh) in alpha.iter().enumerate() {
            for ct in cts {
                items.push((format!("F{}/comp({} bits, {})/{}", P, n, ct, k), (n, sh.clone(), Some(*ct))));
            }
            items.push((format!("F{}/from_bits({} bits)/{}", P, n, k), (n, sh.clone(), None)));
        }
    }
    for n in nb + 1..=nb + 3 {
        for (k, sh) in alpha.iter().enumerate() {
            items.push((format!("F{}/from_bits({} bits)/{}", P, n, k), (n, sh.clone(), None)));
        }
    }
    ctx.sample(items[items.len() / 2].0.clone());
    ctx.par(items, |(n, sh, ct)| {
        let shapes: Vec<Shape> = (0..*n).map(|i| sh[i % sh.len()]).collect();
        let dom: Vec<Vec<u64>> = (0..1u64 << n).map(|x| digits(x, *n)).collect();
        let val = |x: &[u64]| x.iter().enumerate().map(|(i, b)| b << i).sum::<u64>();
        match ct {
            Some(ct) => relation::<P>(
                ctx,
                &shapes,
                &dom,
                &|_, i| {
                    let bits: Vec<CBool<_>> = i.iter().map(|s| s.into_bool()).collect();
                    vec![c_comp_constant(&bits, Num(Fp::<P>(*ct))).0]
                },
                &|x| out1((val(x) > *ct) as u64),
            ),
            None => relation::<P>(
                ctx,
                &shapes,
                &dom,
                &|_, i| {
                    let bits: Vec<CBool<_>> = i.iter().map(|s| s.into_bool()).collect();
                    vec![c_from_bits_le(&bits)]
                },
                &|x| out1(val(x) % P),
            ),
        }
    });
}

/// honest prover and constant path on a production field
fn real<F: Field>(ctx: &Ctx, name: &str) {
    let p = modulus::<F>();
    let nb = F::NUM_BITS as usize;
    let elems = alphabet::<F>(ctx.thorough());
    let bit = |x: &BigUint, i: usize| ((x >> i) & big(1)) == big(1);
    let mut items = vec![];
    for x in &elems {
        items.push((format!("{}/real/{}", name, x), x.clone()));
    }
    let limits: Vec<usize> = {
        let mut v: Vec<usize> = vec![1, 2, 3, 4, 7, 8, 9, 31, 32, 33, 63, 64, 65, 127, 128, 129, 191, 192, 193, nb - 2, nb - 1, nb];
        if ctx.thorough() {
            v = (1..=nb).collect();
        }
        v
    };
    let cts: Vec<BigUint> = if ctx.quick() { elems.iter().step_by(5).cloned().collect() } else { elems.clone() };
    ctx.par(items, |x| {
        let n: Num<F> = num_of(x);
        for &lim in &limits {
            let fits = *x < pow2(lim);
            for konst in 0..2 {
                let cs = RecCS::<F>::new();
                let r = guard(|| {
                    let s = if konst == 1 { CNum::from_const(&cs, &n) } else { CNum::alloc(&cs, Some(&n)) };
                    c_into_bits_le(&s, lim).into_iter().map(|b| (b.0.value.map(|v| v.0), lc_value(&b.0))).collect::<Vec<_>>()
                });
                let ok = match &r {
                    Ok(_) => cs.honest_ok(),
                    Err(m) => Err(m.clone()),
                };
                ensure!(ok.is_ok() == fits, "into_bits({}, {}) const={}: {:?}", x, lim, konst, ok);
                if let (Ok(bits), true) = (r, fits) {
                    ensure!(bits.len() == lim, "length");
                    for i in 0..lim {
                        let w = if bit(x, i) { F::one() } else { F::zero() };
                        ensure!(bits[i].0 == Some(w) && bits[i].1 == Some(w), "bit {} of {} ({} bits)", i, x, lim);
                    }
                }
                ctx.point(1);
            }
        }
        // strict
        for konst in 0..2 {
            let cs = RecCS::<F>::new();
            let s = if konst == 1 { CNum::from_const(&cs, &n) } else { CNum::alloc(&cs, Some(&n)) };
            let bits = c_into_bits_le_strict(&s);
            ensure!(bits.len() == nb, "strict length");
            for i in 0..nb {
                ensure!(bits[i].get_value() == Some(bit(x, i)), "strict bit {} of {}", i, x);
            }
            cs.honest_ok().map_err(|m| format!("strict({}): {}", x, m))?;
            let back = c_from_bits_le(&bits);
            ensure!(back.value.map(|v| nbig(&v)) == Some(x.clone()), "packing of {}", x);
            ctx.point(1);
        }
        // comparison of the full-width digits and shorter prefixes
        for ct in &cts {
            for &len in [1usize, 2, 3, 64, 65, 128, nb - 1, nb].iter() {
                if ctx.quick() && len != nb && len != 65 && len != 2 {
                    continue;
                }
                let y = x % pow2(len);
                let cs = RecCS::<F>::new();
                let bits: Vec<CBool<_>> = (0..len).map(|i| CBool::alloc(&cs, Some(&bit(x, i)))).collect();
                let r = guard(|| c_comp_constant(&bits, num_of(ct)).get_value()).map_err(|m| format!("comp({},{}) len {}: {}", y, ct, len, m))?;
                cs.honest_ok().map_err(|m| format!("comp({},{}) len {}: {}", y, ct, len, m))?;
                ensure!(r == Some(y > *ct), "comp({} bits of {}, {}) = {:?}", len, x, ct, r);
                ctx.point(1);
            }
        }
        // integers at or above the prime compare and pack correctly
        let y = x + &p;
        if y < pow2(nb) {
            let cs = RecCS::<F>::new();
            let bits: Vec<CBool<_>> = (0..nb).map(|i| CBool::alloc(&cs, Some(&bit(&y, i)))).collect();
            let r = guard(|| c_comp_constant(&bits, -Num::one()).get_value())?;
            cs.honest_ok()?;
            ensure!(r == Some(true), "comp({} >= p, p-1) = {:?}", y, r);
            ensure!(c_from_bits_le(&bits).value.map(|v| nbig(&v)) == Some(x.clone()), "packing {}", y);
            ctx.point(2);
        }
        Ok(())
    });
    ctx.note(format!("{}: honest runs and constants over {} elements, {} limits, {} comparison constants", name, elems.len(), limits.len(), cts.len()));
}

/// every limit and every comparison length of a production field, at the values around that length
fn every_length<F: Field>(ctx: &Ctx, name: &str) {
    let p = modulus::<F>();
    let nb = F::NUM_BITS as usize;
    let bit = |x: &BigUint, i: usize| ((x >> i) & big(1)) == big(1);
    // packing, also of more bits than the field has: the weighted sum in the field
    let packs = |x: &BigUint, len: usize| -> Res {
        for konst in 0..2 {
            let cs = RecCS::<F>::new();
            let bits: Vec<CBool<_>> = (0..len).map(|i| if konst == 1 { CBool::from_const(&cs, &bit(x, i)) } else { CBool::alloc(&cs, Some(&bit(x, i))) }).collect();
            let r = guard(|| { let c = c_from_bits_le(&bits); (c.value.map(|v| nbig(&v)), lc_value(&c).map(|v| nbig(&Num(v)))) }).map_err(|m| format!("packing {} bits: {}", len, m))?;
            let want = Some((x % pow2(len)) % &p);
            ensure!(r == (want.clone(), want.clone()), "packing {} bits of {}: {:?}", len, x, r);
            ctx.point(1);
        }
        Ok(())
    };
    ctx.par((257..=300usize).chain(vec![511, 512, 513, 1000]).map(|l| (format!("{}/packing {} bits", name, l), l)).collect(), |&len| {
        for x in [big(0), big(1), pow2(len) - big(1), pow2(len - 1), p.clone(), pow2(256), (pow2(len) - big(1)) / big(3)].iter() {
            packs(x, len)?;
        }
        Ok(())
    });
    ctx.par((1..=256).map(|l| (format!("{}/every length/{}", name, l), l)).collect(), |&len| {
        let xs: Vec<BigUint> = vec![big(0), big(1), pow2(len) - big(1), pow2(len), pow2(len - 1), pow2(len) + big(1), pow2(len / 2), &p - big(1), (pow2(len) - big(1)) / big(3)].into_iter().filter(|x| *x < p).collect();
        let xs: Vec<BigUint> = if len > nb { vec![big(0), big(1), pow2(len) - big(1), pow2(len - 1), &p - big(1), p.clone(), &p + big(1), pow2(nb) - big(1), pow2(nb), (pow2(len) - big(1)) / big(3)] } else { xs };
        for x in &xs {
            packs(x, len)?;
            let n: Num<F> = num_of(x);
            let fits = *x < pow2(len);
            for konst in 0..if len > nb { 0 } else { 2 } {
                let cs = RecCS::<F>::new();
                let r = guard(|| {
                    let s = if konst == 1 { CNum::from_const(&cs, &n) } else { CNum::alloc(&cs, Some(&n)) };
                    let b = c_into_bits_le(&s, len);
                    let back = c_from_bits_le(&b).value.map(|v| nbig(&v));
                    (b.into_iter().map(|b| (b.0.value.map(|v| v.0), lc_value(&b.0))).collect::<Vec<_>>(), back)
                });
                let ok = match &r {
                    Ok(_) => cs.honest_ok(),
                    Err(m) => Err(m.clone()),
                };
                ensure!(ok.is_ok() == fits, "into_bits({}, {}) const={}: {:?}", x, len, konst, ok);
                if let (Ok((bits, back)), true) = (r, fits) {
                    ensure!(bits.len() == len, "length");
                    for i in 0..len {
                        let w = if bit(x, i) { F::one() } else { F::zero() };
                        ensure!(bits[i].0 == Some(w) && bits[i].1 == Some(w), "bit {} of {} ({} bits)", i, x, len);
                    }
                    ensure!(back == Some(x.clone()), "packing {} bits of {}: {:?}", len, x, back);
                }
                ctx.point(1);
            }
            let y = x % pow2(len);
            let mut cts = vec![y.clone(), big(0), pow2(len) - big(1), pow2(len), &p - big(1), pow2(len / 2)];
            if y > big(0) {
                cts.push(&y - big(1));
            }
            for ct in cts.iter().filter(|c| **c < p) {
                for konst in 0..2 {
                    let cs = RecCS::<F>::new();
                    let bits: Vec<CBool<_>> = (0..len).map(|i| if konst == 1 { CBool::from_const(&cs, &bit(x, i)) } else { CBool::alloc(&cs, Some(&bit(x, i))) }).collect();
                    let r = guard(|| { let c = c_comp_constant(&bits, num_of(ct)); (c.get_value(), lc_value(&c.0)) }).map_err(|m| format!("comp({},{}) len {}: {}", y, ct, len, m))?;
                    cs.honest_ok().map_err(|m| format!("comp({},{}) len {}: {}", y, ct, len, m))?;
                    ensure!(r == (Some(y > *ct), Some(if y > *ct { F::one() } else { F::zero() })), "comp({} bits of {}, {}) = {:?}", len, x, ct, r);
                    ctx.point(1);
                }
            }
        }
        Ok(())
    });
}

/// complete witness space on a production field, for fixed operand values
fn real_sound<F: Field>(ctx: &Ctx, name: &str) {
    let p = modulus::<F>();
    let nb = F::NUM_BITS as usize;
    let elems = alphabet::<F>(ctx.thorough());
    let elems: Vec<BigUint> = if ctx.quick() { elems.into_iter().step_by(4).collect() } else { elems };
    let bit = |x: &BigUint, i: usize| ((x >> i) & big(1)) == big(1);
    let fb = |b: bool| if b { F::one() } else { F::zero() };
    let mut items: Vec<(String, (usize, BigUint))> = vec![];
    for x in &elems {
        for l in [2usize, 5, 64, 129, 200, nb - 1].iter() {
            items.push((format!("{}/sound/into_bits({})/{}", name, l, x), (*l, x.clone())));
        }
        items.push((format!("{}/sound/strict/{}", name, x), (0, x.clone())));
        for l in [2usize, 64, 131, nb - 1, nb].iter() {
            items.push((format!("{}/sound/comp({})/{}", name, l, x), (1000 + *l, x.clone())));
        }
    }
    let cts: Vec<BigUint> = vec![big(0), big(5), pow2(64) - big(1), &p - big(1), (&p - big(1)) >> 1];
    ctx.par(items, |(kind, x)| {
        let n: Num<F> = num_of(x);
        let go = |v: Option<&Num<F>>, cs: &RecCS<F>, ct: &BigUint| -> Vec<mc::rec::Lc<F>> {
            if *kind >= 1000 {
                let bits: Vec<CBool<_>> = (0..*kind - 1000).map(|i| CBool::alloc(cs, v.map(|_| bit(x, i)).as_ref())).collect();
                vec![mc::rec::lc_of(&c_comp_constant(&bits, num_of(ct)).0)]
            } else {
                let s = CNum::alloc(cs, v);
                let b = if *kind == 0 { c_into_bits_le_strict(&s) } else { c_into_bits_le(&s, *kind) };
                b.iter().map(|b| mc::rec::lc_of(&b.0)).collect()
            }
        };
        let cts: &[BigUint] = if *kind >= 1000 { &cts } else { &cts[..1] };
        for ct in cts {
            let (cn, ch) = (RecCS::<F>::new(), RecCS::<F>::new());
            let outs = guard(|| go(None, &cn, ct)).map_err(|m| format!("synthesis: {}", m))?;
            let honest = guard(|| go(Some(&n), &ch, ct));
            let nin = if *kind >= 1000 { *kind - 1000 } else { 1 };
            let fixed: Vec<_> = cn.order.borrow()[..nin].to_vec();
            let vals: Vec<F> = if *kind >= 1000 { (0..nin).map(|i| fb(bit(x, i))).collect() } else { vec![n.0] };
            let want: Option<Vec<F>> = if *kind >= 1000 {
                Some(vec![fb(x % pow2(nin) > *ct)])
            } else if *kind == 0 {
                Some((0..nb).map(|i| fb(bit(x, i))).collect())
            } else if *x < pow2(*kind) {
                Some((0..*kind).map(|i| fb(bit(x, i))).collect())
            } else {
                None
            };
            if want.is_some() {
                honest.map_err(|m| format!("honest run: {}", m))?;
                ch.honest_ok()?;
                ch.same_shape(&cn)?;
            }
            let mut sys = mc::bigsolve::Sys::new(&cn, &fixed, &outs);
            let v = sys.decide(&vals, &ch, want.as_ref().map(|w| &w[..]), true);
            ctx.st(sys.nodes);
            ctx.tr(sys.steps);
            ctx.trace(1);
            match v {
                mc::bigsolve::Verdict::Forced => ctx.outcome("production field: outputs forced in the whole witness space"),
                mc::bigsolve::Verdict::Cheat(m) => return Err(m),
                mc::bigsolve::Verdict::Undecided(m) => {
                    ctx.outcome("production field: undecided");
                    ctx.note(format!("undecided {} {}: {}", kind, x, m));
                }
            }
        }
        Ok(())
    });
}

fn panics_case(ctx: &Ctx) {
    ctx.case("empty", || -> Res {
        ensure!(guard(|| c_comp_constant::<Cs<61>>(&[], Num(Fp(1)))).is_err(), "comparison of no bits");
        ensure!(guard(|| c_from_bits_le::<Cs<61>>(&[])).is_err(), "packing of no bits");
        ctx.point(2);
        Ok(())
    });
}

fn main() {
    run(
        "C06",
        &["soundness (all internal assignments) is decided on complete prime fields of 2 to 8 bits; comparison needs a field of at least 4 bits, as in the production fields",
          "limit ranges over 1..=NUM_BITS"],
        true,
        |ctx| {
            panics_case(ctx);
            let sh = [Var, Inp, Aff(2, 1), Dif, Tri, Const, ConstE];
            tiny::<3>(ctx, &[Var, Const]);
            tiny::<5>(ctx, &sh);
            tiny::<7>(ctx, &sh);
            tiny::<11>(ctx, &sh);
            tiny::<13>(ctx, &sh);
            tiny::<17>(ctx, &sh);
            tiny::<31>(ctx, &sh);
            tiny::<61>(ctx, &sh);
            tiny::<67>(ctx, &sh);
            tiny::<127>(ctx, &sh);
            tiny::<131>(ctx, &sh);
            tiny::<251>(ctx, &sh);
            let bs = vec![vec![Var], vec![Inp], vec![Const, Var, Var, Const, Aff(2, 1)], vec![Aff(60, 1)]];
            let all = |p: u64| (0..p).collect::<Vec<_>>();
            tiny_bits::<11>(ctx, &bs, &all(11));
            tiny_bits::<13>(ctx, &bs, &all(13));
            tiny_bits::<17>(ctx, &bs, &all(17));
            tiny_bits::<31>(ctx, &bs, &all(31));
            tiny_bits::<61>(ctx, &bs, &all(61));
            tiny_bits::<67>(ctx, &[vec![Var]], &all(67));
            if ctx.thorough() {
                tiny_bits::<61>(ctx, &[vec![Const], vec![ConstE, Var]], &all(61));
                tiny_bits::<127>(ctx, &bs, &all(127));
                tiny_bits::<131>(ctx, &bs, &all(131));
                tiny_bits::<251>(ctx, &bs, &all(251));
            }
            use fawkes_crypto::native::{bls12_381 as bl, bn256 as bn};
            real::<bn::Fr>(ctx, "bn256.Fr");
            real::<bl::Fr>(ctx, "bls12_381.Fr");
            every_length::<bn::Fr>(ctx, "bn256.Fr");
            every_length::<bl::Fr>(ctx, "bls12_381.Fr");
            real_sound::<bn::Fr>(ctx, "bn256.Fr");
            real_sound::<bl::Fr>(ctx, "bls12_381.Fr");
            real::<bn::Fs>(ctx, "bn256.Fs");
            real::<bl::Fs>(ctx, "bls12_381.Fs");
        },
    );
}
