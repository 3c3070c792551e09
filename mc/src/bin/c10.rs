//! C10: Merkle proofs and tree roots.
use fawkes_crypto::circuit::num::CNum;
use fawkes_crypto::circuit::poseidon::{c_poseidon_merkle_proof_root, c_poseidon_merkle_tree_root, CMerkleProof};
use fawkes_crypto::core::cs::ConstraintSystem;
use fawkes_crypto::core::field::Field;
use fawkes_crypto::core::signal::Signal;
use fawkes_crypto::core::sizedvec::SizedVec;
use fawkes_crypto::native::num::Num;
use fawkes_crypto::native::poseidon::{poseidon_merkle_proof_root, poseidon_merkle_tree_root, MerkleProof, PoseidonParams};
use mc::big::*;
use mc::ensure;
use mc::fp::Fp;
use mc::gad::Shape::*;
use mc::gad::*;
use mc::psd::{self, SPar};
use mc::report::{panics, run, Ctx, Res};
use num::bigint::BigUint;
use typenum::*;

fn nproof<F: Field, L: Unsigned>(leaf: Num<F>, sib: &[Num<F>], path: &[bool], par: &PoseidonParams<F>) -> Num<F> {
    let p = MerkleProof::<F, L> { sibling: sib.iter().cloned().collect(), path: path.iter().cloned().collect() };
    poseidon_merkle_proof_root(leaf, &p, par)
}
fn cproof<'a, CS: ConstraintSystem, L: Unsigned>(leaf: &CNum<'a, CS>, sib: &[CNum<'a, CS>], path: &[CNum<'a, CS>], par: &PoseidonParams<CS::F>) -> CNum<'a, CS> {
    let p = CMerkleProof::<CS, L> {
        sibling: sib.iter().cloned().collect::<SizedVec<_, L>>(),
        path: path.iter().map(|x| x.into_bool()).collect::<SizedVec<_, L>>(),
    };
    c_poseidon_merkle_proof_root(leaf, &p, par)
}
/// dispatch on the length
macro_rules! by_len {
    ($n:expr, $f:ident, $($a:expr),*) => {
        match $n {
            0 => $f::<_, U0>($($a),*), 1 => $f::<_, U1>($($a),*), 2 => $f::<_, U2>($($a),*), 3 => $f::<_, U3>($($a),*), 4 => $f::<_, U4>($($a),*), 5 => $f::<_, U5>($($a),*),
            6 => $f::<_, U6>($($a),*), 7 => $f::<_, U7>($($a),*), 8 => $f::<_, U8>($($a),*), 9 => $f::<_, U9>($($a),*), 10 => $f::<_, U10>($($a),*), 11 => $f::<_, U11>($($a),*),
            12 => $f::<_, U12>($($a),*), 13 => $f::<_, U13>($($a),*), 14 => $f::<_, U14>($($a),*), 15 => $f::<_, U15>($($a),*), 16 => $f::<_, U16>($($a),*), 17 => $f::<_, U17>($($a),*),
            18 => $f::<_, U18>($($a),*), 19 => $f::<_, U19>($($a),*), 20 => $f::<_, U20>($($a),*), 21 => $f::<_, U21>($($a),*), 22 => $f::<_, U22>($($a),*), 23 => $f::<_, U23>($($a),*),
            24 => $f::<_, U24>($($a),*), 25 => $f::<_, U25>($($a),*), 26 => $f::<_, U26>($($a),*), 27 => $f::<_, U27>($($a),*), 28 => $f::<_, U28>($($a),*), 29 => $f::<_, U29>($($a),*),
            30 => $f::<_, U30>($($a),*), 31 => $f::<_, U31>($($a),*), 32 => $f::<_, U32>($($a),*), 33 => $f::<_, U33>($($a),*), 34 => $f::<_, U34>($($a),*), 35 => $f::<_, U35>($($a),*),
            36 => $f::<_, U36>($($a),*), 37 => $f::<_, U37>($($a),*), 38 => $f::<_, U38>($($a),*), 39 => $f::<_, U39>($($a),*), 40 => $f::<_, U40>($($a),*), 48 => $f::<_, U48>($($a),*),
            63 => $f::<_, U63>($($a),*), 64 => $f::<_, U64>($($a),*), 65 => $f::<_, U65>($($a),*), 100 => $f::<_, U100>($($a),*),
            _ => unreachable!(),
        }
    };
}
const DEPTHS: [usize; 24] = [5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 20, 24, 25, 31, 32, 33, 36, 40, 48, 63, 64, 65, 100];

fn pars<const P: u64>(thorough: bool) -> Vec<SPar> {
    let mut v = vec![];
    for t in 2..=if thorough { 4 } else { 3 } {
        for kind in [0usize, 2, 3].iter() {
            v.push(SPar::make(t, 2, 1, P, *kind));
        }
    }
    // no rounds at all: the hash is the first operand; one round with rows swapped: the second
    v.push(SPar::make(2, 0, 0, P, 0));
    v.push(SPar { c: vec![1], m: vec![vec![0, 1], vec![1, 0]], t: 2, f: 0, p: 1 });
    v
}
fn lv(n: usize, q: u64, style: u64) -> Vec<u64> {
    (0..n as u64).map(|i| match style { 0 => (i + 1) % q, 1 => (3 * i * i + 2) % q, 2 => (i == n as u64 - 1) as u64, _ => (i == 0) as u64 * (q - 1) }).collect()
}

fn tree<const P: u64>(ctx: &Ctx, maxn: usize, full: usize) {
    let mut items = vec![];
    for (k, s) in pars::<P>(ctx.thorough()).into_iter().enumerate() {
        for n in 1..=maxn {
            items.push((format!("F{}/tree params {} leaves {}", P, k, n), (s.clone(), n)));
        }
    }
    ctx.sample(items[items.len() / 2].0.clone());
    ctx.par(items, |(s, n)| {
        let lib = s.lib::<P>();
        let mut dom: Vec<Vec<u64>> = (0..4).map(|i| lv(*n, P, i)).collect();
        // one-hot in every position
        for i in 0..*n {
            dom.push((0..*n).map(|j| if i == j { 2 } else { 0 }).collect());
            dom.push((0..*n).map(|j| if i == j { 0 } else { j as u64 % (P - 1) + 1 }).collect());
        }
        if *n <= full {
            dom = tuples(P, *n);
        }
        for d in &dom {
            let levels = s.tree(P, d);
            let root = levels.last().unwrap()[0];
            let v: Vec<_> = d.iter().map(|x| Num(Fp::<P>(*x))).collect();
            let r = poseidon_merkle_tree_root(&v, &lib).0 .0;
            ensure!(r == root, "native tree of {:?}: {} want {}", d, r, root);
            ctx.point(1);
            // the authentic path of every position
            let h = levels.len() - 1;
            if h <= 7 {
                for pos in 0..levels[0].len() {
                    let sib: Vec<_> = (0..h).map(|l| Num(Fp::<P>(levels[l][(pos >> l) ^ 1]))).collect();
                    let path: Vec<bool> = (0..h).map(|l| (pos >> l) & 1 == 1).collect();
                    let leaf = Num(Fp::<P>(levels[0][pos]));
                    let r = by_len!(h, nproof, leaf, &sib, &path, &lib).0 .0;
                    ensure!(r == root, "authentic path of {} in {:?}: {} want {}", pos, d, r, root);
                    ctx.point(1);
                }
            }
        }
        let shs = [vec![Var; *n], (0..*n).map(|i| [Const, Var, Dif, Tri, ConstE][i % 5]).collect::<Vec<_>>(), (0..*n).map(|i| if i + 1 == *n { Const } else { Inp }).collect(), vec![Const; *n]];
        for sh in shs.iter() {
            relation::<P>(ctx, sh, &dom, &|_, i| vec![c_poseidon_merkle_tree_root(i, &lib)], &|x| out1(s.tree(P, x).last().unwrap()[0]))?;
        }
        // the same signal in all leaves
        let d1: Vec<_> = (0..P).map(|x| vec![x]).collect();
        relation::<P>(ctx, &[Var], &d1, &|_, i| vec![c_poseidon_merkle_tree_root(&vec![i[0].clone(); *n], &lib)], &|x| out1(s.tree(P, &vec![x[0]; *n]).last().unwrap()[0]))
    });
}

fn fold<const P: u64>(s: &SPar, h: usize, x: &[u64]) -> u64 {
    // x: leaf, siblings, bits
    let mut r = x[0];
    for i in 0..h {
        r = if x[1 + h + i] == 1 { s.hash(P, &[x[1 + i], r]) } else { s.hash(P, &[r, x[1 + i]]) };
    }
    r
}

fn proof<const P: u64>(ctx: &Ctx, h: usize, full: bool) {
    let mut items = vec![];
    let al = [Var, Const, Dif];
    for (k, s) in pars::<P>(ctx.thorough()).into_iter().enumerate() {
        let mut shapes = vec![];
        for l in al.iter() {
            for sb in al.iter() {
                for b in [Var, Inp, Const, Dif].iter() {
                    let mut sh = vec![*l];
                    sh.extend(vec![*sb; h]);
                    sh.extend(vec![*b; h]);
                    shapes.push(sh);
                }
            }
        }
        for j in 0..h {
            // one level different from the others
            let mut sh = vec![Tri];
            sh.extend((0..h).map(|i| if i == j { Const } else { Tri }));
            sh.extend((0..h).map(|i| if i == j { Const } else { Var }));
            shapes.push(sh.clone());
            let mut sh = vec![Const];
            sh.extend((0..h).map(|i| if i == j { Var } else { ConstE }));
            sh.extend((0..h).map(|i| if i == j { Aff(2, 1) } else { ConstE }));
            shapes.push(sh);
        }
        for sh in shapes {
            items.push((format!("F{}/proof params {} {:?}", P, k, sh), (s.clone(), sh)));
        }
    }
    let mut dom = vec![];
    let vals = if full { tuples(P, 1 + h) } else { tuples(3, 1 + h).into_iter().map(|v| v.iter().map(|x| [1, 2, P - 1][*x as usize]).collect()).collect() };
    for v in vals {
        for b in tuples(2, h) {
            let mut t: Vec<u64> = v.clone();
            t.extend(b);
            dom.push(t);
        }
    }
    ctx.par(items, |(s, sh)| {
        let lib = s.lib::<P>();
        for d in &dom {
            let v: Vec<_> = d.iter().map(|x| Num(Fp::<P>(*x))).collect();
            let path: Vec<bool> = d[1 + h..].iter().map(|x| *x == 1).collect();
            let r = by_len!(h, nproof, v[0], &v[1..1 + h], &path, &lib).0 .0;
            ensure!(r == fold::<P>(s, h, d), "native fold {:?}", d);
        }
        ctx.point(dom.len() as u64);
        relation::<P>(ctx, sh, &dom, &|_, i| vec![by_len!(h, cproof, &i[0], &i[1..1 + h], &i[1 + h..], &lib)], &|x| out1(fold::<P>(s, h, x)))
    });
}

fn real<F: Field>(ctx: &Ctx, name: &str) {
    let al: Vec<BigUint> = alphabet::<F>(false).into_iter().step_by(3).collect();
    let lib = PoseidonParams::<F>::new(3, 8, 53);
    let par = psd::plain(&lib);
    let ns: Vec<usize> = if ctx.quick() { vec![1, 2, 3, 4, 5, 8, 9, 13] } else { (1..=33).chain([63, 64, 65, 127].iter().cloned()).collect() };
    ctx.par(ns.into_iter().map(|n| (format!("{}/tree {}", name, n), n)).collect(), |n| {
        let leaves: Vec<BigUint> = (0..*n).map(|i| al[(i * 5 + n) % al.len()].clone()).collect();
        let levels = psd::tree(&par, &leaves);
        let root = levels.last().unwrap()[0].clone();
        let nums: Vec<Num<F>> = leaves.iter().map(|x| num_of(x)).collect();
        ensure!(nbig(&poseidon_merkle_tree_root(&nums, &lib)) == root, "native tree");
        let h = levels.len() - 1;
        for pos in 0..levels[0].len() {
            let sib: Vec<Num<F>> = (0..h).map(|l| num_of(&levels[l][(pos >> l) ^ 1])).collect();
            let path: Vec<bool> = (0..h).map(|l| (pos >> l) & 1 == 1).collect();
            let r = by_len!(h, nproof, num_of(&levels[0][pos]), &sib, &path, &lib);
            ensure!(nbig(&r) == root, "authentic path of {}", pos);
            ctx.point(1);
            if pos % 3 == 0 {
                let mut ins: Vec<F> = vec![felt(&levels[0][pos])];
                ins.extend(sib.iter().map(|x| x.0));
                ins.extend(path.iter().map(|b| felt::<F>(&big(*b as u64))));
                let mut sh = vec![RShape::Var; 1 + 2 * h];
                if pos % 2 == 0 && h > 0 {
                    sh[1] = RShape::Const;
                    sh[1 + h] = RShape::Inp;
                }
                real_relation::<F>(ctx, &sh, &ins, &|_, i| vec![by_len!(h, cproof, &i[0], &i[1..1 + h], &i[1 + h..], &lib)], Some(&[felt(&root)]), true)?;
            }
        }
        if *n <= 33 {
            let fl: Vec<F> = leaves.iter().map(|x| felt(x)).collect();
            for sh in [RShape::Var, RShape::Const].iter() {
                real_relation::<F>(ctx, &vec![*sh; *n], &fl, &|_, i| vec![c_poseidon_merkle_tree_root(i, &lib)], Some(&[felt(&root)]), true)?;
            }
        }
        Ok(())
    });
    // depth 32, every single direction bit set, all, none, alternating
    let mut pats: Vec<u64> = (0..32).step_by(ctx.t(8, 1)).map(|i| 1u64 << i).collect();
    pats.extend([0, 0xffff_ffff, 0x5555_5555, 0xaaaa_aaaa, 0xffff_0000].iter());
    ctx.par(pats.into_iter().map(|n| (format!("{}/depth 32 path {:x}", name, n), n)).collect(), |pat| {
        let h = 32;
        let sib: Vec<BigUint> = (0..h).map(|i| al[(i * 3 + 1) % al.len()].clone()).collect();
        let path: Vec<bool> = (0..h).map(|i| (pat >> i) & 1 == 1).collect();
        let mut r = al[2].clone();
        for i in 0..h {
            r = if path[i] { psd::hash(&par, &[sib[i].clone(), r]) } else { psd::hash(&par, &[r, sib[i].clone()]) };
        }
        let ns: Vec<Num<F>> = sib.iter().map(|x| num_of(x)).collect();
        ensure!(nbig(&by_len!(h, nproof, num_of(&al[2]), &ns, &path, &lib)) == r, "native fold");
        ctx.point(1);
        let mut ins: Vec<F> = vec![felt(&al[2])];
        ins.extend(ns.iter().map(|x| x.0));
        ins.extend(path.iter().map(|b| felt::<F>(&big(*b as u64))));
        real_relation::<F>(ctx, &vec![RShape::Var; 65], &ins, &|_, i| vec![by_len!(h, cproof, &i[0], &i[1..1 + h], &i[1 + h..], &lib)], Some(&[felt(&r)]), ctx.thorough())
    });
}

/// leaf counts and depths beyond the complete exploration, on a small field with an uncollapsed hash
fn wide<const P: u64>(ctx: &Ctx, maxn: usize, extra: &[usize]) {
    let s = SPar::make(3, 2, 1, P, 2);
    let lib = s.lib::<P>();
    let ns: Vec<usize> = (1..=maxn).chain(extra.iter().cloned()).collect();
    let toy = |x: &[u64]| x.iter().map(|x| Num(Fp::<P>(*x))).collect::<Vec<_>>();
    ctx.par(ns.into_iter().map(|n| (format!("F{}/wide tree of {}", P, n), n)).collect(), |n| {
        for style in 0..2 {
            let d = lv(*n, P, style);
            let levels = s.tree(P, &d);
            let root = levels.last().unwrap()[0];
            ensure!(poseidon_merkle_tree_root(&toy(&d), &lib).0 .0 == root, "native tree");
            let h = levels.len() - 1;
            for pos in 0..levels[0].len() {
                let sib: Vec<u64> = (0..h).map(|l| levels[l][(pos >> l) ^ 1]).collect();
                let path: Vec<bool> = (0..h).map(|l| (pos >> l) & 1 == 1).collect();
                let r = by_len!(h, nproof, Num(Fp::<P>(levels[0][pos])), &toy(&sib), &path, &lib).0 .0;
                ensure!(r == root, "authentic path of {}: {} want {}", pos, r, root);
                ctx.point(1);
            }
            if *n <= 70 || style == 0 && *n < 200 {
                for sh in [RShape::Var, RShape::Const].iter() {
                    let fl: Vec<Fp<P>> = d.iter().map(|x| Fp(*x)).collect();
                    real_relation::<Fp<P>>(ctx, &vec![*sh; *n], &fl, &|_, i| vec![c_poseidon_merkle_tree_root(i, &lib)], Some(&[Fp(root)]), true)?;
                }
            }
            ctx.point(1);
            ctx.beat();
        }
        Ok(())
    });
    ctx.par(DEPTHS.iter().map(|h| (format!("F{}/wide proof of depth {}", P, h), *h)).collect(), |h| {
        let h = *h;
        let mut pats: Vec<Vec<bool>> = (0..h).map(|k| (0..h).map(|i| i == k).collect()).collect();
        pats.extend((0..h).map(|k| (0..h).map(|i| i != k).collect::<Vec<bool>>()));
        pats.push(vec![false; h]);
        pats.push((0..h).map(|i| i % 2 == 0).collect());
        for (k, pat) in pats.iter().enumerate() {
            let mut x = lv(1 + h, P, 1);
            x.extend(pat.iter().map(|b| *b as u64));
            let v = toy(&x);
            let want = fold::<P>(&s, h, &x);
            let r = by_len!(h, nproof, v[0], &v[1..1 + h], pat, &lib).0 .0;
            ensure!(r == want, "native fold of depth {} path {:?}", h, pat);
            ctx.point(1);
            if k % 7 == 0 || k + 2 > pats.len() {
                let fl: Vec<Fp<P>> = x.iter().map(|x| Fp(*x)).collect();
                let mut sh = vec![RShape::Var; 1 + 2 * h];
                if k % 2 == 1 {
                    sh[1 + h] = RShape::Const;
                    sh[h] = RShape::Inp;
                }
                real_relation::<Fp<P>>(ctx, &sh, &fl, &|_, i| vec![by_len!(h, cproof, &i[0], &i[1..1 + h], &i[1 + h..], &lib)], Some(&[Fp(want)]), true)?;
            }
            ctx.beat();
        }
        Ok(())
    });
}

fn main() {
    run(
        "C10",
        &["path bits are bits (the gadget's domain; CMerkleProof::alloc does not constrain them)", "complete leaf/witness spaces on tiny fields; boundary leaves on production fields",
          "larger trees (up to 257 leaves, thorough 1025) and depths (up to 100): two leaf patterns, every position, every single direction bit"],
        true,
        |ctx| {
            ctx.case("no leaves", || -> Res {
                let s = SPar::make(2, 2, 1, 7, 0).lib::<7>();
                ensure!(panics(|| poseidon_merkle_tree_root(&[], &s)), "an empty leaf list must panic");
                ensure!(panics(|| c_poseidon_merkle_tree_root::<Cs<7>>(&[], &s)), "an empty leaf list must panic in circuit");
                ctx.point(2);
                Ok(())
            });
            tree::<5>(ctx, 9, 4);
            tree::<13>(ctx, 17, ctx.t(2, 3));
            for h in 0..=ctx.t(2, 3) {
                proof::<5>(ctx, h, true);
                if h < 3 {
                    proof::<13>(ctx, h, h < 2 || ctx.thorough());
                }
            }
            proof::<7>(ctx, 3, false);
            proof::<7>(ctx, 4, false);
            wide::<101>(ctx, ctx.t(40, 140), &[63, 64, 65, 100, 127, 128, 129, 255, 256, 257]);
            if ctx.thorough() {
                wide::<10007>(ctx, 300, &[511, 512, 513, 1000, 1023, 1024, 1025]);
                tree::<7>(ctx, 40, 5);
                tree::<101>(ctx, 70, 2);
                proof::<7>(ctx, 5, false);
            }
            use fawkes_crypto::native::{bls12_381 as bl, bn256 as bn};
            real::<bn::Fr>(ctx, "bn256.Fr");
            real::<bl::Fr>(ctx, "bls12_381.Fr");
        },
    );
}
