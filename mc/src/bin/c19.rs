//! C19: Groth16 proofs verify for true statements and only with their inputs and key.
use fawkes_crypto::circuit::num::{CNum, Index};
use fawkes_crypto::core::cs::{Circuit, ConstraintSystem};
use fawkes_crypto::core::field::Field;
use fawkes_crypto::core::signal::Signal;
use fawkes_crypto::helpers::groth16::prover::{generate_keys, prove, Parameters, Proof};
use fawkes_crypto::helpers::groth16::verifier::{truncate_verifying_key, verify, TruncatedVerifyingKey};
use fawkes_crypto::native::num::Num;
use fawkes_crypto::native::poseidon::PoseidonParams;
use mc::big::*;
use mc::cat::*;
use mc::ensure;
use mc::fp::Fp;
use mc::rec::RecCS;
use mc::report::{guard, run, Ctx, Res};
use mc::toy::{Toy, BIGP, G1A, G2A};
use pairing::{bls12_381::Bls12, bn256::Bn256, CurveAffine, CurveProjective, Engine};
use std::any::Any;
use std::cell::RefCell;

thread_local! { static CURRENT: RefCell<Option<Box<dyn Any>>> = RefCell::new(None); }

/// the circuit handed to the library: `default()` is the value-free instance of the thread's circuit
struct Given<F: Field> {
    c: Circ<F>,
    w: Vec<Option<Num<F>>>,
}
/// circuits whose results are not published (the constant one then rarely occurs)
fn bare<F: Field>(c: &Circ<F>) -> bool {
    c.name.ends_with(" bare")
}
impl<F: Field> Default for Given<F> {
    fn default() -> Self {
        CURRENT.with(|x| {
            let b = x.borrow();
            let c: &Circ<F> = b.as_ref().unwrap().downcast_ref().unwrap();
            Given { c: c.clone(), w: vec![None; c.n] }
        })
    }
}
impl<F: Field> Circuit for Given<F> {
    type F = F;
    fn synthesize<CS: ConstraintSystem<F = F>>(&self, cs: &CS) {
        let out = self.c.build(cs, &self.w);
        // the results of the circuit are its further public inputs
        if !bare(&self.c) {
            for o in out.iter().take(3) {
                o.inputize();
            }
        }
        // a variable of no constraint is refused by the proving library: x * 0 = 0 for every witness
        let mut zero = CNum::from_const(cs, &Num::zero());
        zero.lc = linked_list::LinkedList::new();
        for k in 0..self.c.n {
            let mut v = zero.clone();
            v.value = self.w[k];
            v.lc.push_back((self.index(k), Num::one()));
            cs.enforce(&v, &zero, &zero);
        }
    }
    fn get_inputs(&self) -> Option<Vec<Num<F>>> {
        None
    }
}
impl<F: Field> Given<F> {
    /// the variable of witness number k
    fn index(&self, k: usize) -> Index {
        let public = |i: usize| match &self.c.kind {
            Kind::Raw(p, _) => p[i],
            _ => i % 2 == 1,
        };
        let before = (0..k).filter(|i| public(*i) == public(k)).count();
        if public(k) {
            Index::Input(before + 1)
        } else {
            Index::Aux(before)
        }
    }
}

fn keys<E: Engine>(c: &Circ<E::Fr>) -> Result<Parameters<E>, String>
where
    E::Fr: Field,
{
    CURRENT.with(|x| *x.borrow_mut() = Some(Box::new(c.clone())));
    guard(|| generate_keys::<E, Given<E::Fr>>())
}

/// (public inputs, satisfied) of a witness, decided by the recorder
fn status<F: Field>(g: &Given<F>) -> Option<(Vec<F>, bool)> {
    let cs = RecCS::<F>::new();
    guard(|| g.synthesize(&cs)).ok()?;
    let sat = cs.unsatisfied().ok()?.is_none();
    let inputs = cs.inputs.borrow().iter().map(|x| x.unwrap().0).collect();
    Some((inputs, sat))
}

struct Side<E: Engine> {
    params: Parameters<E>,
    tvk: TruncatedVerifyingKey<E>,
    /// a key of the same circuit from another ceremony
    foreign: Option<TruncatedVerifyingKey<E>>,
}
fn accepts<E: Engine>(k: &TruncatedVerifyingKey<E>, p: &Proof<E>, i: &[E::Fr]) -> Result<Option<bool>, String> {
    Ok(guard(|| verify(k, p, i))?.ok())
}

/// prove one witness and try every single-element change
fn trial<E: Engine>(ctx: &Ctx, side: &Side<E>, g: &Given<E::Fr>, tamper: bool) -> Res
where
    E::Fr: Field,
{
    use ff::Field as _;
    let at = || format!("{} with {:?}", g.c.name, g.w);
    let (inputs, sat) = match status(g) {
        Some(x) => x,
        None => return Ok(ctx.outcome("no witness (division by zero)")),
    };
    ctx.point(1);
    let proof = match guard(|| prove::<E, _>(g, &side.params)) {
        Ok(p) => p,
        Err(m) => {
            ensure!(!sat, "{}: proving a true statement panics: {}", at(), m);
            return Ok(ctx.outcome("false statement: prover fails"));
        }
    };
    let r = accepts(&side.tvk, &proof, &inputs).map_err(|m| format!("{}: verify panics: {}", at(), m))?;
    ensure!(r.is_some(), "{}: verify reports an error for {} inputs", at(), inputs.len());
    ensure!(r == Some(sat), "{}: {} but verify gives {:?}", at(), if sat { "all constraints hold" } else { "a constraint is violated" }, r);
    ctx.outcome(if sat { "true statement accepted" } else { "false statement rejected" });
    if !tamper || !sat {
        return Ok(());
    }
    let one = E::Fr::one();
    let bad = |what: &str, r: Result<Option<bool>, String>, err: bool| -> Res {
        ctx.point(1);
        let r = r.map_err(|m| format!("{}: {}: verify panics: {}", at(), what, m))?;
        if err {
            ensure!(r.is_none(), "{}: {}: verify gives {:?} instead of an error", at(), what, r);
            ctx.outcome("wrong length reported");
        } else {
            ensure!(r == Some(false), "{}: {}: verify gives {:?}", at(), what, r);
            ctx.outcome("tampered: rejected");
        }
        Ok(())
    };
    for k in 0..inputs.len() {
        let mut v = inputs.clone();
        v[k].add_assign(&one);
        bad(&format!("input {} increased", k), accepts(&side.tvk, &proof, &v), false)?;
        if !inputs[k].is_zero() {
            let mut v = inputs.clone();
            v[k] = E::Fr::zero();
            bad(&format!("input {} zeroed", k), accepts(&side.tvk, &proof, &v), false)?;
        }
        for l in 0..k {
            if inputs[k] != inputs[l] {
                let mut v = inputs.clone();
                v.swap(k, l);
                bad(&format!("inputs {} and {} exchanged", l, k), accepts(&side.tvk, &proof, &v), false)?;
            }
        }
    }
    for n in 0..inputs.len() {
        bad("fewer inputs", accepts(&side.tvk, &proof, &inputs[..n]), true)?;
    }
    for x in [E::Fr::zero(), one].iter() {
        let mut v = inputs.clone();
        v.push(*x);
        bad("more inputs", accepts(&side.tvk, &proof, &v), true)?;
    }
    for k in 0..3 {
        for neg in [false, true].iter() {
            let mut p = proof.0.clone();
            let bump1 = |x: &mut E::G1Affine| {
                if *neg {
                    x.negate()
                } else {
                    let mut t = x.into_projective();
                    t.add_assign(&E::G1::one());
                    *x = t.into_affine();
                }
            };
            match k {
                0 => bump1(&mut p.a),
                1 => {
                    if *neg {
                        p.b.negate()
                    } else {
                        let mut t = p.b.into_projective();
                        t.add_assign(&E::G2::one());
                        p.b = t.into_affine();
                    }
                }
                _ => bump1(&mut p.c),
            }
            bad(&format!("proof element {} altered", k), accepts(&side.tvk, &Proof(p), &inputs), false)?;
        }
    }
    if let Some(f) = &side.foreign {
        bad("foreign key", accepts(f, &proof, &inputs), false)?;
    }
    // one key element altered
    for k in 0..4 + side.tvk.ic.len() {
        let mut t = side.tvk.clone();
        let up1 = |x: &mut E::G1Affine| {
            let mut p = x.into_projective();
            p.add_assign(&E::G1::one());
            *x = p.into_affine();
        };
        let up2 = |x: &mut E::G2Affine| {
            let mut p = x.into_projective();
            p.add_assign(&E::G2::one());
            *x = p.into_affine();
        };
        match k {
            0 => up1(&mut t.alpha_g1),
            1 => up2(&mut t.beta_g2),
            2 => up2(&mut t.gamma_g2),
            3 => up2(&mut t.delta_g2),
            _ => {
                // the coefficient of this element must not be zero
                if k > 4 && inputs[k - 5].is_zero() {
                    continue;
                }
                up1(&mut t.ic[k - 4])
            }
        }
        bad(&format!("key element {} altered", k), accepts(&t, &proof, &inputs), false)?;
    }
    Ok(())
}

fn side<E: Engine>(c: &Circ<E::Fr>, foreign: bool) -> Result<Option<Side<E>>, String>
where
    E::Fr: Field,
{
    let params = match keys::<E>(c) {
        Ok(p) => p,
        Err(m) => {
            // legitimate only if some private variable occurs in no constraint
            let cs = RecCS::<E::Fr>::new();
            let g = Given { c: c.clone(), w: vec![None; c.n] };
            guard(|| g.synthesize(&cs)).map_err(|e| format!("{}: synthesis panics: {}", c.name, e))?;
            let used = |k: usize| cs.cons.borrow().iter().any(|c| [&c.0, &c.1, &c.2].iter().any(|l| l.iter().any(|t| t.0 == Index::Aux(k))));
            ensure_opt((0..cs.aux.borrow().len()).any(|k| !used(k)), format!("{}: key generation panics: {}", c.name, m))?;
            return Ok(None);
        }
    };
    let tvk = truncate_verifying_key(&params.vk);
    let v = &params.vk;
    if !(tvk.alpha_g1 == v.alpha_g1 && tvk.beta_g2 == v.beta_g2 && tvk.gamma_g2 == v.gamma_g2 && tvk.delta_g2 == v.delta_g2 && tvk.ic == v.ic) {
        return Err(format!("{}: the truncated key has other elements than the key", c.name));
    }
    let foreign = if foreign { keys::<E>(c).ok().map(|p| truncate_verifying_key(&p.vk)) } else { None };
    Ok(Some(Side { params, tvk, foreign }))
}
fn ensure_opt(c: bool, m: String) -> Res {
    if c {
        Ok(())
    } else {
        Err(m)
    }
}

/// a circuit with all given witnesses
fn circuit<E: Engine>(ctx: &Ctx, c: &Circ<E::Fr>, wits: &[Vec<E::Fr>], tamper: usize) -> Res
where
    E::Fr: Field,
{
    let s = match side::<E>(c, tamper > 0)? {
        Some(s) => s,
        None => return Ok(ctx.outcome("key generation refuses an unconstrained variable")),
    };
    ctx.tr(1);
    let mut left = tamper;
    for w in wits {
        let g = Given { c: c.clone(), w: w.iter().map(|x| Some(Num(*x))).collect() };
        let sat = matches!(status(&g), Some((_, true)));
        trial(ctx, &s, &g, left > 0 && sat)?;
        if sat && left > 0 {
            left -= 1;
        }
        ctx.beat();
    }
    Ok(())
}

type B = Fp<BIGP>;
fn b(x: i64) -> B {
    if x < 0 {
        Fp(BIGP - (-x) as u64)
    } else {
        Fp(x as u64)
    }
}
fn toy_programs(ctx: &Ctx, depth: usize, vals: &[i64], tamper: usize) {
    let all = ops();
    let wits: Vec<Vec<B>> = vals.iter().flat_map(|x| vals.iter().map(move |y| vec![b(*x), b(*y)])).collect();
    let items: Vec<(String, Vec<Op>)> = if depth < 3 {
        all.iter().map(|a| (format!("toy/programs of {} operations starting with {:?}", depth, a), vec![*a])).collect()
    } else {
        all.iter().flat_map(|a| all.iter().map(move |x| (format!("toy/programs of {} operations starting with {:?} {:?}", depth, a, x), vec![*a, *x]))).collect()
    };
    ctx.par(items, |pre| {
        for r in mc::gad::tuples(all.len() as u64, depth - pre.len()) {
            let mut p = pre.clone();
            p.extend(r.iter().map(|k| all[*k as usize]));
            let mut c = program::<B>(p);
            circuit::<Toy<BIGP>>(ctx, &c, &wits, tamper)?;
            c.name += " bare";
            circuit::<Toy<BIGP>>(ctx, &c, &wits, tamper)?;
        }
        Ok(())
    });
}
fn toy_catalogue(ctx: &Ctx, vals: &[i64]) {
    ctx.par(catalogue::<B>(62, PoseidonParams::new(4, 2, 3)).into_iter().map(|c| (format!("toy/{}", c.name), c)).collect(), |c| {
        let n = vals.len() as u64;
        let wits: Vec<Vec<B>> = mc::gad::tuples(n, c.n).into_iter().map(|w| w.iter().map(|k| b(vals[*k as usize])).collect()).collect();
        let k = wits.len() / ctx.t(64, 600) + 1;
        circuit::<Toy<BIGP>>(ctx, c, &wits.into_iter().step_by(k).collect::<Vec<_>>(), 8)
    });
}
/// systems of one or two constraints with coefficients -1, 0, 1 over one, two private and one public variable,
/// explicit zero coefficients included
fn toy_raw(ctx: &Ctx, stride: usize) {
    // digit 3 is an explicit zero coefficient
    let lcs: Vec<RawLc<B>> = mc::gad::tuples(4, 3).into_iter().map(|v| v.into_iter().enumerate().filter(|(_, c)| *c != 0).map(|(i, c)| (i, [b(0), b(1), b(-1), b(0)][c as usize])).collect()).collect();
    let wits: Vec<Vec<B>> = [0i64, 1, 2, -1].iter().flat_map(|x| [0i64, 1, 3].iter().map(move |y| vec![b(*x), b(*y)])).collect();
    ctx.par(lcs.iter().enumerate().map(|(i, l)| (format!("toy/raw constraints with A = {:?}", l), i)).collect(), |i| {
        let mut n = 0;
        for (x, lb) in lcs.iter().enumerate() {
            for (y, lc) in lcs.iter().enumerate() {
                n += 1;
                if (n + i) % stride != 0 {
                    continue;
                }
                let c = Circ { name: format!("({:?})*({:?})=({:?})", lcs[*i], lb, lc), n: 2, kind: Kind::Raw({ let k = (x + y) % 3; vec![k == 1, k == 2] }, vec![RawCon(lcs[*i].clone(), lb.clone(), lc.clone())]) };
                circuit::<Toy<BIGP>>(ctx, &c, &wits, 1)?;
            }
        }
        Ok(())
    });
}

/// circuits with n public inputs (and one private variable equal to a combination of all of them)
fn many<E: Engine>(ctx: &Ctx, tag: &str, ns: Vec<usize>)
where
    E::Fr: Field,
{
    ctx.par(ns.into_iter().map(|n| (format!("{}/{} public inputs", tag, n), n)).collect(), |n| {
        use ff::Field as _;
        let f = |x: usize| felt::<E::Fr>(&big(x as u64));
        let mut public = vec![true; *n];
        public.push(false);
        let lc: RawLc<E::Fr> = (0..=*n).map(|i| (i, f(i * i + 1))).collect();
        let c = Circ { name: "sum".into(), n: n + 1, kind: Kind::Raw(public, vec![RawCon(lc.clone(), vec![(0, E::Fr::one())], vec![(n + 1, E::Fr::one())])]) };
        let wit = |s: usize, off: usize| {
            let mut w: Vec<E::Fr> = (0..*n).map(|i| f((i * 7 + s) % 11)).collect();
            let mut acc = f(1 + off);
            for (i, x) in w.iter().enumerate() {
                let mut t = *x;
                t.mul_assign(&lc[i + 1].1);
                acc.add_assign(&t);
            }
            w.push(acc);
            w
        };
        circuit::<E>(ctx, &c, &[wit(0, 0), wit(3, 0), wit(3, 1)], 1)
    });
}

/// the verification equation over the complete tiny engine
fn equation<const P: u64>(ctx: &Ctx, ninputs: usize) {
    let first: Vec<Vec<u64>> = mc::gad::tuples(P, 3);
    ctx.par(first.into_iter().map(|v| (format!("Z{}/equation with {} inputs, alpha,beta,gamma = {:?}", P, ninputs, v), v)).collect(), |k| {
        for t in mc::gad::tuples(P, 1 + ninputs + 1 + ninputs + 3) {
            let (delta, rest) = (t[0], &t[1..]);
            let (ic, rest) = rest.split_at(ninputs + 1);
            let (inp, pr) = rest.split_at(ninputs);
            let tvk = TruncatedVerifyingKey::<Toy<P>> { alpha_g1: G1A(k[0]), beta_g2: G2A(2 * k[1]), gamma_g2: G2A(2 * k[2]), delta_g2: G2A(2 * delta), ic: ic.iter().map(|x| G1A(*x)).collect() };
            let proof = Proof(bellman::groth16::Proof { a: G1A(pr[0]), b: G2A(2 * pr[1]), c: G1A(pr[2]) });
            let inputs: Vec<Fp<P>> = inp.iter().map(|x| Fp(*x)).collect();
            let acc: u64 = ic[0] + ic[1..].iter().zip(inp).map(|(a, b)| a * b).sum::<u64>();
            let want = pr[0] * pr[1] % P == (k[0] * k[1] + acc * k[2] + pr[2] * delta) % P;
            let r = verify(&tvk, &proof, &inputs);
            match r {
                Ok(x) if x == want => ctx.outcome(if want { "equation holds: accepted" } else { "equation fails: rejected" }),
                Ok(x) => return Err(format!("delta {} ic {:?} inputs {:?} proof {:?}: verify gives {} but the equation is {}", delta, ic, inp, pr, x, want)),
                Err(e) => return Err(format!("delta {} ic {:?} inputs {:?} proof {:?}: error {}", delta, ic, inp, pr, e)),
            }
            ctx.point(1);
        }
        Ok(())
    });
}
fn lengths<const P: u64>(ctx: &Ctx) {
    ctx.case(&format!("Z{}/number of inputs against number of key elements", P), || {
        let ns = (0..30usize).chain(vec![63, 64, 65, 66, 127, 128, 129, 130, 255, 256, 257, 258, 65535, 65536, 65537]);
        let pairs = ns.flat_map(|n| (0..32usize).chain(n.saturating_sub(3)..n + 2).chain(vec![n + 255, n + 256, n.wrapping_sub(257), n + 65535]).filter(|m| *m < 200000).map(move |m| (n, m)).collect::<Vec<_>>());
        {
            for (n, m) in pairs {
                for seed in 0..P {
                    let tvk = TruncatedVerifyingKey::<Toy<P>> { alpha_g1: G1A(seed), beta_g2: G2A(2), gamma_g2: G2A(2), delta_g2: G2A(2), ic: (0..n).map(|x| G1A((x as u64 + seed) % P)).collect() };
                    let proof = Proof(bellman::groth16::Proof { a: G1A(1), b: G2A(2), c: G1A(seed) });
                    let inputs: Vec<Fp<P>> = (0..m).map(|x| Fp((x as u64 + 1) % P)).collect();
                    let r = guard(|| verify(&tvk, &proof, &inputs)).map_err(|e| format!("{} elements, {} inputs: panics: {}", n, m, e))?;
                    ctx.point(1);
                    ensure!(r.is_ok() == (m + 1 == n), "{} key elements and {} inputs: {:?}", n, m, r.ok());
                    ctx.outcome(if r.is_ok() { "matching length" } else { "wrong length reported" });
                }
            }
        }
        Ok(())
    });
}

/// the equation on a production engine: keys and proofs with known discrete logarithms
fn real_equation<E: Engine>(ctx: &Ctx, tag: &str)
where
    E::Fr: Field,
{
    use ff::{Field as _, PrimeField as _};
    let f = |x: i64| -> E::Fr {
        let mut v = felt::<E::Fr>(&big(x.abs() as u64));
        if x < 0 {
            v.negate();
        }
        v
    };
    let g1 = |x: &E::Fr| E::G1Affine::one().mul(x.into_repr()).into_affine();
    let g2 = |x: &E::Fr| E::G2Affine::one().mul(x.into_repr()).into_affine();
    let big_inputs: Vec<E::Fr> = alphabet::<E::Fr>(false).iter().map(|x| felt(x)).collect();
    // alpha, beta, gamma, delta, ic..., a, b
    let mut pats: Vec<Vec<E::Fr>> = vec![];
    for k in 0..ctx.t(12, 60) {
        let vals: [i64; 5] = [1, 2, -1, 3, 0];
        pats.push((0..9).map(|i| f(vals[(k * (i + 1) + i * i + k * k / 3) % ctx.t(4, 5)])).collect());
    }
    let inputs: Vec<Vec<E::Fr>> = big_inputs.chunks(2).map(|c| vec![c[0], c[c.len() - 1]]).collect();
    ctx.par(pats.into_iter().enumerate().map(|(k, p)| (format!("{}/equation {}", tag, k), (k, p))).collect(), |(k, p)| {
        for inp in inputs.iter().skip(k % 3).step_by(ctx.t(6, 1)) {
            let tvk = TruncatedVerifyingKey::<E> { alpha_g1: g1(&p[0]), beta_g2: g2(&p[1]), gamma_g2: g2(&p[2]), delta_g2: g2(&p[3]), ic: p[4..7].iter().map(|x| g1(x)).collect() };
            // acc = ic0 + sum
            let mut acc = p[4];
            for (i, x) in inp.iter().enumerate() {
                let mut t = p[5 + i];
                t.mul_assign(x);
                acc.add_assign(&t);
            }
            // rhs without c, then c from the equation when delta is invertible
            let mut rhs = p[7];
            rhs.mul_assign(&p[8]);
            let mut t = p[0];
            t.mul_assign(&p[1]);
            rhs.sub_assign(&t);
            let mut t = acc;
            t.mul_assign(&p[2]);
            rhs.sub_assign(&t);
            let c = match p[3].inverse() {
                Some(d) => {
                    let mut c = rhs;
                    c.mul_assign(&d);
                    c
                }
                None => E::Fr::zero(),
            };
            for off in [0i64, 1].iter() {
                let mut cc = c;
                cc.add_assign(&f(*off));
                let mut l = cc;
                l.mul_assign(&p[3]);
                let want = l == rhs;
                let proof = Proof::<E>(bellman::groth16::Proof { a: g1(&p[7]), b: g2(&p[8]), c: g1(&cc) });
                let r = verify(&tvk, &proof, inp).map_err(|e| format!("{}", e))?;
                ctx.point(1);
                ensure!(r == want, "exponents {:?} inputs {:?} c offset {}: verify gives {} but the equation is {}", p, inp, off, r, want);
                ctx.outcome(if want { "equation holds: accepted" } else { "equation fails: rejected" });
            }
        }
        Ok(())
    });
}

fn real<E: Engine>(ctx: &Ctx, tag: &str, nb: usize)
where
    E::Fr: Field,
{
    let al: Vec<E::Fr> = alphabet::<E::Fr>(false).iter().map(|x| felt(x)).collect();
    let small: Vec<E::Fr> = (0..3u64).map(|x| felt(&big(x))).collect();
    ctx.par(catalogue::<E::Fr>(nb, PoseidonParams::new(4, 8, 2)).into_iter().map(|c| (format!("{}/{}", tag, c.name), c)).collect(), |c| {
        let mut wits: Vec<Vec<E::Fr>> = (0..al.len()).step_by(ctx.t(23, 3)).map(|i| (0..c.n).map(|k| al[(i + k * 5) % al.len()]).collect()).collect();
        wits.push((0..c.n).map(|k| small[k % 3]).collect());
        wits.push((0..c.n).map(|k| small[(k + 1) % 2]).collect());
        wits.truncate(ctx.t(5, 40));
        circuit::<E>(ctx, c, &wits, ctx.t(1, 4))
    });
}

fn main() {
    run(
        "C19",
        &[
            "the generic prover and verifier code is explored on a pairing engine in the exponent (complete for primes 3 and 5; a 62-bit prime for proving) and at boundary inputs on the production engines",
            "a false statement, foreign key or altered element is accepted with probability about 2^-60 over the library's own randomness (toy engine) and 2^-250 (production)",
        ],
        true,
        |ctx| {
            equation::<5>(ctx, 0);
            equation::<5>(ctx, 1);
            equation::<3>(ctx, 2);
            if ctx.thorough() {
                equation::<7>(ctx, 1);
                equation::<3>(ctx, 3);
            }
            lengths::<5>(ctx);
            toy_catalogue(ctx, &[0, 1, 2, 5, -1]);
            toy_programs(ctx, 1, &[0, 1, 2, 3, -1], 25);
            toy_programs(ctx, 2, &[0, 1, 2, -1], 2);
            toy_programs(ctx, 3, if ctx.quick() { &[0, 1] } else { &[0, 1, 2, -1] }, ctx.t(0, 1));
            toy_raw(ctx, ctx.t(29, 1));
            many::<Toy<BIGP>>(ctx, "toy", (0..=ctx.t(40, 130)).chain(vec![63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 1000].into_iter().filter(|n| ctx.quick() || *n > 130)).collect());
            many::<Bn256>(ctx, "bn256", if ctx.quick() { vec![0, 1, 2, 3, 5, 8, 24] } else { (0..40).collect() });
            many::<Bls12>(ctx, "bls12_381", if ctx.quick() { vec![0, 1, 2, 4, 7, 17] } else { (0..30).collect() });
            real_equation::<Bn256>(ctx, "bn256");
            real_equation::<Bls12>(ctx, "bls12_381");
            real::<Bn256>(ctx, "bn256", 16);
            real::<Bls12>(ctx, "bls12_381", 16);
        },
    );
}
