//! C18: every backend sees the same circuit.
use bellman::{ConstraintSystem as BCS, Index as BIndex, LinearCombination, SynthesisError, Variable};
use fawkes_crypto::circuit::num::{CNum, Index};
use fawkes_crypto::core::cs::{ConstraintSystem, TestCS};
use fawkes_crypto::core::field::Field;
use fawkes_crypto::core::signal::Signal;
use fawkes_crypto::helpers::groth16::Groth16CS;
use fawkes_crypto::native::ecc::JubJubParams;
use fawkes_crypto::native::eddsaposeidon::eddsaposeidon_sign;
use fawkes_crypto::native::num::Num;
use fawkes_crypto::native::poseidon::PoseidonParams;
use fawkes_crypto::native::{bls12_381::JubJubBLS12_381, bn256::JubJubBN256};
use mc::big::*;
use mc::ensure;
use mc::cat::*;
use mc::fp::Fp;
use mc::psd::SPar;
use mc::rec::{Con, Lc, RecCS};
use mc::report::{guard, panics, run, Ctx, Res};
use mc::toy::Toy;
use pairing::{bls12_381::Bls12, bn256::Bn256, Engine};
use std::collections::BTreeMap;

/// the proving library's side: records everything it is given
struct Mock<E: Engine> {
    keygen: bool,
    inputs: Vec<Option<E::Fr>>,
    aux: Vec<Option<E::Fr>>,
    cons: Vec<Con<E::Fr>>,
    depth: i64,
}
fn canon<E: Engine>(l: LinearCombination<E>) -> Lc<E::Fr> {
    use ff::Field;
    let mut m: BTreeMap<Index, E::Fr> = BTreeMap::new();
    for (v, c) in l.as_ref() {
        let i = match v.get_unchecked() {
            BIndex::Input(k) => Index::Input(k),
            BIndex::Aux(k) => Index::Aux(k),
        };
        m.entry(i).or_insert_with(E::Fr::zero).add_assign(c);
    }
    m.into_iter().filter(|(_, c)| !c.is_zero()).collect()
}
impl<E: Engine> BCS<E> for Mock<E> {
    type Root = Self;
    fn alloc<F, A, AR>(&mut self, a: A, f: F) -> Result<Variable, SynthesisError>
    where
        F: FnOnce() -> Result<E::Fr, SynthesisError>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        let _: String = a().into();
        let v = if self.keygen { None } else { Some(f()?) };
        self.aux.push(v);
        Ok(Variable::new_unchecked(BIndex::Aux(self.aux.len() - 1)))
    }
    fn alloc_input<F, A, AR>(&mut self, a: A, f: F) -> Result<Variable, SynthesisError>
    where
        F: FnOnce() -> Result<E::Fr, SynthesisError>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        let _: String = a().into();
        let v = if self.keygen { None } else { Some(f()?) };
        self.inputs.push(v);
        Ok(Variable::new_unchecked(BIndex::Input(self.inputs.len())))
    }
    fn enforce<A, AR, LA, LB, LC>(&mut self, n: A, a: LA, b: LB, c: LC)
    where
        A: FnOnce() -> AR,
        AR: Into<String>,
        LA: FnOnce(LinearCombination<E>) -> LinearCombination<E>,
        LB: FnOnce(LinearCombination<E>) -> LinearCombination<E>,
        LC: FnOnce(LinearCombination<E>) -> LinearCombination<E>,
    {
        let _: String = n().into();
        let z = LinearCombination::zero;
        self.cons.push(Con(canon(a(z())), canon(b(z())), canon(c(z()))));
    }
    fn push_namespace<NR, N>(&mut self, _: N)
    where
        NR: Into<String>,
        N: FnOnce() -> NR,
    {
        self.depth += 1;
    }
    fn pop_namespace(&mut self) {
        self.depth -= 1;
    }
    fn get_root(&mut self) -> &mut Self {
        self
    }
}

/// a circuit to run on all backends
trait Run<F: Field> {
    fn name(&self) -> String;
    fn go<CS: ConstraintSystem<F = F>>(&self, cs: &CS, w: &[Option<Num<F>>]);
}
impl<F: Field> Run<F> for Circ<F> {
    fn name(&self) -> String {
        self.name.clone()
    }
    fn go<CS: ConstraintSystem<F = F>>(&self, cs: &CS, w: &[Option<Num<F>>]) {
        self.build(cs, w);
    }
}

fn groth<E: Engine, C: Run<E::Fr>>(c: &C, w: &[Option<Num<E::Fr>>], keygen: bool) -> Result<Mock<E>, String> {
    guard(|| {
        let cs: Groth16CS<E, Mock<E>> = Groth16CS::new(Mock { keygen, inputs: vec![], aux: vec![], cons: vec![], depth: 0 });
        c.go(&cs, w);
        cs.bcs.into_inner()
    })
}
fn nums<F: Field>(v: &[Option<Num<F>>]) -> Vec<Option<F>> {
    v.iter().map(|x| x.map(|y| y.0)).collect()
}

/// which constraint is violated by the values the signals themselves carry
#[derive(Clone)]
struct SigCS<F: Field>(std::cell::RefCell<(usize, usize, Option<usize>)>, std::marker::PhantomData<F>);
impl<F: Field> ConstraintSystem for SigCS<F> {
    type F = F;
    fn alloc(&self, _: Option<Num<F>>) -> Index {
        self.0.borrow_mut().0 += 1;
        Index::Aux(self.0.borrow().0)
    }
    fn alloc_input(&self, v: Option<Num<F>>) -> Index {
        self.alloc(v)
    }
    fn enforce(&self, a: &CNum<Self>, b: &CNum<Self>, c: &CNum<Self>) {
        let mut s = self.0.borrow_mut();
        if let (Some(a), Some(b), Some(c)) = (a.value, b.value, c.value) {
            let mut t = a.0;
            t.mul_assign(&b.0);
            if t != c.0 && s.2.is_none() {
                s.2 = Some(s.1);
            }
        }
        s.1 += 1;
    }
}

/// one witness (possibly partial) on the recorder, the Groth16 backend and the test backend
fn compare<E: Engine, C: Run<E::Fr>>(ctx: &Ctx, c: &C, w: &[Option<Num<E::Fr>>]) -> Res {
    let at = || format!("{} with {:?}", c.name(), w);
    let rec = RecCS::<E::Fr>::new();
    if let Err(m) = guard(|| c.go(&rec, w)) {
        ctx.outcome("the circuit itself panics");
        // then it must do so on the other backends as well
        ensure!(groth::<E, C>(c, w, false).is_err(), "{}: panics on the recorder ({}) but not on the Groth16 backend", at(), m);
        return Ok(());
    }
    let full = rec.inputs.borrow().iter().chain(rec.aux.borrow().iter()).all(|x| x.is_some());
    for keygen in [true, false].iter().cloned() {
        ctx.point(1);
        if !keygen && !full {
            ensure!(groth::<E, C>(c, w, false).is_err(), "{}: a missing value is passed to the prover as a value", at());
            ctx.outcome("missing value reported to the prover");
            continue;
        }
        let m = groth::<E, C>(c, w, keygen).map_err(|e| format!("{}: Groth16 backend panics: {}", at(), e))?;
        if keygen {
            ensure!((m.inputs.len(), m.aux.len()) == (rec.inputs.borrow().len(), rec.aux.borrow().len()), "{}: {} public and {} private variables instead of {} and {}", at(), m.inputs.len(), m.aux.len(), rec.inputs.borrow().len(), rec.aux.borrow().len());
        } else {
            ensure!(m.inputs == nums(&rec.inputs.borrow()), "{}: public inputs {:?} instead of {:?}", at(), m.inputs, rec.inputs.borrow());
            ensure!(m.aux == nums(&rec.aux.borrow()), "{}: private variables {:?} instead of {:?}", at(), m.aux, rec.aux.borrow());
        }
        let rc = rec.cons.borrow();
        ensure!(m.cons.len() == rc.len(), "{}: {} constraints instead of {}", at(), m.cons.len(), rc.len());
        for (k, (a, b)) in m.cons.iter().zip(rc.iter()).enumerate() {
            ensure!(a == b, "{}: constraint {} is {:?} instead of {:?}", at(), k, a, b);
        }
        ctx.tr(rc.len() as u64);
        ctx.outcome(if keygen { "same system (key generation)" } else { "same system and values (prover)" });
    }
    // test backend
    let sig = SigCS::<E::Fr>(Default::default(), Default::default());
    c.go(&sig, w);
    let violated = sig.0.borrow().2;
    let t = TestCS::<E::Fr>::new();
    let r = guard(|| c.go(&t, w));
    match (&violated, &r) {
        (None, Ok(())) => {
            ensure!(t.num_constraints() == rec.ncons(), "{}: test backend counts {} constraints instead of {}", at(), t.num_constraints(), rec.ncons());
            ctx.outcome("test backend: satisfied");
        }
        (Some(_), Err(_)) => ctx.outcome("test backend: violation reported"),
        (None, Err(m)) => return Err(format!("{}: test backend panics although no constraint is violated: {}", at(), m)),
        (Some(k), Ok(())) => return Err(format!("{}: test backend accepts although constraint {} is violated", at(), k)),
    }
    Ok(())
}

/// every witness over the field, full, absent and (two variables or fewer) partial
fn tiny<const P: u64>(ctx: &Ctx, cs: Vec<Circ<Fp<P>>>, tag: &str, step: usize) {
    ctx.par(cs.into_iter().map(|c| (format!("{}/{}", tag, c.name), c)).collect(), |c| {
        compare::<Toy<P>, _>(ctx, c, &vec![None; c.n])?;
        for w in mc::gad::tuples(P, c.n).into_iter().step_by(if c.n > 2 { step } else { 1 }) {
            let full: Vec<Option<Num<Fp<P>>>> = w.iter().map(|x| Some(Num(Fp(*x)))).collect();
            compare::<Toy<P>, _>(ctx, c, &full)?;
            if c.n <= 2 {
                for k in 0..c.n {
                    let mut p = full.clone();
                    p[k] = None;
                    compare::<Toy<P>, _>(ctx, c, &p)?;
                }
            }
        }
        Ok(())
    });
}
/// programs of `depth` operations
fn programs<const P: u64>(ctx: &Ctx, depth: usize, step: usize) {
    let all = ops();
    ctx.par(all.iter().map(|a| (format!("F{}/programs of {} operations starting with {:?}", P, depth, a), *a)).collect(), |a| {
        for r in mc::gad::tuples(all.len() as u64, depth - 1) {
            let mut p = vec![*a];
            p.extend(r.iter().map(|k| all[*k as usize]));
            let c = program::<Fp<P>>(p);
            compare::<Toy<P>, _>(ctx, &c, &[None, None])?;
            for w in mc::gad::tuples(P, 2).into_iter().step_by(step) {
                compare::<Toy<P>, _>(ctx, &c, &[Some(Num(Fp(w[0]))), Some(Num(Fp(w[1])))])?;
            }
            ctx.beat();
        }
        Ok(())
    });
}
/// single constraints with all coefficient vectors over [one, private, public, private]
fn raw<const P: u64>(ctx: &Ctx) {
    let lcs: Vec<RawLc<Fp<P>>> = mc::gad::tuples(P.min(3), 4).into_iter().map(|v| v.into_iter().enumerate().filter(|(_, c)| *c != 0).map(|(i, c)| (i, Fp(if c == 2 { P - 1 } else { c }))).collect()).collect();
    let vals = mc::gad::tuples(P, 3);
    ctx.par(lcs.iter().enumerate().map(|(i, l)| (format!("F{}/raw constraints with A = {:?}", P, l), i)).collect(), |i| {
        for (x, b) in lcs.iter().enumerate() {
            for (y, c) in lcs.iter().enumerate() {
                let circ = Circ { name: format!("({:?})*({:?})=({:?})", lcs[*i], b, c), n: 3, kind: Kind::Raw(vec![false, true, false], vec![RawCon(lcs[*i].clone(), b.clone(), c.clone())]) };
                // one value vector per triple, rotating through all of them
                let k = (x * 31 + y * 7 + i * 13) % vals.len();
                let w: Vec<Option<Num<Fp<P>>>> = vals[k].iter().map(|v| Some(Num(Fp(*v)))).collect();
                compare::<Toy<P>, _>(ctx, &circ, &w)?;
            }
        }
        Ok(())
    });
}
/// long combinations: `len` private and public variables, all in one combination
fn long<E: Engine>(ctx: &Ctx, tag: &str) {
    let lens = (0..9usize).map(|k| 1 << k).chain(vec![255, 257, 500, 999, 1000, 1001, 1023, 1024, 1025, 2000, 4097]);
    ctx.par(lens.map(|n| (format!("{}/combination of {} variables", tag, n), n)).collect(), |n| {
        for (mode, shift) in [(0, 0), (1, 3), (2, 7)].iter() {
            let public: Vec<bool> = (0..*n).map(|i| match mode { 0 => i % 2 == 1, 1 => i < n / 2, _ => i % 3 == 0 }).collect();
            let lc = |s: usize| -> RawLc<E::Fr> { (0..=*n).map(|i| (i, felt::<E::Fr>(&big(((i * 37 + s) % 1009) as u64 + 1)))).collect() };
            // c carries the product in its constant term so that the constraint holds
            let w: Vec<Option<Num<E::Fr>>> = (0..*n).map(|i| Some(Num(felt::<E::Fr>(&big((i * i + shift) as u64))))).collect();
            let c = Circ { name: format!("mode {}", mode), n: *n, kind: Kind::Raw(public.clone(), vec![RawCon(lc(1), lc(5), vec![]), RawCon(lc(0), vec![], vec![])]) };
            compare::<E, _>(ctx, &c, &w)?;
            compare::<E, _>(ctx, &c, &vec![None; *n])?;
        }
        Ok(())
    });
}

/// long programs: hundreds of public inputs and up to thousands of constraints, the last one satisfied or violated
fn chains<E: Engine>(ctx: &Ctx, tag: &str, lens: &[usize]) {
    ctx.par(lens.iter().map(|n| (format!("{}/chain of {} operations", tag, n), *n)).collect(), |n| {
        for (pat, ops) in [vec![Op::Un(1), Op::Bin(0, 1)], vec![Op::Un(4), Op::Bin(2, 0), Op::Un(2)], vec![Op::Un(4)], vec![Op::Bin(3, 0), Op::Un(0), Op::Bin(0, 1), Op::Un(3)]].iter().enumerate() {
            for end in [vec![], vec![Op::Bin(5, 1)], vec![Op::Un(5)]].iter() {
                let mut p: Vec<Op> = (0..*n).map(|k| ops[k % ops.len()]).collect();
                p.extend(end.iter().cloned());
                let mut c = program::<E::Fr>(p);
                c.name = format!("pattern {} end {:?}", pat, end);
                let f = |x: u64| Some(Num(felt::<E::Fr>(&big(x))));
                for w in [[None, None], [f(3), f(5)], [f(0), f(1)], [f(1), f(0)], [f(1), f(1)]].iter() {
                    compare::<E, _>(ctx, &c, w)?;
                }
                ctx.beat();
            }
        }
        Ok(())
    });
}

/// the test backend's own rule: all value patterns of the three operands
fn enforce_rule<const P: u64>(ctx: &Ctx) {
    ctx.case(&format!("F{}/test backend on every operand value", P), || {
        let opt = |k: u64| if k == P { None } else { Some(Num(Fp::<P>(k))) };
        for v in mc::gad::tuples(P + 1, 3) {
            for shape in 0..8u32 {
                let cs = TestCS::<Fp<P>>::new();
                let cs = &cs;
                let vals: Vec<_> = v.iter().map(|k| opt(*k)).collect();
                // constants always have a value
                if (0..3).any(|i| shape >> i & 1 == 1 && vals[i].is_none()) {
                    continue;
                }
                let s: Vec<CNum<TestCS<Fp<P>>>> = (0..3).map(|i| if shape >> i & 1 == 1 { CNum::from_const(cs, &vals[i].unwrap()) } else { CNum::alloc(cs, vals[i].as_ref()) }).collect();
                let p = panics(|| cs.enforce(&s[0], &s[1], &s[2]));
                let bad = match (vals[0], vals[1], vals[2]) {
                    (Some(a), Some(b), Some(c)) => (a.0).0 * (b.0).0 % P != (c.0).0,
                    _ => false,
                };
                ctx.point(1);
                ensure!(p == bad, "enforce({:?}, {:?}, {:?}), constants {:03b}: panics {} instead of {}", vals[0], vals[1], vals[2], shape, p, bad);
                ensure!(p || cs.num_constraints() == 1, "{} constraints after one", cs.num_constraints());
                ctx.outcome(if bad { "violation reported" } else { "accepted" });
            }
        }
        Ok(())
    });
    ctx.case(&format!("F{}/test backend variables are distinct and keep their values", P), || {
        for pat in mc::gad::tuples(2, 6) {
            let cs = TestCS::<Fp<P>>::new();
            let mut seen = vec![Index::Input(0)];
            for (k, p) in pat.iter().enumerate() {
                let v = if k % 3 == 2 { None } else { Some(Num(Fp::<P>(k as u64 % P))) };
                let i = if *p == 1 { cs.alloc_input(v) } else { cs.alloc(v) };
                ensure!(!seen.contains(&i), "variable {:?} allocated twice", i);
                seen.push(i);
                ensure!(cs.variables.borrow().get(&i).cloned() == v, "variable {:?} holds {:?} instead of {:?}", i, cs.variables.borrow().get(&i), v);
                ctx.point(1);
            }
        }
        Ok(())
    });
}

struct Ed<'x, J: JubJubParams>(&'x J, PoseidonParams<J::Fr>);
impl<'x, J: JubJubParams> Run<J::Fr> for Ed<'x, J> {
    fn name(&self) -> String {
        "eddsa verification".into()
    }
    fn go<CS: ConstraintSystem<F = J::Fr>>(&self, cs: &CS, w: &[Option<Num<J::Fr>>]) {
        eddsa(cs, w, &self.1, self.0);
    }
}
fn real<E: Engine, J: JubJubParams<Fr = E::Fr> + Sync>(ctx: &Ctx, tag: &str, nb: usize, j: &J)
where
    E::Fr: Field,
{
    let al: Vec<E::Fr> = alphabet::<E::Fr>(false).iter().map(|x| felt(x)).collect();
    ctx.par(catalogue::<E::Fr>(nb, PoseidonParams::new(3, 8, 53)).into_iter().map(|c| (format!("{}/{}", tag, c.name), c)).collect(), |c| {
        compare::<E, _>(ctx, c, &vec![None; c.n])?;
        for i in (0..al.len()).step_by(ctx.t(2, 1)) {
            for s in [0usize, 1, 5].iter() {
                let w: Vec<Option<Num<E::Fr>>> = (0..c.n).map(|k| Some(Num(al[(i + k * s) % al.len()]))).collect();
                compare::<E, _>(ctx, c, &w)?;
            }
        }
        Ok(())
    });
    long::<E>(ctx, tag);
    ctx.case(&format!("{}/eddsa verification", tag), || {
        let par = PoseidonParams::<E::Fr>::new(4, 8, 54);
        let ed = Ed(j, par.clone());
        compare::<E, _>(ctx, &ed, &[None; 4])?;
        let m = Num::<E::Fr>::from(77u64);
        let sk = Num::from(12345u64);
        let (s, r) = eddsaposeidon_sign::<_, J>(sk, m, &par, j);
        let a = j.edwards_g().mul(sk, j).x;
        let s = s.into_other();
        compare::<E, _>(ctx, &ed, &[Some(s), Some(r), Some(a), Some(m)])?;
        compare::<E, _>(ctx, &ed, &[Some(s), Some(r), Some(a), Some(m + Num::one())])
    });
}

fn main() {
    run(
        "C18",
        &["the recorder and the library's backends run the same generic circuit code", "all programs of a few operations and all raw constraints with coefficients in {-1,0,1} over three variables; boundary witnesses on the production engines", "the proving library's side is observed through its ConstraintSystem trait"],
        true,
        |ctx| {
            enforce_rule::<5>(ctx);
            enforce_rule::<7>(ctx);
            if ctx.thorough() {
                enforce_rule::<13>(ctx);
            }
            tiny::<13>(ctx, catalogue(4, SPar::make(4, 2, 1, 13, 0).lib()), "F13", ctx.t(5, 1));
            tiny::<31>(ctx, catalogue(5, SPar::make(4, 2, 1, 31, 0).lib()), "F31", ctx.t(997, 37));
            programs::<11>(ctx, 1, 1);
            programs::<11>(ctx, 2, 1);
            programs::<11>(ctx, 3, ctx.t(17, 1));
            if ctx.thorough() {
                programs::<11>(ctx, 4, 29);
            }
            chains::<Toy<31>>(ctx, "F31", &[8, 16, 17, 33, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1024, 1025]);
            chains::<Bn256>(ctx, "bn256", if ctx.quick() { &[300, 2000] } else { &[300, 2000, 10000, 70000] });
            raw::<3>(ctx);
            raw::<5>(ctx);
            real::<Bn256, _>(ctx, "bn256", 254, &JubJubBN256::new());
            real::<Bls12, _>(ctx, "bls12_381", 255, &JubJubBLS12_381::new());
        },
    );
}
