//! Decides a gadget's input/output relation on a tiny field: for every shape of the operands,
//! every operand value and every assignment of the internal variables.
use crate::fp::Fp;
use crate::rec::{lc_of, lc_value, RecCS};
use crate::report::{guard, Ctx, Res};
use crate::solve::{Plan, Stats};
use fawkes_crypto::circuit::num::{CNum, Index};
use fawkes_crypto::core::cs::ConstraintSystem;
use fawkes_crypto::core::field::Field;
use fawkes_crypto::core::signal::Signal;
use fawkes_crypto::native::num::Num;
use std::collections::{BTreeMap, BTreeSet};

pub type Cs<const P: u64> = RecCS<Fp<P>>;
pub type Sig<'a, const P: u64> = CNum<'a, RecCS<Fp<P>>>;

/// How an operand is presented to the gadget.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Shape {
    /// a private variable
    Var,
    /// a public input variable
    Inp,
    /// a*v + b of a private variable v (a != 0)
    Aff(u64, u64),
    /// v - w of a private and a public variable, w enumerated from a fixed small set
    Dif,
    /// u - w + 2 z + 3 of three variables
    Tri,
    /// a constant
    Const,
    /// a constant that results from cancelling a variable (an empty combination for zero)
    ConstE,
}
impl Shape {
    pub fn is_const(&self) -> bool {
        *self == Shape::Const || *self == Shape::ConstE
    }
}

#[derive(Clone, PartialEq, Debug)]
pub enum Want {
    /// satisfiable, outputs forced to exactly these
    Out(Vec<u64>),
    /// satisfiable, every reachable output is one of these, honest one included
    AnyOf(BTreeSet<Vec<u64>>),
    /// no satisfying assignment (or, for constants, an immediate panic)
    Unsat,
    /// outside the gadget's domain: nothing is required
    Skip,
}

pub fn out1(x: u64) -> Want {
    Want::Out(vec![x])
}
pub fn sat_if(c: bool) -> Want {
    if c {
        Want::Out(vec![])
    } else {
        Want::Unsat
    }
}

pub fn inv(a: u64, p: u64) -> u64 {
    let mut r = 1;
    for _ in 0..p - 2 {
        r = r * a % p;
    }
    r
}

fn mk<'a, const P: u64>(
    cs: &'a Cs<P>,
    sh: Shape,
    v: u64,
    known: bool,
    fixed: &mut Vec<Index>,
    vals: &mut Vec<u64>,
) -> Sig<'a, P> {
    let n = |x: u64| Num(Fp::<P>(x % P));
    let some = |x: u64| if known { Some(n(x)) } else { None };
    match sh {
        Shape::Const => CNum::from_const(cs, &n(v)),
        Shape::Var => {
            let i = cs.alloc(some(v));
            fixed.push(i);
            vals.push(v);
            CNum::from_var(cs, some(v), i)
        }
        Shape::Inp => {
            let i = cs.alloc_input(some(v));
            fixed.push(i);
            vals.push(v);
            CNum::from_var(cs, some(v), i)
        }
        Shape::ConstE => {
            let i = cs.alloc(some(1));
            fixed.push(i);
            vals.push(1);
            let x = CNum::from_var(cs, some(1), i);
            let r = &x - &x;
            let mut r = if v % P == 0 { r } else { r + n(v) };
            r.value = Some(n(v));
            r
        }
        Shape::Tri => {
            let w = (v * v + 1) % P;
            let z = (v + 2) % P;
            let u = (v + w + 2 * (P - z) + P - 3 % P) % P;
            let i = cs.alloc(some(u));
            let k = cs.alloc(some(z));
            let j = cs.alloc_input(some(w));
            fixed.extend([i, k, j].iter());
            vals.extend([u, z, w].iter());
            CNum::from_var(cs, some(u), i) - CNum::from_var(cs, some(w), j)
                + CNum::from_var(cs, some(z), k) * n(2)
                + n(3)
        }
        Shape::Aff(a, b) => {
            let u = (v + P - b % P) % P * inv(a % P, P) % P;
            let i = cs.alloc(some(u));
            fixed.push(i);
            vals.push(u);
            CNum::from_var(cs, some(u), i) * n(a) + n(b)
        }
        Shape::Dif => {
            // v = u - w; w derived from v so that both variables vary
            let w = (v * v + 1) % P;
            let u = (v + w) % P;
            let i = cs.alloc(some(u));
            fixed.push(i);
            vals.push(u);
            let j = cs.alloc_input(some(w));
            fixed.push(j);
            vals.push(w);
            CNum::from_var(cs, some(u), i) - CNum::from_var(cs, some(w), j)
        }
    }
}

pub fn tuples(p: u64, n: usize) -> Vec<Vec<u64>> {
    let mut v = vec![vec![]];
    for _ in 0..n {
        let mut w = Vec::with_capacity(v.len() * p as usize);
        for t in &v {
            for x in 0..p {
                let mut u = t.clone();
                u.push(x);
                w.push(u);
            }
        }
        v = w;
    }
    v
}

pub fn shape_tuples(alpha: &[Shape], n: usize) -> Vec<Vec<Shape>> {
    let mut v = vec![vec![]];
    for _ in 0..n {
        let mut w = vec![];
        for t in &v {
            for s in alpha {
                let mut u: Vec<Shape> = t.clone();
                u.push(*s);
                w.push(u);
            }
        }
        v = w;
    }
    v
}

/// Checks `build` on all `domain` tuples for one shape tuple.
/// * keygen run (no values): builds the constraint system whose whole witness space is explored
/// * honest run: same system, satisfied, outputs as expected, values equal combinations
pub fn relation<const P: u64>(
    ctx: &Ctx,
    shapes: &[Shape],
    domain: &[Vec<u64>],
    build: &dyn for<'a> Fn(&'a Cs<P>, &[Sig<'a, P>]) -> Vec<Sig<'a, P>>,
    want: &dyn Fn(&[u64]) -> Want,
) -> Res {
    // group by the constants
    let mut groups: BTreeMap<Vec<u64>, Vec<&Vec<u64>>> = BTreeMap::new();
    for d in domain {
        let k: Vec<u64> = d
            .iter()
            .zip(shapes)
            .filter(|(_, s)| s.is_const())
            .map(|(v, _)| *v)
            .collect();
        groups.entry(k).or_default().push(d);
    }
    let allconst = shapes.iter().all(|s| s.is_const());
    for (_, ds) in groups {
        let wants: Vec<Want> = ds.iter().map(|d| want(d)).collect();
        if wants.iter().all(|w| *w == Want::Skip) {
            continue;
        }
        let base = Cs::<P>::new();
        let base_ref = &base;
        let built = guard(|| {
            let mut fixed = vec![];
            let ins: Vec<_> = shapes
                .iter()
                .enumerate()
                .map(|(i, s)| mk(base_ref, *s, ds[0][i], false, &mut fixed, &mut vec![]))
                .collect();
            let outs = build(base_ref, &ins);
            let o: Vec<_> = outs.iter().map(|s| lc_of(s)).collect();
            (fixed, o)
        });
        let (fixed, outs) = match built {
            Ok(x) => x,
            Err(m) => {
                if wants.iter().all(|w| *w == Want::Unsat || *w == Want::Skip) {
                    ctx.point(ds.len() as u64);
                    ctx.outcome("rejected at synthesis");
                    continue;
                }
                return Err(format!(
                    "synthesis without values panics for {:?} {:?}: {}",
                    shapes, ds[0], m
                ));
            }
        };
        let plan = Plan::new(&base, &fixed, &outs);
        let mut st = Stats::default();
        for (d, w) in ds.iter().zip(&wants) {
            if *w == Want::Skip {
                continue;
            }
            // honest run
            let hon = Cs::<P>::new();
            let hr = &hon;
            let mut vals = vec![];
            let r = guard(|| {
                let mut f = vec![];
                let ins: Vec<_> = shapes
                    .iter()
                    .enumerate()
                    .map(|(i, s)| mk(hr, *s, d[i], true, &mut f, &mut vals))
                    .collect();
                let outs = build(hr, &ins);
                let mut o = vec![];
                for s in &outs {
                    let l = lc_value(s);
                    if s.value.map(|n| n.0) != l {
                        return Err(format!(
                            "an output's value {:?} differs from its combination {:?}",
                            s.value.map(|n| n.0),
                            l
                        ));
                    }
                    o.push(l.map(|x| x.0).unwrap_or(u64::max_value()));
                }
                Ok(o)
            });
            let here = || format!("{:?} inputs {:?}", shapes, d);
            let honest = match r {
                Ok(Ok(o)) => {
                    if let Err(m) = hon.same_shape(&base) {
                        return Err(format!("{}: witness-dependent constraints: {}", here(), m));
                    }
                    match hon.honest_ok() {
                        Ok(()) => Ok(o),
                        Err(m) => Err(m),
                    }
                }
                Ok(Err(m)) => Err(m),
                Err(m) => Err(format!("panic: {}", m)),
            };
            // complete witness space
            let sols = plan.explore(&vals, &mut st);
            ctx.trace(1);
            match w {
                Want::Out(e) => {
                    ctx.outcome("forced output");
                    match &honest {
                        Ok(o) if o == e => {}
                        Ok(o) => return Err(format!("{}: honest output {:?}, want {:?}", here(), o, e)),
                        Err(m) => return Err(format!("{}: honest prover fails: {}", here(), m)),
                    }
                    if sols.len() != 1 || sols.iter().next() != Some(e) {
                        return Err(format!(
                            "{}: reachable outputs {:?}, want only {:?}",
                            here(),
                            sols.iter().take(8).collect::<Vec<_>>(),
                            e
                        ));
                    }
                }
                Want::AnyOf(set) => {
                    ctx.outcome("output in allowed set");
                    match &honest {
                        Ok(o) if set.contains(o) => {}
                        Ok(o) => return Err(format!("{}: honest output {:?} not in {:?}", here(), o, set)),
                        Err(m) => return Err(format!("{}: honest prover fails: {}", here(), m)),
                    }
                    if let Some(x) = sols.iter().find(|s| !set.contains(*s)) {
                        return Err(format!("{}: output {:?} reachable, allowed {:?}", here(), x, set));
                    }
                }
                Want::Unsat => {
                    ctx.outcome("no satisfying assignment");
                    if let Some(x) = sols.iter().next() {
                        return Err(format!(
                            "{}: relation false but satisfiable (outputs {:?})",
                            here(),
                            x
                        ));
                    }
                    if honest.is_ok() {
                        return Err(format!("{}: relation false but honest run satisfied", here()));
                    }
                    if allconst {
                        return Err(format!("{}: failing assertion on constants did not panic", here()));
                    }
                }
                Want::Skip => {}
            }
        }
        ctx.st(st.states);
        ctx.tr(st.transitions);
        ctx.beat();
    }
    Ok(())
}

/// How an operand of a production-field system is presented.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum RShape {
    Var,
    Inp,
    Const,
    /// a combination of k variables and a constant
    Long(usize),
}

pub fn mk_real<'a, F: Field>(
    cs: &'a RecCS<F>,
    sh: RShape,
    v: &F,
    known: bool,
    fixed: &mut Vec<Index>,
    vals: &mut Vec<F>,
) -> CNum<'a, RecCS<F>> {
    let some = |x: F| if known { Some(Num(x)) } else { None };
    match sh {
        RShape::Const => CNum::from_const(cs, &Num(*v)),
        RShape::Var | RShape::Inp => {
            let i = if sh == RShape::Var { cs.alloc(some(*v)) } else { cs.alloc_input(some(*v)) };
            fixed.push(i);
            vals.push(*v);
            CNum::from_var(cs, some(*v), i)
        }
        RShape::Long(k) => {
            // v = sum (j+2) x_j + 5, the first variable solved for
            let mut acc = CNum::from_const(cs, &Num::from(5u64));
            let mut rest = Num(*v) - Num::from(5u64);
            let mut parts = vec![];
            for j in 1..k {
                let x = Num::<F>::from((j * j + 3) as u64);
                rest -= x * Num::from((j + 2) as u64);
                parts.push((x, Num::<F>::from((j + 2) as u64)));
            }
            parts.insert(0, (rest / Num::from(2u64), Num::from(2u64)));
            for (j, (x, c)) in parts.iter().enumerate() {
                let i = if j % 3 == 2 { cs.alloc_input(some(x.0)) } else { cs.alloc(some(x.0)) };
                fixed.push(i);
                vals.push(x.0);
                acc += CNum::from_var(cs, some(x.0), i) * *c;
            }
            acc
        }
    }
}

/// Decides one production-field system for fixed operand values: keygen run, honest run,
/// complete witness space (want None: no satisfying assignment may exist).
pub fn real_relation<F: Field>(
    ctx: &Ctx,
    shapes: &[RShape],
    ins: &[F],
    build: &dyn for<'a> Fn(&'a RecCS<F>, &[CNum<'a, RecCS<F>>]) -> Vec<CNum<'a, RecCS<F>>>,
    want: Option<&[F]>,
    explore: bool,
) -> Res {
    let (base, hon) = (RecCS::<F>::new(), RecCS::<F>::new());
    let mut fixed = vec![];
    let allconst = shapes.iter().all(|s| *s == RShape::Const);
    let br = &base;
    let built = guard(|| {
        let s: Vec<_> = shapes.iter().zip(ins).map(|(s, v)| mk_real(br, *s, v, false, &mut fixed, &mut vec![])).collect();
        build(br, &s).iter().map(|o| lc_of(o)).collect::<Vec<_>>()
    });
    let outs = match built {
        Ok(o) => o,
        Err(m) => {
            if want.is_none() {
                ctx.point(1);
                return Ok(());
            }
            return Err(format!("synthesis without values panics: {}", m));
        }
    };
    let hr = &hon;
    let mut vals = vec![];
    let honest = guard(|| {
        let s: Vec<_> = shapes.iter().zip(ins).map(|(s, v)| mk_real(hr, *s, v, true, &mut vec![], &mut vals)).collect();
        build(hr, &s).iter().map(|o| (o.value.map(|n| n.0), lc_value(o))).collect::<Vec<_>>()
    });
    ctx.trace(1);
    let here = || format!("{:?} inputs {:?}", shapes, ins);
    match want {
        Some(w) => {
            let o = honest.map_err(|m| format!("{}: honest run panics: {}", here(), m))?;
            hon.same_shape(&base).map_err(|m| format!("{}: witness-dependent constraints: {}", here(), m))?;
            hon.honest_ok().map_err(|m| format!("{}: {}", here(), m))?;
            if o.len() != w.len() {
                return Err(format!("{}: {} outputs, want {}", here(), o.len(), w.len()));
            }
            for (k, (v, l)) in o.iter().enumerate() {
                if *v != Some(w[k]) || *l != Some(w[k]) {
                    return Err(format!("{}: honest output {} is {:?} (combination {:?}), want {:?}", here(), k, v, l, w[k]));
                }
            }
        }
        None => {
            if honest.is_ok() && hon.honest_ok().is_ok() {
                return Err(format!("{}: relation false but the honest run is satisfied", here()));
            }
            if allconst && honest.is_ok() {
                return Err(format!("{}: failing assertion on constants did not panic", here()));
            }
        }
    }
    if !explore || !ctx.spare() {
        ctx.st(1);
        ctx.tr(1);
        ctx.tally("production field: honest assignment and shape");
        return Ok(());
    }
    let mut sys = crate::bigsolve::Sys::new(&base, &fixed, &outs);
    let v = sys.decide(&vals, &hon, want, true);
    ctx.st(sys.nodes);
    ctx.tr(sys.steps);
    match v {
        crate::bigsolve::Verdict::Forced => ctx.tally("production field: whole witness space decided"),
        crate::bigsolve::Verdict::Cheat(m) => return Err(format!("{}: {}", here(), m)),
        crate::bigsolve::Verdict::Undecided(m) => {
            ctx.tally("production field: witness space undecided (honest run and flip search only)");
            ctx.tally(&format!("undecided: {}", m.chars().take(60).collect::<String>()));
        }
    }
    Ok(())
}
