//! C04: signal arithmetic against an abstract model (map of coefficients, optional value),
//! for all pairs of linear combinations over a small index set and all expressions to a depth.
use fawkes_crypto::circuit::num::{CNum, Index};
use fawkes_crypto::core::cs::ConstraintSystem;
use fawkes_crypto::core::signal::Signal;
use fawkes_crypto::native::num::Num;
use mc::ensure;
use mc::fp::Fp;
use mc::gad::{inv, Cs, Sig};
use mc::rec::lc_of;
use mc::report::{guard, run, Ctx, Res};
use std::collections::BTreeMap;

type M = BTreeMap<Index, u64>;

#[derive(Clone, Debug, PartialEq)]
struct Abs {
    lc: M,
    val: Option<u64>,
}
fn norm(mut m: M) -> M {
    m.retain(|_, v| *v != 0);
    m
}
fn konst(m: &M) -> Option<u64> {
    if m.keys().all(|k| *k == Index::Input(0)) {
        Some(m.get(&Index::Input(0)).cloned().unwrap_or(0))
    } else {
        None
    }
}
fn lin<const P: u64>(a: &M, ca: u64, b: &M, cb: u64) -> M {
    let mut r = M::new();
    for (k, v) in a {
        *r.entry(*k).or_default() += v * ca;
    }
    for (k, v) in b {
        *r.entry(*k).or_default() += v * cb;
    }
    for (_, v) in r.iter_mut() {
        *v %= P;
    }
    norm(r)
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Op {
    Add,
    Sub,
    Mul,
    Div,
}

/// every form of `signal op signal`
fn forms<'a, const P: u64>(op: Op, a: &Sig<'a, P>, b: &Sig<'a, P>, k: usize) -> Option<Sig<'a, P>> {
    macro_rules! f {
        ($o:tt, $oa:tt) => {
            match k {
                0 => a.clone() $o b.clone(),
                1 => a.clone() $o b,
                2 => a $o b.clone(),
                3 => a $o b,
                4 => { let mut t = a.clone(); t $oa b.clone(); t }
                5 => { let mut t = a.clone(); t $oa b; t }
                _ => return None,
            }
        };
    }
    Some(match op {
        Op::Add => f!(+, +=),
        Op::Sub => f!(-, -=),
        Op::Mul => f!(*, *=),
        Op::Div => f!(/, /=),
    })
}
/// every form of `signal op number`
fn forms_cn<'a, const P: u64>(op: Op, a: &Sig<'a, P>, b: Num<Fp<P>>, k: usize) -> Option<Sig<'a, P>> {
    macro_rules! f {
        ($o:tt, $oa:tt) => {
            match k {
                0 => a.clone() $o b,
                1 => a.clone() $o &b,
                2 => a $o b,
                3 => a $o &b,
                4 => { let mut t = a.clone(); t $oa b; t }
                5 => { let mut t = a.clone(); t $oa &b; t }
                _ => return None,
            }
        };
    }
    Some(match op {
        Op::Add => f!(+, +=),
        Op::Sub => f!(-, -=),
        Op::Mul => f!(*, *=),
        Op::Div => f!(/, /=),
    })
}
/// every form of `number op signal`
fn forms_nc<'a, const P: u64>(op: Op, a: Num<Fp<P>>, b: &Sig<'a, P>, k: usize) -> Option<Sig<'a, P>> {
    macro_rules! f {
        ($o:tt) => {
            match k {
                0 => a $o b.clone(),
                1 => &a $o b.clone(),
                2 => a $o b,
                3 => &a $o b,
                _ => return None,
            }
        };
    }
    Some(match op {
        Op::Add => f!(+),
        Op::Sub => f!(-),
        Op::Mul => f!(*),
        Op::Div => return None,
    })
}

/// checks one result against the model; `before` = (variables, constraints) before the operation
fn check<const P: u64>(
    cs: &Cs<P>,
    what: &dyn Fn() -> String,
    op: Op,
    a: &Abs,
    b: &Abs,
    r: Result<Sig<P>, String>,
    before: (usize, usize),
) -> Result<Option<Abs>, String> {
    let bk = konst(&b.lc);
    let ak = konst(&a.lc);
    if op == Op::Div && bk == Some(0) {
        if ak == Some(0) {
            return Ok(None); // 0/0
        }
        ensure!(r.is_err(), "{}: division by the constant zero returned a signal", what());
        return Ok(None);
    }
    // a constant without a recorded value may be used with or without its value
    let may = match (ak.or(a.val), bk.or(b.val)) {
        (Some(x), Some(y)) => match op {
            Op::Add => Some((x + y) % P),
            Op::Sub => Some((x + P - y) % P),
            Op::Mul => Some(x * y % P),
            Op::Div => {
                if y == 0 {
                    return Ok(None); // outside the domain
                }
                Some(x * inv(y, P) % P)
            }
        },
        _ => None,
    };
    let val = if a.val.is_some() && b.val.is_some() { may } else { None };
    let r = r.map_err(|m| format!("{}: panic {}", what(), m))?;
    let lc: M = lc_of(&r).into_iter().map(|(i, f)| (i, f.0)).collect();
    let (dv, dc) = (cs.nvars() - before.0, cs.ncons() - before.1);
    let expect = match op {
        Op::Add => Some(lin::<P>(&a.lc, 1, &b.lc, 1)),
        Op::Sub => Some(lin::<P>(&a.lc, 1, &b.lc, P - 1)),
        Op::Mul => match (ak, bk) {
            (Some(k), _) => Some(lin::<P>(&b.lc, k, &M::new(), 0)),
            (_, Some(k)) => Some(lin::<P>(&a.lc, k, &M::new(), 0)),
            _ => None,
        },
        Op::Div => bk.map(|k| lin::<P>(&a.lc, inv(k, P), &M::new(), 0)),
    };
    match &expect {
        Some(e) => {
            ensure!(dv == 0 && dc == 0, "{}: {} variables and {} constraints for a free operation", what(), dv, dc);
            ensure!(lc == *e, "{}: combination {:?}, want {:?}", what(), lc, e);
        }
        None => {
            ensure!(dv == 1 && dc == 1, "{}: {} variables, {} constraints, want one each", what(), dv, dc);
        }
    }
    // value
    let isk = konst(&lc);
    match (r.value, val) {
        (Some(v), Some(w)) => ensure!(v.0 .0 == w, "{}: value {}, want {}", what(), v.0 .0, w),
        (None, Some(w)) => ensure!(false, "{}: no value, want {}", what(), w),
        (Some(v), None) => ensure!(may == Some(v.0 .0) || isk == Some(v.0 .0), "{}: value {} although an operand has none", what(), v.0 .0),
        (None, None) => {}
    }
    if val.is_some() {
        let e = cs.eval(&lc_of(&r)).map(|f| f.0);
        ensure!(e == val, "{}: combination evaluates to {:?}, value is {:?}", what(), e, val);
    }
    // constant report
    match r.as_const() {
        Some(c) => ensure!(isk == Some(c.0 .0), "{}: reported constant {} but combination is {:?}", what(), c.0 .0, lc),
        None => ensure!(isk.is_none(), "{}: constant combination {:?} not recognised", what(), lc),
    }
    if let Some(m) = cs.incoherent.borrow().as_ref() {
        return Err(format!("{}: {}", what(), m));
    }
    if let Ok(Some(k)) = cs.unsatisfied() {
        return Err(format!("{}: honest assignment violates constraint {}", what(), k));
    }
    Ok(Some(Abs { lc, val: r.value.map(|v| v.0 .0) }))
}

/// three variables: Input(1), Aux(0), Aux(1)
fn vars<'a, const P: u64>(cs: &'a Cs<P>, vals: &[Option<u64>; 3]) -> Vec<(Sig<'a, P>, Abs)> {
    let n = |x: Option<u64>| x.map(|x| Num(Fp::<P>(x)));
    let i = cs.alloc_input(n(vals[0]));
    let a = cs.alloc(n(vals[1]));
    let b = cs.alloc(n(vals[2]));
    [(i, vals[0]), (a, vals[1]), (b, vals[2])]
        .iter()
        .map(|(ix, v)| {
            let mut m = M::new();
            m.insert(*ix, 1);
            (CNum::from_var(cs, n(*v), *ix), Abs { lc: m, val: *v })
        })
        .collect()
}

/// builds c0 + c1 i + c2 a + c3 b; `ord` chooses the insertion order
fn combo<'a, const P: u64>(cs: &'a Cs<P>, vs: &[(Sig<'a, P>, Abs)], c: &[u64], ord: usize) -> (Sig<'a, P>, Abs) {
    let mut m = M::new();
    let mut val = Some(0);
    let mut acc: Option<Sig<'a, P>> = None;
    let idx: Vec<usize> = match ord {
        0 => vec![0, 1, 2, 3],
        1 => vec![3, 2, 1, 0],
        _ => vec![2, 0, 3, 1],
    };
    for i in idx {
        if c[i] == 0 {
            continue;
        }
        let term = if i == 0 {
            m.insert(Index::Input(0), c[0]);
            val = val.map(|v| (v + c[0]) % P);
            CNum::from_const(cs, &Num(Fp::<P>(c[0])))
        } else {
            let (s, a) = &vs[i - 1];
            for k in a.lc.keys() {
                m.insert(*k, c[i]);
            }
            val = match (val, a.val) {
                (Some(v), Some(w)) => Some((v + c[i] * w) % P),
                _ => None,
            };
            s.clone() * Num(Fp::<P>(c[i]))
        };
        acc = Some(match acc {
            None => term,
            Some(t) => t + term,
        });
    }
    let s = acc.unwrap_or_else(|| if ord == 0 { CNum::zero(cs) } else { &vs[1].0 - &vs[1].0 });
    let mut s = s;
    if m.is_empty() {
        s.value = Some(Num(Fp(0)));
        val = Some(0);
    }
    (s, Abs { lc: m, val })
}

fn all_coeffs(alpha: &[u64]) -> Vec<Vec<u64>> {
    let mut v = vec![];
    for a in alpha {
        for b in alpha {
            for c in alpha {
                for d in alpha {
                    v.push(vec![*a, *b, *c, *d]);
                }
            }
        }
    }
    v
}

const OPS: [Op; 4] = [Op::Add, Op::Sub, Op::Mul, Op::Div];

fn pairs<const P: u64>(ctx: &Ctx, alpha: &[u64], orders: &[usize], valsets: &[[Option<u64>; 3]]) {
    let cf = all_coeffs(alpha);
    let mut items = vec![];
    for (vi, vals) in valsets.iter().enumerate() {
        for c in &cf {
            items.push((format!("F{}/pairs/{}/{:?}", P, vi, c), (c.clone(), *vals)));
        }
    }
    ctx.sample(format!("F{}: {:?} op every combination, every form", P, cf[cf.len() - 2]));
    let cf = &cf;
    ctx.par(items, |(c, vals)| {
        for &oa in orders {
            for &ob in orders {
                for d in cf {
                    let cs = Cs::<P>::new();
                    let vs = vars(&cs, vals);
                    let (sa, aa) = combo(&cs, &vs, c, oa);
                    let (sb, ab) = combo(&cs, &vs, d, ob);
                    for op in OPS.iter() {
                        for k in 0..6 {
                            let before = (cs.nvars(), cs.ncons());
                            let r = guard(|| forms(*op, &sa, &sb, k).unwrap());
                            check(&cs, &|| format!("{:?} {:?} {:?} form {} values {:?}", aa.lc, op, ab.lc, k, vals), *op, &aa, &ab, r, before)?;
                            ctx.point(1);
                        }
                    }
                }
            }
        }
        // with numbers on either side, and negation
        for &oa in orders {
            for x in 0..P {
                let cs = Cs::<P>::new();
                let vs = vars(&cs, vals);
                let (sa, aa) = combo(&cs, &vs, c, oa);
                let kx = Abs { lc: norm(std::iter::once((Index::Input(0), x)).collect()), val: Some(x) };
                for op in OPS.iter() {
                    for k in 0..6 {
                        let before = (cs.nvars(), cs.ncons());
                        let r = guard(|| forms_cn(*op, &sa, Num(Fp(x)), k).unwrap());
                        check(&cs, &|| format!("{:?} {:?} num {} form {}", aa.lc, op, x, k), *op, &aa, &kx, r, before)?;
                        ctx.point(1);
                    }
                    if *op != Op::Div {
                        for k in 0..4 {
                            let before = (cs.nvars(), cs.ncons());
                            let r = guard(|| forms_nc(*op, Num(Fp(x)), &sa, k).unwrap());
                            check(&cs, &|| format!("num {} {:?} {:?} form {}", x, op, aa.lc, k), *op, &kx, &aa, r, before)?;
                            ctx.point(1);
                        }
                    }
                }
                let z = Abs { lc: M::new(), val: Some(0) };
                let before = (cs.nvars(), cs.ncons());
                check(&cs, &|| format!("-{:?}", aa.lc), Op::Sub, &z, &aa, guard(|| -sa.clone()), before)?;
                check(&cs, &|| format!("-&{:?}", aa.lc), Op::Sub, &z, &aa, guard(|| -&sa), before)?;
                ctx.point(2);
            }
        }
        Ok(())
    });
}

/// all left/right-deep expressions to the given depth over leaves {i, a, b, 0, 1, -1}
fn trees<const P: u64>(ctx: &Ctx, depth: usize, vals: [Option<u64>; 3], tag: &str) {
    // a program: start leaf, then steps (op, leaf or self, side)
    let mut items = vec![];
    for start in 0..6usize {
        for op in 0..4usize {
            for l in 0..7usize {
                items.push((format!("F{}/tree/{}/{}{:?}{}", P, tag, start, OPS[op], l), (start, op, l)));
            }
        }
    }
    ctx.par(items, |(start, op0, l0)| {
        fn go<'a, const P: u64>(
            ctx: &Ctx, cs: &'a Cs<P>, leaves: &[(Sig<'a, P>, Abs)], cur: (Sig<'a, P>, Abs), depth: usize,
            first: Option<(usize, usize)>, path: &mut Vec<String>,
        ) -> Res {
            for op in 0..4 {
                for l in 0..leaves.len() + 1 {
                    if let Some(f) = first {
                        if f != (op, l) {
                            continue;
                        }
                    }
                    for side in 0..2 {
                        let other = if l == leaves.len() { cur.clone() } else { leaves[l].clone() };
                        let (x, y) = if side == 0 { (&cur, &other) } else { (&other, &cur) };
                        let before = (cs.nvars(), cs.ncons());
                        let mark = cs.mark();
                        let k = (depth + op + l) % 6;
                        let r = guard(|| forms(OPS[op], &x.0, &y.0, k).unwrap());
                        path.push(format!("{:?} leaf{} side{}", OPS[op], l, side));
                        let rr = match &r { Ok(s) => Ok(s.clone()), Err(e) => Err(e.clone()) };
                        let p2 = path.clone();
                        let m = check(cs, &|| format!("{:?}", p2), OPS[op], &x.1, &y.1, rr, before)?;
                        ctx.point(1);
                        if depth > 1 {
                            if let (Some(m), Ok(s)) = (m, r) {
                                go(ctx, cs, leaves, (s, m), depth - 1, None, path)?;
                            }
                        }
                        path.pop();
                        cs.rollback(mark);
                    }
                }
            }
            Ok(())
        }
        let cs = Cs::<P>::new();
        let vs = vars(&cs, &vals);
        let mut leaves = vs.clone();
        for c in [0u64, 1, P - 1].iter() {
            leaves.push((CNum::from_const(&cs, &Num(Fp::<P>(*c))), Abs { lc: norm(std::iter::once((Index::Input(0), *c)).collect()), val: Some(*c) }));
        }
        let mut path = vec![format!("leaf{}", start)];
        go(ctx, &cs, &leaves, leaves[*start].clone(), depth, Some((*op0, *l0)), &mut path)
    });
}

/// n variables, public and private interleaved, with values 1.. mod P
fn many<'a, const P: u64>(cs: &'a Cs<P>, n: usize) -> Vec<(Sig<'a, P>, Abs)> {
    (0..n)
        .map(|k| {
            let v = (k as u64 * 3 + 1) % P;
            let x = Some(Num(Fp::<P>(v)));
            let ix = if k % 2 == 0 { cs.alloc(x) } else { cs.alloc_input(x) };
            let mut m = M::new();
            m.insert(ix, 1);
            (CNum::from_var(cs, x, ix), Abs { lc: m, val: Some(v) })
        })
        .collect()
}

/// the combination with coefficient `co(k)` at the k-th operand (the last one is the constant), for k in `ks`
fn pick<'a, const P: u64>(cs: &'a Cs<P>, vs: &[(Sig<'a, P>, Abs)], ks: &[usize], co: &dyn Fn(usize) -> u64) -> (Sig<'a, P>, Abs) {
    let mut s = CNum::zero(cs);
    let mut a = Abs { lc: M::new(), val: Some(0) };
    for &k in ks {
        let c = co(k) % P;
        let (t, lc, v) = if k == vs.len() {
            (CNum::from_const(cs, &Num(Fp::<P>(c))), norm(std::iter::once((Index::Input(0), c)).collect()), c)
        } else {
            (vs[k].0.clone() * Num(Fp::<P>(c)), lin::<P>(&vs[k].1.lc, c, &M::new(), 0), vs[k].1.val.unwrap() * c % P)
        };
        s = s + t;
        a = Abs { lc: lin::<P>(&a.lc, 1, &lc, 1), val: a.val.map(|x| (x + v) % P) };
    }
    (s, a)
}

/// all pairs of subsets of `n` variables and the constant
fn subsets<const P: u64>(ctx: &Ctx, n: usize) {
    let items = (0..1usize << (n + 1)).map(|m| (format!("F{}/subsets of {}/{:b}", P, n + 1, m), m)).collect();
    ctx.par(items, |ma| {
        let of = |m: usize| (0..=n).filter(|k| m >> k & 1 == 1).collect::<Vec<_>>();
        for mb in 0..1usize << (n + 1) {
            for pat in 0..2 {
                let cs = Cs::<P>::new();
                let vs = many(&cs, n);
                let (sa, aa) = pick(&cs, &vs, &of(*ma), &|k| k as u64 % (P - 1) + 1);
                // equal coefficients (everything common cancels in a difference), or every second one opposite
                let (sb, ab) = pick(&cs, &vs, &of(mb), &|k| { let c = k as u64 % (P - 1) + 1; if pat == 1 && k % 2 == 0 { P - c } else { c } });
                for (op, k) in [(Op::Add, 3), (Op::Add, 4), (Op::Sub, 0), (Op::Sub, 5), (Op::Mul, 3)].iter() {
                    let before = (cs.nvars(), cs.ncons());
                    let r = guard(|| forms(*op, &sa, &sb, *k).unwrap());
                    check(&cs, &|| format!("{:?} {:?} {:?} form {}", aa.lc, op, ab.lc, k), *op, &aa, &ab, r, before)?;
                    ctx.point(1);
                }
            }
        }
        Ok(())
    });
}

/// long sums: one variable at a time in several orders, then whole combinations merged and cancelled
fn long<const P: u64>(ctx: &Ctx, n: usize) {
    let orders: Vec<(String, Vec<usize>)> = vec![
        ("ascending".into(), (0..n).collect()),
        ("descending".into(), (0..n).rev().collect()),
        ("inside out".into(), (0..n).map(|i| if i % 2 == 0 { n / 2 + i / 2 } else { n / 2 - 1 - i / 2 }).filter(|i| *i < n).collect()),
        ("stride 7".into(), (0..7).flat_map(|r| (r..n).step_by(7).collect::<Vec<_>>()).collect()),
    ];
    let items = orders.into_iter().map(|(t, o)| (format!("F{}/sum of {} variables/{}", P, n, t), o)).collect();
    ctx.par(items, |order| {
        let cs = Cs::<P>::new();
        let vs = many(&cs, n);
        for op in [Op::Add, Op::Sub].iter() {
            let mut cur = pick(&cs, &vs, &[n], &|_| 3);
            for pass in 0..2 {
                // the second pass takes every other variable out again
                for &k in order.iter().filter(|k| pass == 0 || *k % 2 == 0) {
                    let op = match (op, pass) { (Op::Add, 0) | (Op::Sub, 1) => Op::Add, _ => Op::Sub };
                    let before = (cs.nvars(), cs.ncons());
                    let r = guard(|| forms(op, &cur.0, &vs[k].0, k % 6).unwrap());
                    let rr = match &r { Ok(s) => Ok(s.clone()), Err(e) => Err(e.clone()) };
                    let a = check(&cs, &|| format!("sum of {} terms {:?} variable {}", cur.1.lc.len(), op, k), op, &cur.1, &vs[k].1, rr, before)?;
                    ctx.point(1);
                    cur = (r.unwrap(), a.unwrap());
                }
            }
        }
        for step in [1usize, 2, 3, 10].iter() {
            let (sa, aa) = pick(&cs, &vs, &(0..n).step_by(*step).collect::<Vec<_>>(), &|k| k as u64 % (P - 1) + 1);
            for off in 0..4 {
                for st in [1usize, 2, 5].iter() {
                    let (sb, ab) = pick(&cs, &vs, &(off..=n).step_by(*st).collect::<Vec<_>>(), &|k| k as u64 % (P - 1) + 1);
                    for op in OPS.iter() {
                        for k in 0..6 {
                            let before = (cs.nvars(), cs.ncons());
                            let r = guard(|| forms(*op, &sa, &sb, k).unwrap());
                            check(&cs, &|| format!("{} terms {:?} {} terms form {}", aa.lc.len(), op, ab.lc.len(), k), *op, &aa, &ab, r, before)?;
                            ctx.point(1);
                        }
                    }
                }
            }
        }
        Ok(())
    });
}

fn main() {
    run(
        "C04",
        &["all pairs of combinations over the constant and three variables with every coefficient of the alphabet; all pairs of subsets of up to eight indices with fixed coefficients; sums of up to 300 variables in four orders",
          "division by a signal whose value is zero is outside the domain"],
        true,
        |ctx| {
            let s = Some;
            pairs::<5>(ctx, &[0, 1, 4], &[0, 1, 2], &[[s(2), s(3), s(4)]]);
            pairs::<5>(ctx, &[0, 1, 4], &[1], &[[None, s(3), s(4)], [s(2), None, s(1)], [s(1), s(2), None], [None, None, None], [s(0), s(0), s(0)], [s(1), s(4), s(0)]]);
            pairs::<7>(ctx, &[0, 1, 3, 6], &[2], &[[s(2), s(3), s(5)]]);
            // value arithmetic on every assignment of a small field
            let mut all = vec![];
            for a in 0..3 {
                for b in 0..3 {
                    for c in 0..3 {
                        all.push([s(a), s(b), s(c)]);
                    }
                }
            }
            pairs::<3>(ctx, &[0, 1, 2], &[0], &all);
            let d = ctx.t(3, 4);
            trees::<7>(ctx, d, [s(2), s(3), s(5)], "v");
            trees::<7>(ctx, d, [None, s(3), s(5)], "n");
            subsets::<13>(ctx, ctx.t(6, 8));
            for n in [1usize, 9, 33, 70, 300].iter() {
                long::<61>(ctx, *n);
            }
            if ctx.thorough() {
                subsets::<3>(ctx, 7);
                pairs::<5>(ctx, &[0, 1, 2, 3, 4], &[0, 2], &[[s(2), s(3), s(4)], [s(4), s(1), s(0)], [None, s(1), s(2)]]);
                pairs::<13>(ctx, &[0, 1, 5, 12], &[1, 2], &[[s(7), s(11), s(2)]]);
                trees::<5>(ctx, 4, [s(4), s(1), s(2)], "v");
                trees::<5>(ctx, 4, [s(4), None, None], "n");
            }
        },
    );
}
