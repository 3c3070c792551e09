//! Exhaustive exploration of the witness space of a recorded constraint system over a large
//! field, for fixed input values.
//!
//! Nodes are partial assignments. Every rule is exact (it never drops a solution): unit linear
//! constraints, roots of one-variable quadratics, binary digits (a combination of bits with
//! distinct power-of-two weights has one solution per representable integer), zero products and
//! finite domains as branch points. `Forced` therefore means: in every satisfying assignment the
//! outputs have the expected values. A `Cheat` is a complete assignment checked against all
//! constraints. Whatever the rules cannot finish is `Undecided` and never reported as violation.
use crate::big::{fbig, modulus, pow2, BigUint};
use crate::rec::{Con, Lc, RecCS};
use fawkes_crypto::circuit::num::Index;
use fawkes_crypto::core::field::Field;
use num::traits::{One, Zero};
use std::collections::{HashMap, VecDeque};

#[derive(Debug, Clone)]
pub enum Verdict {
    /// outputs forced (or, when unsatisfiability was expected, no solution exists)
    Forced,
    /// a complete satisfying assignment with other outputs
    Cheat(String),
    Undecided(String),
}

#[derive(Clone)]
struct Aff<F> {
    c: F,
    t: Vec<(usize, F)>,
}

#[derive(Clone)]
enum Alt<F> {
    Assign(Vec<(usize, F)>),
    Lin(Aff<F>),
}

#[derive(Clone)]
struct State<F> {
    val: Vec<Option<F>>,
    dom: Vec<Option<Vec<F>>>,
    done: Vec<bool>,
    extra: Vec<Aff<F>>,
    queue: VecDeque<usize>,
    inq: Vec<bool>,
}

pub struct Sys<F: Field> {
    idx: Vec<Index>,
    cons: Vec<(Aff<F>, Aff<F>, Aff<F>)>,
    occ: Vec<Vec<usize>>,
    fixed: Vec<usize>,
    outs: Vec<Aff<F>>,
    p: BigUint,
    pub nodes: u64,
    pub steps: u64,
    pub max_nodes: u64,
}

struct Dead;

impl<F: Field> Sys<F> {
    pub fn new(cs: &RecCS<F>, fixed: &[Index], outs: &[Lc<F>]) -> Self {
        let idx: Vec<Index> = cs.order.borrow().clone();
        let map: HashMap<Index, usize> = idx.iter().cloned().enumerate().map(|(a, b)| (b, a)).collect();
        let cv = |l: &Lc<F>| -> Aff<F> {
            let mut r = Aff { c: F::zero(), t: vec![] };
            for (i, c) in l {
                if *i == Index::Input(0) {
                    r.c = *c;
                } else {
                    r.t.push((map[i], *c));
                }
            }
            r
        };
        let cons: Vec<_> = cs.cons.borrow().iter().map(|Con(a, b, c)| (cv(a), cv(b), cv(c))).collect();
        let mut occ = vec![vec![]; idx.len()];
        for (k, (a, b, c)) in cons.iter().enumerate() {
            for (v, _) in a.t.iter().chain(b.t.iter()).chain(c.t.iter()) {
                if occ[*v].last() != Some(&k) {
                    occ[*v].push(k);
                }
            }
        }
        Sys {
            fixed: fixed.iter().map(|i| map[i]).collect(),
            outs: outs.iter().map(cv).collect(),
            idx,
            cons,
            occ,
            p: modulus::<F>(),
            nodes: 0,
            steps: 0,
            max_nodes: 3000,
        }
    }

    fn sub(&self, st: &State<F>, a: &Aff<F>) -> Aff<F> {
        let mut r = Aff { c: a.c, t: vec![] };
        for (v, c) in &a.t {
            match &st.val[*v] {
                Some(x) => {
                    let mut t = *x;
                    t.mul_assign(c);
                    r.c.add_assign(&t);
                }
                None => r.t.push((*v, *c)),
            }
        }
        r
    }

    fn assign(&self, st: &mut State<F>, v: usize, x: F) -> Result<(), Dead> {
        if let Some(y) = &st.val[v] {
            return if *y == x { Ok(()) } else { Err(Dead) };
        }
        if let Some(d) = &st.dom[v] {
            if !d.contains(&x) {
                return Err(Dead);
            }
        }
        st.val[v] = Some(x);
        for k in &self.occ[v] {
            if !st.done[*k] && !st.inq[*k] {
                st.inq[*k] = true;
                st.queue.push_back(*k);
            }
        }
        let n = self.cons.len();
        for (i, e) in st.extra.iter().enumerate() {
            if e.t.iter().any(|t| t.0 == v) && !st.queue.contains(&(n + i)) {
                st.queue.push_back(n + i);
            }
        }
        Ok(())
    }

    fn restrict(&self, st: &mut State<F>, v: usize, d: Vec<F>) -> Result<(), Dead> {
        let nd: Vec<F> = match &st.dom[v] {
            Some(o) => d.into_iter().filter(|x| o.contains(x)).collect(),
            None => d,
        };
        match nd.len() {
            0 => Err(Dead),
            1 => self.assign(st, v, nd[0]),
            _ => {
                if st.dom[v].as_ref().map(|o| o.len()) != Some(nd.len()) {
                    st.dom[v] = Some(nd);
                    for k in &self.occ[v] {
                        if !st.done[*k] && !st.inq[*k] {
                            st.inq[*k] = true;
                            st.queue.push_back(*k);
                        }
                    }
                }
                Ok(())
            }
        }
    }

    fn is_bit(&self, st: &State<F>, v: usize) -> bool {
        match &st.dom[v] {
            Some(d) => d.iter().all(|x| x.is_zero() || *x == F::one()),
            None => false,
        }
    }

    /// all bit assignments with sum(c_i b_i) = t for one of the targets; None if no rule applies
    fn digits(&self, st: &State<F>, terms: &[(usize, F)], targets: &[F]) -> Option<Vec<Vec<(usize, F)>>> {
        if !terms.iter().all(|(v, _)| self.is_bit(st, *v)) {
            return None;
        }
        if terms.len() <= 4 {
            let mut r = vec![];
            for m in 0..1u32 << terms.len() {
                let mut s = F::zero();
                for (i, (_, c)) in terms.iter().enumerate() {
                    if m >> i & 1 == 1 {
                        s.add_assign(c);
                    }
                }
                if targets.contains(&s) {
                    r.push(terms.iter().enumerate().map(|(i, (v, _))| (*v, if m >> i & 1 == 1 { F::one() } else { F::zero() })).collect());
                }
            }
            return Some(r);
        }
        'cand: for cand in 0..terms.len().min(8) {
            let s = terms[cand].1.inverse().unwrap();
            let mut exps = Vec::with_capacity(terms.len());
            let mut total = BigUint::zero();
            for (_, c) in terms {
                let mut x = *c;
                x.mul_assign(&s);
                let b = fbig(&x);
                let e = b.bits() - 1;
                if b != pow2(e) || exps.contains(&e) {
                    continue 'cand;
                }
                total += &b;
                exps.push(e);
            }
            let mut sols = vec![];
            for t in targets {
                let mut x = *t;
                x.mul_assign(&s);
                let mut n = fbig(&x);
                let mut guard = 0;
                while n <= total {
                    guard += 1;
                    if guard > 64 {
                        return None;
                    }
                    let mut rest = n.clone();
                    let mut a = vec![];
                    for (i, (v, _)) in terms.iter().enumerate() {
                        let bit = ((&n >> exps[i]) & BigUint::one()).is_one();
                        if bit {
                            rest -= pow2(exps[i]);
                        }
                        a.push((*v, if bit { F::one() } else { F::zero() }));
                    }
                    if rest.is_zero() {
                        sols.push(a);
                    }
                    n += &self.p;
                }
            }
            return Some(sols);
        }
        None
    }

    /// c + terms = 0
    fn linear(&self, st: &mut State<F>, l: Aff<F>, choice: &mut Vec<Vec<Alt<F>>>) -> Result<bool, Dead> {
        match l.t.len() {
            0 => {
                if l.c.is_zero() {
                    Ok(true)
                } else {
                    Err(Dead)
                }
            }
            1 => {
                let mut x = l.t[0].1.inverse().unwrap();
                x.mul_assign(&l.c);
                x.negate();
                self.assign(st, l.t[0].0, x)?;
                Ok(true)
            }
            _ => {
                let mut t = l.c;
                t.negate();
                if let Some(sols) = self.digits(st, &l.t, &[t]) {
                    return self.take(st, sols, choice);
                }
                Ok(false)
            }
        }
    }

    fn take(&self, st: &mut State<F>, sols: Vec<Vec<(usize, F)>>, choice: &mut Vec<Vec<Alt<F>>>) -> Result<bool, Dead> {
        match sols.len() {
            0 => Err(Dead),
            1 => {
                for (v, x) in &sols[0] {
                    self.assign(st, *v, *x)?;
                }
                Ok(true)
            }
            _ => {
                choice.push(sols.into_iter().map(Alt::Assign).collect());
                Ok(false)
            }
        }
    }

    /// roots of q2 x^2 + q1 x + q0; None = every x
    fn roots(q2: F, q1: F, q0: F) -> Option<Vec<F>> {
        if q2.is_zero() {
            if q1.is_zero() {
                return if q0.is_zero() { None } else { Some(vec![]) };
            }
            let mut x = q1.inverse().unwrap();
            x.mul_assign(&q0);
            x.negate();
            return Some(vec![x]);
        }
        let mut disc = q1;
        disc.square();
        let mut f = q2;
        f.mul_assign(&q0);
        f.double();
        f.double();
        disc.sub_assign(&f);
        let r = match disc.sqrt() {
            None => return Some(vec![]),
            Some(r) => r,
        };
        let mut den = q2;
        den.double();
        let den = den.inverse().unwrap();
        let mut out = vec![];
        for sgn in 0..2 {
            let mut x = q1;
            x.negate();
            if sgn == 0 {
                x.add_assign(&r);
            } else {
                x.sub_assign(&r);
            }
            x.mul_assign(&den);
            if !out.contains(&x) {
                out.push(x);
            }
        }
        Some(out)
    }

    /// processes one constraint; Ok(true) when it is fully used
    fn visit(&self, st: &mut State<F>, k: usize, choice: &mut Vec<Vec<Alt<F>>>) -> Result<bool, Dead> {
        if k >= self.cons.len() {
            let l = self.sub(st, &st.extra[k - self.cons.len()].clone());
            return self.linear(st, l, choice);
        }
        let (a, b, c) = &self.cons[k];
        let (a, b, c) = (self.sub(st, a), self.sub(st, b), self.sub(st, c));
        let scaled = |s: &F, x: &Aff<F>, c: &Aff<F>| -> Aff<F> {
            // s*x - c
            let mut m: Vec<(usize, F)> = vec![];
            for (v, co) in &x.t {
                let mut t = *co;
                t.mul_assign(s);
                if !t.is_zero() {
                    m.push((*v, t));
                }
            }
            for (v, co) in &c.t {
                match m.iter_mut().find(|e| e.0 == *v) {
                    Some(e) => e.1.sub_assign(co),
                    None => {
                        let mut t = *co;
                        t.negate();
                        m.push((*v, t));
                    }
                }
            }
            m.retain(|e| !e.1.is_zero());
            let mut k = x.c;
            k.mul_assign(s);
            k.sub_assign(&c.c);
            Aff { c: k, t: m }
        };
        if a.t.is_empty() {
            let l = scaled(&a.c, &b, &c);
            return self.linear(st, l, choice);
        }
        if b.t.is_empty() {
            let l = scaled(&b.c, &a, &c);
            return self.linear(st, l, choice);
        }
        // A = alpha M + a.c, B = gamma M + b.c, C = zeta M + c.c with M = A's unknown part
        let m = a.t.clone();
        let ratio = |x: &Aff<F>| -> Option<F> {
            if x.t.is_empty() {
                return Some(F::zero());
            }
            if x.t.len() != m.len() {
                return None;
            }
            let mut r = m[0].1.inverse().unwrap();
            let first = x.t.iter().find(|e| e.0 == m[0].0)?;
            r.mul_assign(&first.1);
            for (v, co) in &m {
                let o = x.t.iter().find(|e| e.0 == *v)?;
                let mut t = *co;
                t.mul_assign(&r);
                if t != o.1 {
                    return None;
                }
            }
            Some(r)
        };
        if let (Some(g), Some(z)) = (ratio(&b), ratio(&c)) {
            // (M + a.c)(g M + b.c) = z M + c.c
            let q2 = g;
            let mut q1 = a.c;
            q1.mul_assign(&g);
            q1.add_assign(&b.c);
            q1.sub_assign(&z);
            let mut q0 = a.c;
            q0.mul_assign(&b.c);
            q0.sub_assign(&c.c);
            let rs = match Self::roots(q2, q1, q0) {
                None => return Ok(true),
                Some(rs) => rs,
            };
            if rs.is_empty() {
                return Err(Dead);
            }
            if m.len() == 1 {
                let ci = m[0].1.inverse().unwrap();
                let d: Vec<F> = rs
                    .iter()
                    .map(|r| {
                        let mut x = *r;
                        x.mul_assign(&ci);
                        x
                    })
                    .collect();
                self.restrict(st, m[0].0, d)?;
                return Ok(true);
            }
            if let Some(sols) = self.digits(st, &m, &rs) {
                return self.take(st, sols, choice);
            }
            if rs.len() == 1 {
                let mut c = rs[0];
                c.negate();
                st.extra.push(Aff { c, t: m });
                st.queue.push_back(self.cons.len() + st.extra.len() - 1);
                return Ok(true);
            }
            choice.push(
                rs.iter()
                    .map(|r| {
                        let mut c = *r;
                        c.negate();
                        Alt::Lin(Aff { c, t: m.clone() })
                    })
                    .collect(),
            );
            return Ok(false);
        }
        if c.t.is_empty() && c.c.is_zero() {
            choice.push(vec![Alt::Lin(a), Alt::Lin(b)]);
        }
        Ok(false)
    }

    fn propagate(&mut self, st: &mut State<F>) -> Result<(), Dead> {
        let mut scratch = vec![];
        while let Some(k) = st.queue.pop_front() {
            if k < self.cons.len() {
                st.inq[k] = false;
                if st.done[k] {
                    continue;
                }
            }
            self.steps += 1;
            scratch.clear();
            let fin = self.visit(st, k, &mut scratch)?;
            if fin && k < self.cons.len() {
                st.done[k] = true;
            }
        }
        Ok(())
    }

    fn outs_of(&self, st: &State<F>) -> Option<Vec<F>> {
        self.outs
            .iter()
            .map(|o| {
                let s = self.sub(st, o);
                if s.t.is_empty() {
                    Some(s.c)
                } else {
                    None
                }
            })
            .collect()
    }

    fn complete_ok(&self, st: &State<F>) -> bool {
        st.val.iter().all(|v| v.is_some())
            && self.cons.iter().all(|(a, b, c)| {
                let (mut x, y, z) = (self.sub(st, a).c, self.sub(st, b).c, self.sub(st, c).c);
                x.mul_assign(&y);
                x == z
            })
    }

    /// tries to extend to a complete assignment, preferring the honest values
    fn fill(&mut self, st: &State<F>, honest: &[F], want: Option<&[F]>) -> Option<String> {
        let mut st = st.clone();
        if self.propagate(&mut st).is_err() {
            return None;
        }
        loop {
            // finite domains first, free variables last
            let v = (0..st.val.len()).filter(|v| st.val[*v].is_none()).min_by_key(|v| (st.dom[*v].is_none(), *v));
            let v = match v {
                None => break,
                Some(v) => v,
            };
            let cands: Vec<F> = match &st.dom[v] {
                Some(d) => {
                    let mut d = d.clone();
                    d.sort_by_key(|x| *x != honest[v]);
                    d
                }
                None => vec![honest[v], F::one(), F::zero()],
            };
            let mut ok = false;
            for x in cands {
                let mut t = st.clone();
                if self.assign(&mut t, v, x).is_ok() && self.propagate(&mut t).is_ok() {
                    st = t;
                    ok = true;
                    break;
                }
            }
            if !ok {
                return None;
            }
        }
        if !self.complete_ok(&st) {
            return None;
        }
        let o = self.outs_of(&st)?;
        if let Some(w) = want {
            if o == w {
                return None;
            }
        }
        let diff: Vec<String> = (0..st.val.len())
            .filter(|v| st.val[*v] != Some(honest[*v]))
            .take(4)
            .map(|v| format!("{:?}={} (honest {})", self.idx[v], fbig(&st.val[v].unwrap()), fbig(&honest[v])))
            .collect();
        Some(format!(
            "dishonest assignment satisfies every constraint: outputs {:?}; {}",
            o.iter().map(fbig).map(|b| b.to_string()).take(4).collect::<Vec<_>>(),
            diff.join(", ")
        ))
    }

    fn init(&self, values: &[F]) -> State<F> {
        let n = self.idx.len();
        let mut st = State {
            val: vec![None; n],
            dom: vec![None; n],
            done: vec![false; self.cons.len()],
            extra: vec![],
            queue: (0..self.cons.len()).collect(),
            inq: vec![true; self.cons.len()],
        };
        for (i, v) in self.fixed.iter().enumerate() {
            st.val[*v] = Some(values[i]);
        }
        st
    }

    /// `honest`: recorded values of an honest run of the same system (hints for cheat search);
    /// `want`: expected outputs, None when the system must be unsatisfiable.
    pub fn decide(&mut self, values: &[F], honest: &RecCS<F>, want: Option<&[F]>, cheat_search: bool) -> Verdict {
        // two branching orders; each is exhaustive, they differ only in how soon they end
        let limit = self.max_nodes;
        for (late, n) in [(false, 30), (true, 300), (false, 300)].iter() {
            self.max_nodes = limit.min(*n);
            match self.decide_with(values, honest, want, false, *late) {
                Verdict::Undecided(m) if m == "branch limit" => {}
                Verdict::Undecided(_) => break,
                v => {
                    self.max_nodes = limit;
                    return v;
                }
            }
        }
        self.max_nodes = limit;
        self.decide_with(values, honest, want, cheat_search, false)
    }

    /// `late`: branch on zero products first, then on the variable allocated last
    fn decide_with(&mut self, values: &[F], honest: &RecCS<F>, want: Option<&[F]>, cheat_search: bool, late: bool) -> Verdict {
        let hv: Vec<F> = self.idx.iter().map(|i| honest.var(i).map(|n| n.0).unwrap_or_else(F::zero)).collect();
        let root = self.init(values);
        let mut stack = vec![root.clone()];
        let mut undecided: Option<String> = None;
        let start = self.nodes;
        while let Some(mut st) = stack.pop() {
            self.nodes += 1;
            if self.nodes - start > self.max_nodes {
                undecided = Some("branch limit".into());
                break;
            }
            if self.propagate(&mut st).is_err() {
                continue;
            }
            let outs = self.outs_of(&st);
            if let (Some(o), Some(w)) = (&outs, want) {
                if o == w {
                    continue;
                }
            }
            if self.complete_ok(&st) {
                return match self.fill(&st, &hv, want) {
                    Some(m) => Verdict::Cheat(m),
                    None => Verdict::Undecided("internal".into()),
                };
            }
            // open choices of the remaining constraints
            let mut choices = vec![];
            let mut dead = false;
            for k in 0..self.cons.len() {
                if st.done[k] {
                    continue;
                }
                let mut probe = st.clone();
                probe.queue.clear();
                let mut ch = vec![];
                match self.visit(&mut probe, k, &mut ch) {
                    Err(Dead) => {
                        dead = true;
                        break;
                    }
                    Ok(_) => choices.extend(ch),
                }
                if choices.len() >= 24 {
                    break;
                }
            }
            if dead {
                continue;
            }
            let fd = (0..st.val.len()).filter(|v| st.val[*v].is_none() && st.dom[*v].is_some()).min_by_key(|v| (st.dom[*v].as_ref().unwrap().len(), *v));
            let width = |a: &Alt<F>| match a {
                Alt::Assign(_) => 0,
                Alt::Lin(l) => l.t.len(),
            };
            let bc = choices.into_iter().min_by_key(|c| (c.len(), c.iter().map(width).max().unwrap_or(0)));
            let bc = match bc {
                // a wide two-way split helps only when nothing else is left
                Some(c) if late && fd.is_some() && c.iter().any(|a| width(a) > 4) => None,
                c => c,
            };
            let fd = if late && fd.is_some() {
                (0..st.val.len()).filter(|v| st.val[*v].is_none() && st.dom[*v].is_some()).max_by_key(|v| (!self.is_bit(&st, *v), *v))
            } else {
                fd
            };
            let fd = if late && bc.is_some() { None } else { fd };
            if let Some(v) = fd {
                for x in st.dom[v].clone().unwrap() {
                    let mut t = st.clone();
                    if self.assign(&mut t, v, x).is_ok() {
                        stack.push(t);
                    }
                }
                continue;
            }
            if let Some(alts) = bc {
                for a in alts {
                    let mut t = st.clone();
                    match a {
                        Alt::Assign(xs) => {
                            if xs.into_iter().all(|(v, x)| self.assign(&mut t, v, x).is_ok()) {
                                stack.push(t);
                            }
                        }
                        Alt::Lin(l) => {
                            t.extra.push(l);
                            t.queue.push_back(self.cons.len() + t.extra.len() - 1);
                            stack.push(t);
                        }
                    }
                }
                continue;
            }
            // free variables remain: a concrete cheat, or no verdict for this branch
            if cheat_search {
                if let Some(m) = self.fill(&st, &hv, want) {
                    return Verdict::Cheat(m);
                }
            }
            undecided = Some(format!("{} variables remain free", st.val.iter().filter(|v| v.is_none()).count()));
            if !cheat_search {
                break;
            }
        }
        match undecided {
            None => Verdict::Forced,
            Some(m) => {
                if cheat_search {
                    if let Some(c) = self.flips(&root, &hv, want) {
                        return Verdict::Cheat(c);
                    }
                }
                Verdict::Undecided(m)
            }
        }
    }

    /// every deviation of one internal variable, completed by propagation and honest values
    fn flips(&mut self, root: &State<F>, hv: &[F], want: Option<&[F]>) -> Option<String> {
        let mut base = root.clone();
        if self.propagate(&mut base).is_err() {
            return None;
        }
        let n = self.idx.len();
        let budget = std::time::Instant::now();
        for v in 0..n {
            if base.val[v].is_some() {
                continue;
            }
            let h = hv[v];
            let mut alts: Vec<F> = vec![F::zero(), F::one()];
            let mut t = h;
            t.negate();
            alts.push(t);
            let mut t = h;
            t.add_assign(&F::one());
            alts.push(t);
            for x in alts {
                if x == h || budget.elapsed().as_secs() > 20 {
                    continue;
                }
                let mut st = base.clone();
                if self.assign(&mut st, v, x).is_err() {
                    continue;
                }
                self.nodes += 1;
                if let Some(m) = self.fill(&st, hv, want) {
                    return Some(m);
                }
            }
        }
        None
    }
}
