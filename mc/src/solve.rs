//! Exhaustive explicit-state exploration of the witness space of a recorded constraint system
//! over a tiny field.
//!
//! A state is the set of values of the variables that are still needed ("live"). Constraints are
//! consumed in a fixed order; a step extends every state by all values of the variables the
//! constraint introduces, keeps exactly those that satisfy it, projects away variables that no
//! later constraint or output mentions and merges equal states. Two states that agree on the
//! live variables have identical futures, so merging is exact. The final states give exactly the
//! set of output tuples that some (honest or dishonest) assignment can produce.
use crate::fp::Fp;
use crate::rec::{Lc, RecCS};
use fawkes_crypto::circuit::num::Index;
use std::collections::{BTreeSet, HashMap, HashSet};

#[derive(Clone, Debug)]
struct L {
    c: u32,
    t: Vec<(usize, u32)>, // slot in the state, coefficient
}

#[derive(Clone, Debug)]
enum Solve {
    Check,
    /// the new variable's coefficients in a, b, c
    One(u32, u32, u32),
}

#[derive(Clone, Debug)]
struct Step {
    branch: usize, // free variables appended before solving (over the whole field)
    con: Option<(L, L, L)>,
    solve: Solve,
    keep: Vec<usize>, // slots surviving
}

pub struct Plan {
    p: u32,
    init: Vec<usize>, // index into the fixed inputs for each initial slot
    steps: Vec<Step>,
    outs: Vec<L>,
    inv: Vec<u32>,
    roots: Vec<Vec<u32>>,
    pub cap: usize,
}

#[derive(Default, Clone, Copy, Debug)]
pub struct Stats {
    pub states: u64,
    pub transitions: u64,
    pub peak: usize,
}

fn vars<F: Copy>(l: &Lc<F>) -> impl Iterator<Item = Index> + '_ {
    l.iter().map(|x| x.0).filter(|i| *i != Index::Input(0))
}

impl Plan {
    /// `fixed`: variables whose values the caller enumerates; `outs`: observed combinations.
    pub fn new<const P: u64>(cs: &RecCS<Fp<P>>, fixed: &[Index], outs: &[Lc<Fp<P>>]) -> Plan {
        let p = P as u32;
        assert!(P < 256);
        let cons = cs.cons.borrow();
        // uses
        let cv: Vec<BTreeSet<Index>> = cons
            .iter()
            .map(|c| vars(&c.0).chain(vars(&c.1)).chain(vars(&c.2)).collect())
            .collect();
        let mut occ: HashMap<Index, Vec<usize>> = HashMap::new();
        for (k, s) in cv.iter().enumerate() {
            for v in s {
                occ.entry(*v).or_default().push(k);
            }
        }
        let mut outv: BTreeSet<Index> = BTreeSet::new();
        for o in outs {
            outv.extend(vars(o));
        }
        let mut uses: HashMap<Index, usize> = HashMap::new();
        for (v, k) in &occ {
            *uses.entry(*v).or_default() += k.len();
        }
        for v in &outv {
            *uses.entry(*v).or_default() += 1;
        }
        let mut known: HashSet<Index> = fixed.iter().cloned().collect();
        let mut unk: Vec<usize> =
            cv.iter().map(|s| s.iter().filter(|v| !known.contains(v)).count()).collect();
        let mut left: BTreeSet<usize> = (0..cons.len()).collect();
        // live slots
        let mut slots: Vec<Index> = vec![];
        let mut init = vec![];
        for (i, v) in fixed.iter().enumerate() {
            if uses.get(v).cloned().unwrap_or(0) > 0 && !slots.contains(v) {
                slots.push(*v);
                init.push(i);
            }
        }
        let mklc = |l: &Lc<Fp<P>>, slots: &[Index], skip: Option<Index>| -> (L, u32) {
            let mut r = L { c: 0, t: vec![] };
            let mut co = 0;
            for (i, c) in l {
                if *i == Index::Input(0) {
                    r.c = c.0 as u32;
                } else if Some(*i) == skip {
                    co = c.0 as u32;
                } else {
                    r.t.push((slots.iter().position(|s| s == i).expect("slot"), c.0 as u32));
                }
            }
            (r, co)
        };
        let mut steps = vec![];
        while !left.is_empty() {
            // fewest unknowns first, then the earliest
            let k = *left.iter().min_by_key(|k| (unk[**k], **k)).unwrap();
            let mut nb = 0;
            let news: Vec<Index> = cv[k].iter().filter(|v| !known.contains(v)).cloned().collect();
            if news.len() > 1 {
                // branch on one variable (the one touching most constraints) over the whole
                // field, then re-plan: it may make other constraints cheaper
                let v = *news.iter().max_by_key(|v| (occ[v].len(), std::cmp::Reverse(**v))).unwrap();
                known.insert(v);
                for c in &occ[&v] {
                    unk[*c] -= 1;
                }
                slots.push(v);
                nb += 1;
                steps.push(Step {
                    branch: nb,
                    con: None,
                    solve: Solve::Check,
                    keep: (0..slots.len()).collect(),
                });
                continue;
            }
            let c = &cons[k];
            let nv = news.get(0).cloned();
            let (a, a1) = mklc(&c.0, &slots, nv);
            let (b, b1) = mklc(&c.1, &slots, nv);
            let (cc, c1) = mklc(&c.2, &slots, nv);
            let solve = match nv {
                Some(v) => {
                    known.insert(v);
                    for c in &occ[&v] {
                        unk[*c] -= 1;
                    }
                    slots.push(v);
                    Solve::One(a1, b1, c1)
                }
                None => Solve::Check,
            };
            left.remove(&k);
            for v in &cv[k] {
                *uses.get_mut(v).unwrap() -= 1;
            }
            let keep: Vec<usize> =
                (0..slots.len()).filter(|i| uses[&slots[*i]] > 0).collect();
            slots = keep.iter().map(|i| slots[*i]).collect();
            steps.push(Step { branch: nb, con: Some((a, b, cc)), solve, keep });
        }
        // outputs that no constraint mentions are free
        for v in &outv {
            if !known.contains(v) {
                known.insert(*v);
                slots.push(*v);
                steps.push(Step {
                    branch: 1,
                    con: None,
                    solve: Solve::Check,
                    keep: (0..slots.len()).collect(),
                });
            }
        }
        let outs = outs.iter().map(|o| mklc(o, &slots, None).0).collect();
        let mut inv = vec![0u32; p as usize];
        let mut roots = vec![vec![]; p as usize];
        for x in 0..p {
            for y in 0..p {
                if x * y % p == 1 {
                    inv[x as usize] = y;
                }
            }
            roots[(x * x % p) as usize].push(x);
        }
        Plan { p, init, steps, outs, inv, roots, cap: 1 << 22 }
    }

    #[inline]
    fn ev(&self, l: &L, s: &[u8]) -> u32 {
        let mut a = l.c;
        for (i, c) in &l.t {
            a += c * s[*i] as u32;
        }
        a % self.p
    }

    /// All output tuples reachable by any assignment extending the fixed values.
    pub fn explore(&self, fixed: &[u64], st: &mut Stats) -> BTreeSet<Vec<u64>> {
        let p = self.p;
        let mut cur: Vec<Vec<u8>> = vec![self.init.iter().map(|i| fixed[*i] as u8).collect()];
        let mut seen: HashSet<Vec<u8>> = HashSet::new();
        st.states += 1;
        for step in &self.steps {
            let mut next: Vec<Vec<u8>> = Vec::with_capacity(cur.len());
            let all = step.keep.len();
            seen.clear();
            for s in &cur {
                let mut emit = |v: Option<u32>| {
                    st.transitions += 1;
                    let mut n: Vec<u8> = Vec::with_capacity(all);
                    for i in &step.keep {
                        n.push(if *i < s.len() { s[*i] } else { v.unwrap() as u8 });
                    }
                    if seen.insert(n.clone()) {
                        next.push(n);
                    }
                };
                match &step.con {
                    None => {
                        for v in 0..p {
                            emit(Some(v));
                        }
                    }
                    Some((a, b, c)) => {
                        let (a0, b0, c0) = (self.ev(a, s), self.ev(b, s), self.ev(c, s));
                        match step.solve {
                            Solve::Check => {
                                if a0 * b0 % p == c0 {
                                    emit(None)
                                }
                            }
                            Solve::One(a1, b1, c1) => {
                                // (a0+a1 v)(b0+b1 v) = c0+c1 v
                                let q2 = a1 * b1 % p;
                                let q1 = (a0 * b1 + a1 * b0 + (p - c1)) % p;
                                let q0 = (a0 * b0 + (p - c0)) % p;
                                if q2 == 0 {
                                    if q1 == 0 {
                                        if q0 == 0 {
                                            for v in 0..p {
                                                emit(Some(v));
                                            }
                                        }
                                    } else {
                                        emit(Some((p - q0) % p * self.inv[q1 as usize] % p));
                                    }
                                } else if p == 2 {
                                    for v in 0..p {
                                        if (q2 * v * v + q1 * v + q0) % p == 0 {
                                            emit(Some(v));
                                        }
                                    }
                                } else {
                                    let disc = (q1 * q1 + (p - q2 * q0 % p) * 4) % p;
                                    let den = self.inv[(2 * q2 % p) as usize];
                                    for r in &self.roots[disc as usize] {
                                        emit(Some((p - q1 + r) % p * den % p));
                                    }
                                }
                            }
                        }
                    }
                }
            }
            st.states += next.len() as u64;
            st.peak = st.peak.max(next.len());
            assert!(next.len() <= self.cap, "witness frontier exceeds {} states", self.cap);
            cur = next;
            if cur.is_empty() {
                break;
            }
        }
        cur.iter().map(|s| self.outs.iter().map(|o| self.ev(o, s) as u64).collect()).collect()
    }
}
