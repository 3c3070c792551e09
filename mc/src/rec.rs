//! A recording constraint system: every allocation and constraint of the real gadgets, in
//! canonical form (sorted, merged, zero-free linear combinations).
use fawkes_crypto::circuit::num::{CNum, Index};
use fawkes_crypto::core::cs::ConstraintSystem;
use fawkes_crypto::core::field::Field;
use fawkes_crypto::native::num::Num;
use std::cell::RefCell;
use std::collections::BTreeMap;

pub type Lc<F> = Vec<(Index, F)>;

#[derive(Clone, PartialEq, Debug)]
pub struct Con<F>(pub Lc<F>, pub Lc<F>, pub Lc<F>);

#[derive(Clone)]
pub struct RecCS<F: Field> {
    pub inputs: RefCell<Vec<Option<Num<F>>>>, // without the constant one
    pub aux: RefCell<Vec<Option<Num<F>>>>,
    pub order: RefCell<Vec<Index>>,
    pub cons: RefCell<Vec<Con<F>>>,
    /// a description of the first enforced operand whose value differs from its combination
    pub incoherent: RefCell<Option<String>>,
}

pub fn canon<'a, F: Field>(it: impl Iterator<Item = &'a (Index, Num<F>)>) -> Lc<F> {
    let mut m: BTreeMap<Index, F> = BTreeMap::new();
    for (i, v) in it {
        m.entry(*i).or_insert_with(F::zero).add_assign(&v.0);
    }
    m.into_iter().filter(|(_, v)| !v.is_zero()).collect()
}

pub fn lc_of<CS: ConstraintSystem>(s: &CNum<CS>) -> Lc<CS::F> {
    canon(s.lc.iter())
}

impl<F: Field> RecCS<F> {
    pub fn new() -> Self {
        RecCS {
            inputs: RefCell::new(vec![]),
            aux: RefCell::new(vec![]),
            order: RefCell::new(vec![]),
            cons: RefCell::new(vec![]),
            incoherent: RefCell::new(None),
        }
    }
    pub fn mark(&self) -> (usize, usize, usize, usize) {
        (
            self.inputs.borrow().len(),
            self.aux.borrow().len(),
            self.order.borrow().len(),
            self.cons.borrow().len(),
        )
    }
    /// forgets everything recorded after `mark`
    pub fn rollback(&self, m: (usize, usize, usize, usize)) {
        self.inputs.borrow_mut().truncate(m.0);
        self.aux.borrow_mut().truncate(m.1);
        self.order.borrow_mut().truncate(m.2);
        self.cons.borrow_mut().truncate(m.3);
    }
    pub fn ncons(&self) -> usize {
        self.cons.borrow().len()
    }
    pub fn nvars(&self) -> usize {
        self.order.borrow().len()
    }
    pub fn var(&self, i: &Index) -> Option<Num<F>> {
        match i {
            Index::Input(0) => Some(Num::one()),
            Index::Input(k) => self.inputs.borrow()[*k - 1],
            Index::Aux(k) => self.aux.borrow()[*k],
        }
    }
    pub fn eval(&self, lc: &Lc<F>) -> Option<F> {
        let mut acc = F::zero();
        for (i, c) in lc {
            let mut t = self.var(i)?.0;
            t.mul_assign(c);
            acc.add_assign(&t);
        }
        Some(acc)
    }
    /// first violated constraint under the recorded values; Err if a value is missing
    pub fn unsatisfied(&self) -> Result<Option<usize>, String> {
        for (k, c) in self.cons.borrow().iter().enumerate() {
            let (a, b, cc) = match (self.eval(&c.0), self.eval(&c.1), self.eval(&c.2)) {
                (Some(a), Some(b), Some(c)) => (a, b, c),
                _ => return Err(format!("constraint {} uses a variable without value", k)),
            };
            let mut t = a;
            t.mul_assign(&b);
            if t != cc {
                return Ok(Some(k));
            }
        }
        Ok(None)
    }
    /// same allocation order and same constraints
    pub fn same_shape(&self, o: &Self) -> Result<(), String> {
        if *self.order.borrow() != *o.order.borrow() {
            return Err(format!(
                "different allocations: {} vs {} variables",
                self.order.borrow().len(),
                o.order.borrow().len()
            ));
        }
        let (a, b) = (self.cons.borrow(), o.cons.borrow());
        if a.len() != b.len() {
            return Err(format!("different number of constraints: {} vs {}", a.len(), b.len()));
        }
        for i in 0..a.len() {
            if a[i] != b[i] {
                return Err(format!("constraint {} differs: {:?} vs {:?}", i, a[i], b[i]));
            }
        }
        Ok(())
    }
    /// Honest run check: values everywhere, all constraints satisfied, values coherent.
    pub fn honest_ok(&self) -> Result<(), String> {
        if let Some(s) = self.incoherent.borrow().as_ref() {
            return Err(s.clone());
        }
        match self.unsatisfied()? {
            None => Ok(()),
            Some(k) => Err(format!(
                "honest assignment violates constraint {}: {:?}",
                k,
                self.cons.borrow()[k]
            )),
        }
    }
}

impl<F: Field> ConstraintSystem for RecCS<F> {
    type F = F;
    fn alloc(&self, value: Option<Num<F>>) -> Index {
        let mut a = self.aux.borrow_mut();
        a.push(value);
        let i = Index::Aux(a.len() - 1);
        self.order.borrow_mut().push(i);
        i
    }
    fn alloc_input(&self, value: Option<Num<F>>) -> Index {
        let mut a = self.inputs.borrow_mut();
        a.push(value);
        let i = Index::Input(a.len());
        self.order.borrow_mut().push(i);
        i
    }
    fn enforce(&self, a: &CNum<Self>, b: &CNum<Self>, c: &CNum<Self>) {
        let con = Con(lc_of(a), lc_of(b), lc_of(c));
        for (s, l) in [(a, &con.0), (b, &con.1), (c, &con.2)].iter() {
            if let (Some(v), Some(e)) = (s.value, self.eval(l)) {
                if v.0 != e {
                    let mut i = self.incoherent.borrow_mut();
                    if i.is_none() {
                        *i = Some(format!(
                            "constraint {}: operand value {:?} but its combination evaluates to {:?}",
                            self.cons.borrow().len(),
                            v.0,
                            e
                        ));
                    }
                }
            }
        }
        self.cons.borrow_mut().push(con);
    }
}

/// value of a signal's linear combination on the recorded variables
pub fn lc_value<F: Field>(s: &CNum<RecCS<F>>) -> Option<F> {
    s.cs.eval(&lc_of(s))
}
