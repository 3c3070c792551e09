//! C17: composite signals act component by component.
#[macro_use]
extern crate fawkes_crypto_derive;
use fawkes_crypto::circuit::bool::CBool;
use fawkes_crypto::circuit::ecc::{CEdwardsPoint, CMontgomeryPoint};
use fawkes_crypto::circuit::num::CNum;
use fawkes_crypto::circuit::poseidon::CMerkleProof;
use fawkes_crypto::core::cs::ConstraintSystem;
use fawkes_crypto::core::field::Field;
use fawkes_crypto::core::signal::Signal;
use fawkes_crypto::core::sizedvec::SizedVec;
use fawkes_crypto::native::ecc::{EdwardsPoint, MontgomeryPoint};
use fawkes_crypto::native::num::Num;
use fawkes_crypto::native::poseidon::MerkleProof;
use mc::ensure;
use mc::fp::Fp;
use mc::gad::Shape::*;
use mc::gad::*;
use mc::rec::{lc_of, lc_value, RecCS};
use mc::report::{guard, run, Ctx, Res};
use typenum::*;

const P: u64 = 13;
type F = Fp<13>;
type Rc = RecCS<F>;
type N = Num<F>;

/// An independent description of a composite type: its leaves in declaration order.
trait Comp<'a>: Signal<'a, Rc> {
    fn kinds(v: &mut Vec<bool>);
    fn val(it: &mut dyn Iterator<Item = N>) -> Self::Value;
    fn unval(v: &Self::Value, o: &mut Vec<N>);
    fn sig(it: &mut dyn Iterator<Item = CNum<'a, Rc>>) -> Self;
    fn leaves(&self, o: &mut Vec<CNum<'a, Rc>>);
}
impl<'a> Comp<'a> for CNum<'a, Rc> {
    fn kinds(v: &mut Vec<bool>) {
        v.push(false)
    }
    fn val(it: &mut dyn Iterator<Item = N>) -> N {
        it.next().unwrap()
    }
    fn unval(v: &N, o: &mut Vec<N>) {
        o.push(*v)
    }
    fn sig(it: &mut dyn Iterator<Item = CNum<'a, Rc>>) -> Self {
        it.next().unwrap()
    }
    fn leaves(&self, o: &mut Vec<CNum<'a, Rc>>) {
        o.push(self.clone())
    }
}
impl<'a> Comp<'a> for CBool<'a, Rc> {
    fn kinds(v: &mut Vec<bool>) {
        v.push(true)
    }
    fn val(it: &mut dyn Iterator<Item = N>) -> bool {
        it.next().unwrap() == Num(Fp(1))
    }
    fn unval(v: &bool, o: &mut Vec<N>) {
        o.push(Num(Fp(*v as u64)))
    }
    fn sig(it: &mut dyn Iterator<Item = CNum<'a, Rc>>) -> Self {
        CBool(it.next().unwrap())
    }
    fn leaves(&self, o: &mut Vec<CNum<'a, Rc>>) {
        o.push(self.0.clone())
    }
}
impl<'a, T: Comp<'a>, L: Unsigned> Comp<'a> for SizedVec<T, L> {
    fn kinds(v: &mut Vec<bool>) {
        for _ in 0..L::USIZE {
            T::kinds(v)
        }
    }
    fn val(it: &mut dyn Iterator<Item = N>) -> Self::Value {
        SizedVec((0..L::USIZE).map(|_| T::val(it)).collect(), std::marker::PhantomData)
    }
    fn unval(v: &Self::Value, o: &mut Vec<N>) {
        for x in &v.0 {
            T::unval(x, o)
        }
    }
    fn sig(it: &mut dyn Iterator<Item = CNum<'a, Rc>>) -> Self {
        SizedVec((0..L::USIZE).map(|_| T::sig(it)).collect(), std::marker::PhantomData)
    }
    fn leaves(&self, o: &mut Vec<CNum<'a, Rc>>) {
        for x in &self.0 {
            x.leaves(o)
        }
    }
}
macro_rules! tuple {
    ($($t:ident $i:tt),*) => {
        impl<'a, $($t: Comp<'a>),*> Comp<'a> for ($($t,)*) {
            fn kinds(v: &mut Vec<bool>) { $($t::kinds(v);)* }
            fn val(it: &mut dyn Iterator<Item = N>) -> Self::Value { ($($t::val(it),)*) }
            fn unval(v: &Self::Value, o: &mut Vec<N>) { $($t::unval(&v.$i, o);)* }
            fn sig(it: &mut dyn Iterator<Item = CNum<'a, Rc>>) -> Self { ($($t::sig(it),)*) }
            fn leaves(&self, o: &mut Vec<CNum<'a, Rc>>) { $(self.$i.leaves(o);)* }
        }
    };
}
tuple!(A 0);
tuple!(A 0, B 1);
tuple!(A 0, B 1, C 2);
tuple!(A 0, B 1, C 2, D 3);
tuple!(A 0, B 1, C 2, D 3, E 4);
tuple!(A 0, B 1, C 2, D 3, E 4, G 5);
tuple!(A 0, B 1, C 2, D 3, E 4, G 5, H 6);
tuple!(A 0, B 1, C 2, D 3, E 4, G 5, H 6, I 7);
tuple!(A 0, B 1, C 2, D 3, E 4, G 5, H 6, I 7, J 8);
tuple!(A 0, B 1, C 2, D 3, E 4, G 5, H 6, I 7, J 8, K 9);
tuple!(A 0, B 1, C 2, D 3, E 4, G 5, H 6, I 7, J 8, K 9, L 10);
tuple!(A 0, B 1, C 2, D 3, E 4, G 5, H 6, I 7, J 8, K 9, L 10, M 11);
tuple!(A 0, B 1, C 2, D 3, E 4, G 5, H 6, I 7, J 8, K 9, L 10, M 11, O 12);
tuple!(A 0, B 1, C 2, D 3, E 4, G 5, H 6, I 7, J 8, K 9, L 10, M 11, O 12, Q 13);
tuple!(A 0, B 1, C 2, D 3, E 4, G 5, H 6, I 7, J 8, K 9, L 10, M 11, O 12, Q 13, R 14);
tuple!(A 0, B 1, C 2, D 3, E 4, G 5, H 6, I 7, J 8, K 9, L 10, M 11, O 12, Q 13, R 14, S 15);
tuple!(A 0, B 1, C 2, D 3, E 4, G 5, H 6, I 7, J 8, K 9, L 10, M 11, O 12, Q 13, R 14, S 15, T 16);

macro_rules! strct {
    ($t:ident $v:ident [$($g:tt)*] $($f:ident: $ty:ty),*) => {
        impl<'a> Comp<'a> for $t<'a, Rc $($g)*> {
            fn kinds(v: &mut Vec<bool>) { $(<$ty as Comp>::kinds(v);)* }
            fn val(it: &mut dyn Iterator<Item = N>) -> Self::Value { $(let $f = <$ty as Comp>::val(it);)* $v { $($f),* } }
            fn unval(v: &Self::Value, o: &mut Vec<N>) { $(<$ty as Comp>::unval(&v.$f, o);)* }
            fn sig(it: &mut dyn Iterator<Item = CNum<'a, Rc>>) -> Self { $(let $f = <$ty as Comp>::sig(it);)* $t { $($f),* } }
            fn leaves(&self, o: &mut Vec<CNum<'a, Rc>>) { $(self.$f.leaves(o);)* }
        }
    };
}
strct!(CEdwardsPoint EdwardsPoint [] x: CNum<'a, Rc>, y: CNum<'a, Rc>);
strct!(CMontgomeryPoint MontgomeryPoint [] x: CNum<'a, Rc>, y: CNum<'a, Rc>);
strct!(CMerkleProof MerkleProof [, U3] sibling: SizedVec<CNum<'a, Rc>, U3>, path: SizedVec<CBool<'a, Rc>, U3>);

// derived structs of this harness: fields deliberately not in alphabetical order
#[derive(Clone)]
struct V1<F: Field> {
    z: Num<F>,
    flag: bool,
    a: Num<F>,
}
#[derive(Clone, Signal)]
#[Value = "V1<CS::F>"]
struct C1<'a, CS: ConstraintSystem> {
    z: CNum<'a, CS>,
    flag: CBool<'a, CS>,
    a: CNum<'a, CS>,
}
strct!(C1 V1 [] z: CNum<'a, Rc>, flag: CBool<'a, Rc>, a: CNum<'a, Rc>);
#[derive(Clone)]
struct V2<F: Field> {
    p: V1<F>,
    v: SizedVec<Num<F>, U2>,
    e: EdwardsPoint<F>,
    b: bool,
}
#[derive(Clone, Signal)]
#[Value = "V2<CS::F>"]
struct C2<'a, CS: ConstraintSystem> {
    p: C1<'a, CS>,
    v: SizedVec<CNum<'a, CS>, U2>,
    e: CEdwardsPoint<'a, CS>,
    b: CBool<'a, CS>,
}
strct!(C2 V2 [] p: C1<'a, Rc>, v: SizedVec<CNum<'a, Rc>, U2>, e: CEdwardsPoint<'a, Rc>, b: CBool<'a, Rc>);
// one field
#[derive(Clone)]
struct V3<F: Field> {
    only: Num<F>,
}
#[derive(Clone, Signal)]
#[Value = "V3<CS::F>"]
struct C3<'a, CS: ConstraintSystem> {
    only: CNum<'a, CS>,
}
strct!(C3 V3 [] only: CNum<'a, Rc>);
// tuple-like
#[derive(Clone)]
struct V4<F: Field>(Num<F>, bool, V1<F>, SizedVec<bool, U2>);
#[derive(Clone, Signal)]
#[Value = "V4<CS::F>"]
struct C4<'a, CS: ConstraintSystem>(CNum<'a, CS>, CBool<'a, CS>, C1<'a, CS>, SizedVec<CBool<'a, CS>, U2>);
impl<'a> Comp<'a> for C4<'a, Rc> {
    fn kinds(v: &mut Vec<bool>) {
        v.extend([false, true, false, true, false, true, true].iter())
    }
    fn val(it: &mut dyn Iterator<Item = N>) -> Self::Value {
        let a = <CNum<'a, Rc> as Comp>::val(it);
        let b = <CBool<'a, Rc> as Comp>::val(it);
        let c = <C1<'a, Rc> as Comp>::val(it);
        V4(a, b, c, <SizedVec<CBool<'a, Rc>, U2> as Comp>::val(it))
    }
    fn unval(v: &Self::Value, o: &mut Vec<N>) {
        <CNum<'a, Rc> as Comp>::unval(&v.0, o);
        <CBool<'a, Rc> as Comp>::unval(&v.1, o);
        <C1<'a, Rc> as Comp>::unval(&v.2, o);
        <SizedVec<CBool<'a, Rc>, U2> as Comp>::unval(&v.3, o)
    }
    fn sig(it: &mut dyn Iterator<Item = CNum<'a, Rc>>) -> Self {
        let a = Comp::sig(it);
        let b = Comp::sig(it);
        let c = Comp::sig(it);
        C4(a, b, c, Comp::sig(it))
    }
    fn leaves(&self, o: &mut Vec<CNum<'a, Rc>>) {
        self.0.leaves(o);
        self.1.leaves(o);
        self.2.leaves(o);
        self.3.leaves(o)
    }
}

fn flat<T: Comp<'static>>(s: &T) -> Vec<CNum<'static, Rc>> {
    let mut v = vec![];
    s.leaves(&mut v);
    v
}
fn new() -> &'static Rc {
    let p: *mut Rc = Box::into_raw(Box::new(Rc::new()));
    ARENA.with(|a| a.borrow_mut().push(p));
    unsafe { &*p }
}
thread_local! { static ARENA: std::cell::RefCell<Vec<*mut Rc>> = std::cell::RefCell::new(vec![]); }
/// frees the systems of this thread; no signal made from them may be alive
fn reset() {
    for p in ARENA.with(|a| std::mem::take(&mut *a.borrow_mut())) {
        drop(unsafe { Box::from_raw(p) });
    }
}
/// one leaf of an operand
#[derive(Clone, Copy, Debug, PartialEq)]
struct Leaf {
    c: bool,
    v: Option<u64>,
}
fn mk(cs: &'static Rc, l: Leaf) -> CNum<'static, Rc> {
    if l.c {
        CNum::from_const(cs, &Num(Fp(l.v.unwrap())))
    } else {
        CNum::alloc(cs, l.v.map(|x| Num(Fp(x))).as_ref())
    }
}
fn show(s: &[CNum<'static, Rc>]) -> Vec<(Option<u64>, mc::rec::Lc<F>)> {
    s.iter().map(|x| (x.value.map(|n| n.0 .0), lc_of(x))).collect()
}
/// the same operation on the composite and on standalone leaves must record the same
fn same<T: Comp<'static>>(
    what: &str,
    a: &[Leaf],
    b: &[Leaf],
    comp: &dyn Fn(&'static Rc, T, T) -> Vec<CNum<'static, Rc>>,
    alone: &dyn Fn(&'static Rc, usize, &CNum<'static, Rc>, &CNum<'static, Rc>) -> Vec<CNum<'static, Rc>>,
) -> Res {
    let run1 = || {
        let cs = new();
        let x: Vec<_> = a.iter().map(|l| mk(cs, *l)).collect();
        let y: Vec<_> = b.iter().map(|l| mk(cs, *l)).collect();
        (cs, x, y)
    };
    let (c1, x1, y1) = run1();
    let r1 = guard(|| show(&comp(c1, T::sig(&mut x1.into_iter()), T::sig(&mut y1.into_iter()))));
    let (c2, x2, y2) = run1();
    let r2 = guard(|| x2.iter().zip(&y2).enumerate().flat_map(|(i, (x, y))| show(&alone(c2, i, x, y))).collect::<Vec<_>>());
    match (&r1, &r2) {
        (Ok(o1), Ok(o2)) => {
            ensure!(o1 == o2, "{} on {:?} {:?}: {:?}, leaves alone {:?}", what, a, b, o1, o2);
            c1.same_shape(c2).map_err(|m| format!("{} on {:?} {:?}: not as the leaves alone: {}", what, a, b, m))?;
            ensure!(*c1.inputs.borrow() == *c2.inputs.borrow() && *c1.aux.borrow() == *c2.aux.borrow(), "{} on {:?} {:?}: other variable values than the leaves alone", what, a, b);
        }
        (Err(_), Err(_)) => {}
        _ => return Err(format!("{} on {:?} {:?}: panics {}, leaves alone panic {}", what, a, b, r1.is_err(), r2.is_err())),
    }
    Ok(())
}

fn check<T: Comp<'static>>(ctx: &Ctx, name: &str) -> Res {
    let mut kinds = vec![];
    T::kinds(&mut kinds);
    let n = kinds.len();
    let lv = |i: usize, k: u64| if kinds[i] { k % 2 } else { [0, 1, 5, 12][k as usize % 4] };
    // operand patterns: all combinations for few leaves, otherwise base patterns with one or two deviating leaves
    let mut pats: Vec<Vec<Leaf>> = vec![];
    let opts = |i: usize| -> Vec<Leaf> {
        let mut v = vec![];
        for k in 0..if kinds[i] { 2 } else { 3 } {
            v.push(Leaf { c: false, v: Some(lv(i, k)) });
            v.push(Leaf { c: true, v: Some(lv(i, k)) });
        }
        v.push(Leaf { c: false, v: None });
        v
    };
    if n <= ctx.t(3, 4) {
        pats.push(vec![]);
        for i in 0..n {
            pats = pats.into_iter().flat_map(|p| opts(i).into_iter().map(move |o| { let mut q = p.clone(); q.push(o); q })).collect();
        }
    } else {
        let bases: Vec<Vec<Leaf>> = vec![
            (0..n).map(|i| Leaf { c: false, v: Some(lv(i, i as u64 + 1)) }).collect(),
            (0..n).map(|i| Leaf { c: true, v: Some(lv(i, i as u64 + 1)) }).collect(),
            (0..n).map(|_| Leaf { c: false, v: None }).collect(),
            (0..n).map(|i| Leaf { c: i % 2 == 0, v: Some(lv(i, 1)) }).collect(),
        ];
        for b in &bases {
            pats.push(b.clone());
            for i in 0..n {
                for o in opts(i) {
                    if n > 18 && i % if n > 200 { ctx.t(131, 33) } else if n > 40 { 33 } else { 8 } != 7 {
                        continue;
                    }
                    let mut q = b.clone();
                    q[i] = o;
                    pats.push(q.clone());
                    if i + 1 < n && n <= ctx.t(10, 17) {
                        for o in opts(n - 1) {
                            q[n - 1] = o;
                            pats.push(q.clone());
                        }
                    }
                }
            }
        }
        pats.sort_by_key(|p| format!("{:?}", p));
        pats.dedup();
    }
    ctx.sample(format!("{}: {} leaves, {} operand patterns", name, n, pats.len()));
    let dummy: Vec<Leaf> = vec![Leaf { c: true, v: Some(0) }; n];
    let kd = kinds.clone();
    let num = |x: u64| Num::<F>(Fp(x));
    // allocation with and without values
    for k in 0..4u64 {
        let vals: Vec<N> = (0..n).map(|i| num(lv(i, i as u64 * k + k))).collect();
        for known in [true, false].iter() {
            let (c1, c2) = (new(), new());
            let v = T::val(&mut vals.iter().cloned());
            let o: Option<&<T as Signal<'static, Rc>>::Value> = if *known { Some(&v) } else { None };
            let l1 = show(&flat(&T::alloc(c1, o)));
            let l2 = show(&(0..n).map(|i| if kinds[i] {
                CBool::alloc(c2, if *known { Some(vals[i] == num(1)) } else { None }.as_ref()).0
            } else {
                CNum::alloc(c2, if *known { Some(vals[i]) } else { None }.as_ref())
            }).collect::<Vec<_>>());
            ensure!(l1 == l2, "alloc known={} {:?}: {:?} want {:?}", known, vals, l1, l2);
            c1.same_shape(c2)?;
            ensure!(*c1.aux.borrow() == *c2.aux.borrow(), "alloc {:?}: values {:?}", vals, c1.aux.borrow());
            // derived allocation
            let c3 = new();
            let z = CNum::zero(c3);
            let l3 = show(&flat(&z.derive_alloc::<T>(o)));
            ensure!(l3 == l2, "derive_alloc {:?}", vals);
            ctx.point(2);
        }
        let c = new();
        let v = T::val(&mut vals.iter().cloned());
        for s in [T::from_const(c, &v), CNum::zero(c).derive_const::<T>(&v)].iter() {
            let l = flat(s);
            ensure!(c.nvars() == 0 && c.ncons() == 0, "from_const allocates");
            ensure!(l.iter().zip(&vals).all(|(x, v)| x.as_const() == Some(*v) && x.value == Some(*v)) && l.len() == n, "from_const {:?}: {:?}", vals, show(&l));
            ensure!(s.get_cs() as *const Rc == c as *const Rc, "get_cs");
            ctx.point(1);
        }
    }
    for p in &pats {
        reset();
        // readout
        let cs = new();
        let ls: Vec<_> = p.iter().map(|l| mk(cs, *l)).collect();
        let s = T::sig(&mut ls.clone().into_iter());
        let un = |v: Option<<T as Signal<'static, Rc>>::Value>| v.map(|v| { let mut o = vec![]; T::unval(&v, &mut o); o.iter().map(|x| x.0 .0).collect::<Vec<_>>() });
        let wv: Option<Vec<u64>> = p.iter().map(|l| l.v).collect();
        let wc: Option<Vec<u64>> = p.iter().map(|l| if l.c { l.v } else { None }).collect();
        ensure!(un(s.get_value()) == wv, "get_value of {:?}: {:?}", p, un(s.get_value()));
        ensure!(un(s.as_const()) == wc, "as_const of {:?}: {:?}", p, un(s.as_const()));
        ensure!(s.get_cs() as *const Rc == cs as *const Rc, "get_cs");
        ensure!(show(&s.linearize()) == show(&ls), "linearize of {:?}: {:?}", p, show(&s.linearize()));
        let mut acc = vec![CNum::one(cs)];
        s.linearize_builder(&mut acc);
        ensure!(acc.len() == n + 1 && show(&acc[1..]) == show(&ls), "linearize_builder of {:?}", p);
        // publishing
        same::<T>("inputize", p, &dummy, &|_, a, _| { a.inputize(); vec![] }, &|_, _, x, _| { x.inputize(); vec![] })?;
        ctx.outcome(if wc.is_some() { "constant composite" } else if wv.is_some() { "known composite" } else { "composite without value" });
        // comparison with a constant: equal, and different in one leaf
        let step = if n > 200 { ctx.t(43, 9) } else if n > 40 { 9 } else { 1 };
        for d in (0..=n).step_by(step) {
            let cv: Vec<N> = (0..n).map(|i| num(if i == d { lv(i, p[i].v.unwrap_or(0) + 1) } else { p[i].v.unwrap_or(lv(i, 1)) })).collect();
            same::<T>(
                "assert_const",
                p,
                &dummy,
                &|_, a, _| { a.assert_const(&T::val(&mut cv.iter().cloned())); vec![] },
                &|_, i, x, _| { x.assert_const(&cv[i]); vec![] },
            )?;
            ctx.point(1);
        }
        // binary operations
        let mut others = vec![p.clone(), p.iter().map(|l| Leaf { c: true, v: Some(l.v.unwrap_or(1)) }).collect::<Vec<_>>(), p.iter().map(|l| Leaf { c: false, v: None.or(l.v) }).collect()];
        for d in (0..n).rev().step_by(step) {
            for k in 1..if kinds[d] { 2 } else { 3 } {
                let mut q = others[(d + k as usize) % 3].clone();
                q[d] = Leaf { c: q[d].c, v: q[d].v.map(|x| if kd[d] { 1 - x } else { (x + k) % P }) };
                others.push(q);
            }
        }
        for q in &others {
            same::<T>("assert_eq", p, q, &|_, a, b| { a.assert_eq(&b); vec![] }, &|_, _, x, y| { x.assert_eq(y); vec![] })?;
            for bit in 0..6 {
                let mkb = |cs: &'static Rc| match bit {
                    0 | 1 => CBool::from_const(cs, &(bit == 1)),
                    2 | 3 => CBool::alloc(cs, Some(&(bit == 3))),
                    4 => CBool::alloc(cs, None),
                    _ => CBool(Num::one() - CNum::alloc(cs, Some(&num(1)))),
                };
                // one shared selector, as the standalone leaves would use it
                let (c1, c2) = (new(), new());
                let (b1, b2) = (mkb(c1), mkb(c2));
                let f = |cs: &'static Rc, l: &[Leaf]| l.iter().map(|l| mk(cs, *l)).collect::<Vec<_>>();
                let (x1, y1, x2, y2) = { let x1 = f(c1, p); let y1 = f(c1, q); let x2 = f(c2, p); let y2 = f(c2, q); (x1, y1, x2, y2) };
                let r = T::sig(&mut x1.into_iter()).switch(&b1, &T::sig(&mut y1.into_iter()));
                let w: Vec<_> = x2.iter().zip(&y2).map(|(x, y)| x.switch(&b2, y)).collect();
                ensure!(show(&flat(&r)) == show(&w), "switch {} of {:?} {:?}: {:?} want {:?}", bit, p, q, show(&flat(&r)), show(&w));
                c1.same_shape(c2).map_err(|m| format!("switch {} of {:?} {:?}: {}", bit, p, q, m))?;
                ctx.point(1);
            }
            // equality
            let (c1, c0) = (new(), new());
            let e = |cs: &'static Rc, known: bool| {
                let g = |l: &[Leaf]| l.iter().map(|l| mk(cs, if l.c { *l } else { Leaf { c: false, v: if known { l.v } else { None } } })).collect::<Vec<_>>();
                let (x, y) = (g(p), g(q));
                T::sig(&mut x.into_iter()).is_eq(&T::sig(&mut y.into_iter())).0
            };
            let r = e(c1, true);
            let r0 = e(c0, false);
            c1.same_shape(c0).map_err(|m| format!("is_eq of {:?} {:?}: {}", p, q, m))?;
            ensure!(lc_of(&r) == lc_of(&r0), "is_eq of {:?} {:?}: other combination without values", p, q);
            let known = p.iter().chain(q).all(|l| l.v.is_some());
            if known {
                let want = p.iter().zip(q).all(|(a, b)| a.v == b.v);
                ensure!(r.value == Some(num(want as u64)), "is_eq of {:?} {:?}: {:?}", p, q, r.value);
                ensure!(lc_value(&r) == r.value.map(|x| x.0), "is_eq of {:?} {:?}: value {:?} combination {:?}", p, q, r.value, lc_value(&r));
                c1.honest_ok().map_err(|m| format!("is_eq of {:?} {:?}: {}", p, q, m))?;
            }
            ctx.point(1);
        }
        ctx.beat();
    }
    Ok(())
}

/// the equality bit of small composites is forced
macro_rules! forced {
    ($ctx:expr, $name:expr, $t:ty, $n:expr, $dom:expr, $shapes:expr) => {
        for sh in $shapes.iter() {
            let shapes: Vec<Shape> = (0..2 * $n).map(|i| sh[i % sh.len()]).collect();
            $ctx.case(&format!("{}/is_eq forced {:?}", $name, sh), || {
                relation::<P>(
                    $ctx,
                    &shapes,
                    &$dom,
                    &|_, i| {
                        let mut it = i.iter().cloned();
                        let a = <$t as Comp>::sig(&mut it);
                        let b = <$t as Comp>::sig(&mut it);
                        vec![a.is_eq(&b).0]
                    },
                    &|x| out1((x[..$n] == x[$n..]) as u64),
                )
            });
        }
    };
}

fn main() {
    type Nn<'a> = CNum<'a, Rc>;
    type Bb<'a> = CBool<'a, Rc>;
    run(
        "C17",
        &["F13; every presence/constness/value pattern of up to 3 leaves (4 thorough), one- and two-leaf deviations beyond", "the standalone components are decided by C04, C05, C07"],
        true,
        |ctx| {
            type Job = (String, Box<dyn Fn(&Ctx) -> Res + Send + Sync>);
            let mut jobs: Vec<Job> = vec![];
            macro_rules! job {
                ($t:ty) => {{
                    let name = stringify!($t).replace("'static", "").replace("< ", "<");
                    jobs.push((name.clone(), Box::new(move |c: &Ctx| check::<$t>(c, &name))));
                }};
            }
            type A = Nn<'static>;
            type B = Bb<'static>;
            job!(A);
            job!(B);
            job!(SizedVec<A, U1>);
            job!(SizedVec<A, U2>);
            job!(SizedVec<B, U3>);
            job!(SizedVec<A, U5>);
            job!(SizedVec<SizedVec<A, U2>, U2>);
            job!(SizedVec<A, U9>);
            job!(SizedVec<A, U33>);
            job!(SizedVec<A, U64>);
            job!(SizedVec<B, U65>);
            job!(SizedVec<A, U100>);
            job!(SizedVec<B, U257>);
            job!(SizedVec<A, U300>);
            job!(SizedVec<SizedVec<B, U4>, U4>);
            job!(SizedVec<(A, B), U2>);
            job!((A,));
            job!((A, B));
            job!((B, A));
            job!((A, A, B));
            job!((A, (B, A), SizedVec<A, U2>));
            job!((A, B, A, A));
            job!((A, A, A, A, B));
            job!((A, A, A, A, A, B));
            job!((A, A, A, A, A, A, B));
            job!((A, A, A, A, A, A, A, B));
            job!((A, A, A, A, A, A, A, A, B));
            job!((A, A, A, A, A, A, A, A, A, B));
            job!((A, A, A, A, A, A, A, A, A, A, B));
            job!((A, A, A, A, A, A, A, A, A, A, A, B));
            job!((A, A, A, A, A, A, A, A, A, A, A, A, B));
            job!((A, A, A, A, A, A, A, A, A, A, A, A, A, B));
            job!((A, A, A, A, A, A, A, A, A, A, A, A, A, A, B));
            job!((A, A, A, A, A, A, A, A, A, A, A, A, A, A, A, B));
            job!((A, A, A, A, A, A, A, A, A, A, A, A, A, A, A, A, B));
            job!(CEdwardsPoint<'static, Rc>);
            job!(CMontgomeryPoint<'static, Rc>);
            job!(CMerkleProof<'static, Rc, U3>);
            job!(C1<'static, Rc>);
            job!(C2<'static, Rc>);
            job!(C3<'static, Rc>);
            job!(C4<'static, Rc>);
            job!(SizedVec<C1<'static, Rc>, U2>);
            job!((C4<'static, Rc>, C3<'static, Rc>));
            ctx.par(jobs, |f| f(ctx));
            let shs: [Vec<Shape>; 4] = [vec![Var], vec![Var, Const], vec![Inp, Dif, Const], vec![Const, Aff(2, 1)]];
            let d2: Vec<Vec<u64>> = tuples(3, 4).into_iter().map(|v| v.iter().map(|x| [0, 1, 7][*x as usize]).collect()).collect();
            forced!(ctx, "pair", (Nn, Nn), 2, d2, shs);
            forced!(ctx, "vector", SizedVec<Nn, U2>, 2, d2, shs);
            forced!(ctx, "edwards point", CEdwardsPoint<Rc>, 2, d2, shs);
            let d1: Vec<Vec<u64>> = tuples(P, 2);
            forced!(ctx, "single", (Nn,), 1, d1, shs);
            forced!(ctx, "struct of one", C3<Rc>, 1, d1, shs);
            let d3: Vec<Vec<u64>> = tuples(2, 6);
            forced!(ctx, "triple", (Nn, Bb, Nn), 3, d3, shs[..ctx.t(2, 4)]);
            forced!(ctx, "derived", C1<Rc>, 3, d3, shs[..ctx.t(2, 4)]);
        },
    );
}
