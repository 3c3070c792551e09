//! Circuits generic over the constraint system: a catalogue of all gadgets, every program of a few
//! operations, and raw constraints with arbitrary linear combinations.
use fawkes_crypto::circuit::bitify::*;
use fawkes_crypto::circuit::bool::CBool;
use fawkes_crypto::circuit::ecc::CEdwardsPoint;
use fawkes_crypto::circuit::eddsaposeidon::c_eddsaposeidon_verify;
use fawkes_crypto::circuit::mux::c_mux3;
use fawkes_crypto::circuit::num::{CNum, Index};
use fawkes_crypto::circuit::poseidon::{c_poseidon, c_poseidon_merkle_proof_root, c_poseidon_merkle_tree_root, CMerkleProof};
use fawkes_crypto::core::cs::ConstraintSystem;
use fawkes_crypto::core::field::Field;
use fawkes_crypto::core::signal::Signal;
use fawkes_crypto::core::sizedvec::SizedVec;
use fawkes_crypto::native::ecc::JubJubParams;
use fawkes_crypto::native::num::Num;
use fawkes_crypto::native::poseidon::{MerkleProof, PoseidonParams};
use typenum::*;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    /// operation, operand (x, y, constant 2)
    Bin(u8, u8),
    Un(u8),
}
pub fn ops() -> Vec<Op> {
    let mut v = vec![];
    for k in 0..7 {
        for o in 0..3 {
            v.push(Op::Bin(k, o));
        }
    }
    for k in 0..10 {
        v.push(Op::Un(k));
    }
    v
}

/// A constraint with explicit sparse combinations over [one, variables...]
pub type RawLc<F> = Vec<(usize, F)>;
#[derive(Clone)]
pub struct RawCon<F>(pub RawLc<F>, pub RawLc<F>, pub RawLc<F>);

/// everything a circuit of the catalogue needs besides its witness
#[derive(Clone)]
pub enum Kind<F: Field> {
    Prog(Vec<Op>),
    /// which variables are public, and the constraints
    Raw(Vec<bool>, Vec<RawCon<F>>),
    Named(&'static str, usize),
    Hash(&'static str, PoseidonParams<F>),
}
#[derive(Clone)]
pub struct Circ<F: Field> {
    pub name: String,
    pub n: usize,
    pub kind: Kind<F>,
}

fn both<A: Copy, B: Copy>(a: Option<A>, b: Option<B>) -> Option<(A, B)> {
    a.and_then(|a| b.map(|b| (a, b)))
}
fn bit<'a, CS: ConstraintSystem>(x: &CNum<'a, CS>) -> CBool<'a, CS> {
    CBool::alloc(x.get_cs(), x.value.map(|v| !v.is_even()).as_ref())
}

fn step<'a, CS: ConstraintSystem>(base: &[CNum<'a, CS>], acc: CNum<'a, CS>, op: Op) -> CNum<'a, CS> {
    let var = |s: &CNum<'a, CS>| s.as_const().is_none();
    match op {
        Op::Bin(k, o) => {
            let x = &base[o as usize];
            match k {
                0 => acc + x,
                1 => x - acc,
                2 => acc * x,
                3 => acc.is_eq(x).into_num(),
                4 => acc.switch(&base[1].is_zero(), x),
                5 => {
                    if var(&(&acc - x)) {
                        acc.assert_eq(x)
                    }
                    acc
                }
                _ => (acc.square() + x) * x,
            }
        }
        Op::Un(k) => match k {
            0 => acc.is_zero().into_num(),
            1 => acc.square(),
            2 => acc * Num::from(3u64) + Num::from(1u64),
            3 => {
                if var(&acc) {
                    acc.assert_nonzero()
                }
                acc
            }
            4 => {
                acc.inputize();
                acc
            }
            5 => {
                if var(&acc) {
                    acc.assert_bit();
                }
                acc
            }
            6 => (acc.clone(), base[0].clone()).is_eq(&(base[1].clone(), acc)).into_num(),
            7 => acc * Num::zero() + Num::from(1u64),
            8 => -acc,
            _ => CNum::zero(acc.get_cs()) + acc,
        },
    }
}

/// allocated witness numbers: odd positions public
pub fn witness<'a, CS: ConstraintSystem>(cs: &'a CS, w: &[Option<Num<CS::F>>]) -> Vec<CNum<'a, CS>> {
    w.iter()
        .enumerate()
        .map(|(i, v)| {
            if i % 2 == 1 {
                CNum::from_var(cs, *v, cs.alloc_input(*v))
            } else {
                CNum::alloc(cs, v.as_ref())
            }
        })
        .collect()
}

pub fn raw_signal<'a, CS: ConstraintSystem>(cs: &'a CS, vars: &[CNum<'a, CS>], lc: &RawLc<CS::F>) -> CNum<'a, CS> {
    let mut terms: Vec<(Index, Num<CS::F>)> = vec![];
    let mut value = Some(Num::zero());
    for (k, c) in lc {
        let (i, v) = if *k == 0 { (Index::Input(0), Some(Num::one())) } else { (vars[*k - 1].lc.front().unwrap().0, vars[*k - 1].value) };
        terms.push((i, Num(*c)));
        value = both(value, v).map(|(a, b)| a + b * Num(*c));
    }
    terms.sort_by(|a, b| a.0.cmp(&b.0));
    let mut s = CNum::from_const(cs, &Num::zero());
    s.lc = linked_list::LinkedList::new();
    for t in terms {
        s.lc.push_back(t);
    }
    s.value = value;
    s
}

impl<F: Field> Circ<F> {
    /// synthesizes the circuit; the result is what its last operation produced
    pub fn build<'a, CS: ConstraintSystem<F = F>>(&self, cs: &'a CS, w: &[Option<Num<F>>]) -> Vec<CNum<'a, CS>> {
        match &self.kind {
            Kind::Prog(prog) => {
                let i = witness(cs, w);
                let base = [i[0].clone(), i[1].clone(), CNum::from_const(cs, &Num::from(2u64))];
                let mut acc = i[0].clone();
                for o in prog {
                    acc = step(&base, acc, *o);
                }
                vec![acc]
            }
            Kind::Raw(public, cons) => {
                let vars: Vec<CNum<CS>> = w.iter().zip(public.iter()).map(|(v, p)| if *p { CNum::from_var(cs, *v, cs.alloc_input(*v)) } else { CNum::alloc(cs, v.as_ref()) }).collect();
                for c in cons {
                    cs.enforce(&raw_signal(cs, &vars, &c.0), &raw_signal(cs, &vars, &c.1), &raw_signal(cs, &vars, &c.2));
                }
                vec![]
            }
            Kind::Named(g, nb) => named(g, *nb, &witness(cs, w)),
            Kind::Hash(g, par) => {
                let i = witness(cs, w);
                match *g {
                    "poseidon" => vec![c_poseidon(&i, par)],
                    "merkle tree" => vec![c_poseidon_merkle_tree_root(&i, par)],
                    _ => {
                        let val = both(i[1].value, i[2].value).map(|(a, b)| MerkleProof::<F, U2> { sibling: vec![a, b].into_iter().collect(), path: vec![a.is_even(), !b.is_even()].into_iter().collect() });
                        let pr = CMerkleProof::<CS, U2>::alloc(cs, val.as_ref());
                        vec![c_poseidon_merkle_proof_root(&i[0], &pr, par)]
                    }
                }
            }
        }
    }
}

pub const NAMED: &[(&str, usize)] = &[
    ("mul", 2),
    ("div", 2),
    ("square of a sum", 3),
    ("is_zero", 1),
    ("is_eq of sums", 3),
    ("assert_nonzero", 1),
    ("assert_bit", 1),
    ("inputize", 2),
    ("inputize a constant", 1),
    ("inputize zero", 1),
    ("switch", 3),
    ("bool", 2),
    ("bits", 1),
    ("strict bits", 1),
    ("comparison", 1),
    ("mux3", 3),
    ("tuple", 3),
    ("vector", 2),
    ("many inputs", 4),
    ("public inputs only", 4),
    ("long sum", 2),
    ("product with zero", 2),
    ("cancelled", 2),
];
fn named<'a, CS: ConstraintSystem>(g: &str, nb: usize, i: &[CNum<'a, CS>]) -> Vec<CNum<'a, CS>> {
    let cs = i[0].get_cs();
    let two = Num::from(2u64);
    match g {
        "mul" => vec![&i[0] * &i[1]],
        "div" => vec![&i[0] / (&i[1].square() + Num::one())],
        "square of a sum" => vec![(&i[0] + &i[1] * two - &i[2] + two).square()],
        "is_zero" => vec![i[0].is_zero().into_num()],
        "is_eq of sums" => vec![(&i[0] + &i[1]).is_eq(&(&i[2] + Num::one())).into_num()],
        "assert_nonzero" => {
            i[0].assert_nonzero();
            vec![]
        }
        "assert_bit" => {
            i[0].assert_bit();
            vec![]
        }
        "inputize" => {
            i[0].inputize();
            (&i[0] + &i[1] + Num::one()).inputize();
            vec![]
        }
        "inputize a constant" => {
            CNum::from_const(cs, &two).inputize();
            i[0].inputize();
            vec![]
        }
        "inputize zero" => {
            CNum::from_const(cs, &Num::zero()).inputize();
            (&i[0] - &i[0]).inputize();
            i[0].inputize();
            vec![]
        }
        "switch" => vec![i[0].switch(&bit(&i[2]), &i[1]), (&i[0] + &i[1]).switch(&i[2].is_zero(), &i[1])],
        "bool" => {
            let (a, b) = (bit(&i[0]), bit(&i[1]));
            a.assert();
            a.inputize();
            vec![a.is_eq(&b).into_num(), b.if_else(&i[0], &i[1])]
        }
        "bits" => {
            let b = c_into_bits_le(&i[0], nb);
            vec![c_from_bits_le(&b)]
        }
        "strict bits" => c_into_bits_le_strict(&i[0]).iter().map(|x| x.into_num()).collect(),
        "comparison" => {
            let b = c_into_bits_le(&i[0], nb);
            vec![c_comp_constant(&b, Num::from(5u64)).into_num()]
        }
        "mux3" => {
            let s: Vec<_> = i.iter().map(bit).collect();
            s.iter().for_each(|x| x.assert());
            let t: Vec<Vec<Num<CS::F>>> = vec![(0..8).map(|x| Num::from((x * x % 5) as u64)).collect(), vec![Num::zero(); 8]];
            c_mux3(&s, &t)
        }
        "tuple" => {
            let val = both(both(i[0].value, i[1].value), i[2].value.map(|x| x.is_even())).map(|((a, b), c)| (a, b, c));
            let t = <(CNum<CS>, CNum<CS>, CBool<CS>)>::alloc(cs, val.as_ref());
            let u = (i[1].clone(), i[0].clone(), i[2].is_zero());
            t.inputize();
            let mut o = t.switch(&i[0].is_zero(), &u).linearize();
            o.push(t.is_eq(&u).into_num());
            o
        }
        "vector" => {
            let val = both(i[0].value, i[1].value).map(|(a, b)| vec![a, b, a + b].into_iter().collect::<SizedVec<_, U3>>());
            let t = SizedVec::<CNum<CS>, U3>::alloc(cs, val.as_ref());
            let u: SizedVec<CNum<CS>, U3> = vec![i[0].clone(), i[1].clone(), &i[1] + &i[0]].into_iter().collect();
            t.inputize();
            t.assert_eq(&u);
            vec![t.is_eq(&u).into_num()]
        }
        "many inputs" => {
            for k in 0..12 {
                (&i[k % 4] * Num::from(k as u64 + 1) + &i[(k + 1) % 4]).inputize();
            }
            vec![]
        }
        "public inputs only" => {
            (&i[1] * &i[3]).inputize();
            i[0].inputize();
            i[2].inputize();
            vec![]
        }
        "long sum" => {
            let mut s = i[0].clone();
            let mut p = i[1].clone();
            for k in 0..40 {
                p = &p * &i[1];
                s += &p * Num::from(k as u64 + 1);
            }
            vec![&s * &s]
        }
        "product with zero" => {
            let z = &i[0] * Num::zero();
            let s = &i[1] + &z;
            vec![&s * &i[0], (&z + &i[0]) * (&i[1] - &z)]
        }
        "cancelled" => {
            let d = (&i[0] + &i[1]) - &i[0];
            vec![&d * &d, (&i[0] - &d + &i[1]).square()]
        }
        _ => unreachable!(),
    }
}

pub fn catalogue<F: Field>(nb: usize, par: PoseidonParams<F>) -> Vec<Circ<F>> {
    let mut v: Vec<Circ<F>> = NAMED.iter().map(|(g, n)| Circ { name: g.to_string(), n: *n, kind: Kind::Named(g, nb) }).collect();
    for (g, n) in [("poseidon", 2), ("merkle tree", 3), ("merkle proof", 3)].iter() {
        v.push(Circ { name: g.to_string(), n: *n, kind: Kind::Hash(g, par.clone()) });
    }
    v
}
pub fn program<F: Field>(p: Vec<Op>) -> Circ<F> {
    Circ { name: format!("{:?}", p), n: 2, kind: Kind::Prog(p) }
}

/// a curve circuit: a signature check (kept apart because it needs curve parameters)
pub fn eddsa<'a, CS: ConstraintSystem, J: JubJubParams<Fr = CS::F>>(cs: &'a CS, w: &[Option<Num<CS::F>>], par: &PoseidonParams<CS::F>, j: &J) -> CNum<'a, CS> {
    let i = witness(cs, w);
    c_eddsaposeidon_verify(&i[0], &i[1], &i[2], &i[3], par, j).into_num()
}
pub fn decompress<'a, CS: ConstraintSystem, J: JubJubParams<Fr = CS::F>>(x: &CNum<'a, CS>, j: &J) -> CEdwardsPoint<'a, CS> {
    CEdwardsPoint::subgroup_decompress(x, j)
}
