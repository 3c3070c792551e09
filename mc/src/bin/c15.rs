//! C15: native EdDSA over Poseidon.
use fawkes_crypto::native::ecc::JubJubParams;
use fawkes_crypto::native::eddsaposeidon::{eddsaposeidon_sign, eddsaposeidon_verify};
use fawkes_crypto::native::num::Num;
use fawkes_crypto::native::poseidon::PoseidonParams;
use fawkes_crypto::native::{bls12_381::JubJubBLS12_381, bn256::JubJubBN256};
use mc::big::*;
use mc::blake::{blake2s, PERSON};
use mc::curve::*;
use mc::ensure;
use mc::fp::Fp;
use mc::psd::{self, SPar};
use mc::report::{run, Ctx};
use num::bigint::BigUint;

const SALT: &[u8] = b"eddsaposeidon";
const fn nbytes(p: u64) -> usize {
    ((64 - p.leading_zeros() + 7) / 8) as usize
}
fn low(b: &BigUint) -> u64 {
    tolimbs(b, 1)[0]
}

fn tiny<const P: u64, const Q: u64>(ctx: &Ctx, j: &Jub<P, Q>, par: &SPar, tag: &str, all: bool, gstep: usize) {
    let lib = par.lib::<P>();
    let salt = low(&psd::seed_elem(&big(P), nbytes(P), SALT));
    let h = |r: u64, a: u64, m: u64| par.hash(P, &[r, a, m, salt]);
    let lifts: Vec<Option<Pt>> = (0..P).map(|x| j.lift_x(x)).collect();
    let log = |p: Pt| j.sub.iter().position(|t| *t == p).unwrap() as u64;
    let logs: Vec<Option<u64>> = lifts.iter().map(|l| l.map(|p| log(p))).collect();
    // signing: every key and message
    ctx.par((0..Q).map(|k| (format!("{}/sign sk={}", tag, k), k)).collect(), |&sk| {
        let a = j.sub[sk as usize].0;
        for m in 0..P {
            let mut d = be_bytes(&big(sk), nbytes(Q));
            d.extend(be_bytes(&big(m), nbytes(P)));
            let rho = low(&(BigUint::from_bytes_be(&blake2s(32, PERSON, &d)) % big(Q)));
            let r = j.sub[rho as usize].0;
            let s = (rho + h(r, a, m) % Q * sk) % Q;
            let got = eddsaposeidon_sign(Num(Fp::<Q>(sk)), Num(Fp::<P>(m)), &lib, j);
            ensure!((got.0 .0 .0, got.1 .0 .0) == (s, r), "sign sk={} m={}: {:?}, want {:?}", sk, m, (got.0 .0, got.1 .0), (s, r));
            let again = eddsaposeidon_sign(Num(Fp::<Q>(sk)), Num(Fp::<P>(m)), &lib, j);
            ensure!(got.0 == again.0 && got.1 == again.1, "signing sk={} m={} twice differs", sk, m);
            ensure!(eddsaposeidon_verify(got.0, got.1, Num(Fp(a)), Num(Fp(m)), &lib, j), "own signature sk={} m={} rejected", sk, m);
            ctx.point(1);
        }
        Ok(())
    });
    // verification: every tuple
    ctx.sample(format!("{}: verify (s, R, A, M) in {}x{}x{}x{}", tag, Q, P, P, P));
    ctx.par((0..P).map(|a| (format!("{}/verify a={}", tag, a), a)).collect(), |&a| {
        for r in 0..P {
            let good = logs[a as usize].is_some() && logs[r as usize].is_some();
            let step = if good { gstep } else if all { 1 } else { 41 };
            for m in (0..P).step_by(step) {
                let hh = h(r, a, m) % Q;
                for s in 0..Q {
                    let want = match (logs[a as usize], logs[r as usize]) {
                        (Some(la), Some(lr)) => (lr + hh * la) % Q == s,
                        _ => false,
                    };
                    let got = eddsaposeidon_verify(Num(Fp::<Q>(s)), Num(Fp::<P>(r)), Num(Fp(a)), Num(Fp(m)), &lib, j);
                    ensure!(got == want, "verify s={} r={} a={} m={}: {}, want {}", s, r, a, m, got, want);
                    ctx.point(1);
                    if !good && s == 2 && !all {
                        break;
                    }
                }
            }
            ctx.outcome(if good { "subgroup coordinates" } else { "no subgroup point" });
        }
        ctx.beat();
        Ok(())
    });
}

fn real<J: JubJubParams + Sync>(ctx: &Ctx, name: &str, j: &J, t: usize) {
    let c = BigCurve::of(j);
    let lib = PoseidonParams::<J::Fr>::new(t, 8, 54);
    let par = psd::plain(&lib);
    let salt = psd::seed_elem(&c.p, num_bytes::<J::Fr>(), SALT);
    let h = |r: &BigUint, a: &BigUint, m: &BigUint| psd::hash(&par, &[r.clone(), a.clone(), m.clone(), salt.clone()]);
    let sks: Vec<BigUint> = alphabet::<J::Fs>(false).into_iter().step_by(ctx.t(6, 1)).collect();
    let ms: Vec<BigUint> = alphabet::<J::Fr>(false).into_iter().step_by(ctx.t(7, 3)).collect();
    let tors = c.torsion();
    let mut items = vec![];
    for (i, sk) in sks.iter().enumerate() {
        items.push((format!("{}/sk {}", name, i), (i, sk.clone())));
    }
    ctx.sample(format!("{}: {} keys x {} messages x tamperings", name, sks.len(), ms.len()));
    ctx.par(items, |(i, sk)| {
        let pa = c.mul(&c.g, sk);
        for (k, m) in ms.iter().enumerate() {
            let mut d = be_bytes(sk, num_bytes::<J::Fs>());
            d.extend(be_bytes(m, num_bytes::<J::Fr>()));
            let rho = BigUint::from_bytes_be(&blake2s(32, PERSON, &d)) % &c.q;
            let pr = c.mul(&c.g, &rho);
            let s = (&rho + h(&pr.0, &pa.0, m) * sk) % &c.q;
            let got = eddsaposeidon_sign(num_of::<J::Fs>(sk), num_of::<J::Fr>(m), &lib, j);
            ensure!(nbig(&got.0) == s && nbig(&got.1) == pr.0, "sign sk={} m={}: {:?}, want {} {}", sk, m, (got.0 .0, got.1 .0), s, pr.0);
            let ver = |s: &BigUint, r: &BigUint, a: &BigUint, m: &BigUint| eddsaposeidon_verify(num_of::<J::Fs>(s), num_of::<J::Fr>(r), num_of(a), num_of(m), &lib, j);
            ensure!(ver(&s, &pr.0, &pa.0, m), "own signature sk={} m={} rejected", sk, m);
            ctx.point(2);
            if (i + k) % ctx.t(11, 2) != 0 {
                continue;
            }
            // every single-component change, the expected verdict computed from the equation
            let (p, q) = (&c.p, &c.q);
            let mut tam: Vec<(BigUint, BigUint, BigUint, BigUint)> = vec![];
            let negx = |x: &BigUint| sub_mod(&big(0), x, p);
            for v in [(&s + big(1)) % q, sub_mod(&s, &big(1), q), sub_mod(&big(0), &s, q), big(0), (&s + &s) % q, rho.clone()].iter() {
                tam.push((v.clone(), pr.0.clone(), pa.0.clone(), m.clone()));
            }
            let near = |x: &BPt| {
                let mut v = vec![negx(&x.0), (&x.0 + big(1)) % p, sub_mod(&x.0, &big(1), p), big(0), big(1), c.add(x, &c.g).0, c.add(x, x).0];
                v.extend(tors.iter().skip(1).map(|t| c.add(x, t).0));
                v
            };
            for v in near(&pr) {
                tam.push((s.clone(), v, pa.0.clone(), m.clone()));
            }
            for v in near(&pa) {
                tam.push((s.clone(), pr.0.clone(), v, m.clone()));
            }
            for v in [(m + big(1)) % p, sub_mod(m, &big(1), p), negx(m), (m + q) % p, sub_mod(m, q, p)].iter() {
                tam.push((s.clone(), pr.0.clone(), pa.0.clone(), v.clone()));
            }
            tam.push((s.clone(), pa.0.clone(), pr.0.clone(), m.clone()));
            // the same equation in -G: accepted only if the equation says so
            tam.push((sub_mod(&big(0), &s, q), negx(&pr.0), negx(&pa.0), m.clone()));
            for (s, r, a, m) in tam {
                let want = match (c.lift_x(&r), c.lift_x(&a)) {
                    (Some(r_), Some(a_)) => c.mul(&c.g, &s) == c.add(&r_, &c.mul(&a_, &(h(&r, &a, &m) % q))),
                    _ => false,
                };
                ensure!(ver(&s, &r, &a, &m) == want, "verify s={} r={} a={} m={}: want {}", s, r, a, m, want);
                ctx.point(1);
                ctx.outcome(if want { "tampered but equation holds" } else { "tampered, rejected" });
            }
        }
        ctx.beat();
        Ok(())
    });
}

fn main() {
    run(
        "C15",
        &["complete key/message/signature spaces on small curves; production curves: boundary keys and messages with every single-component tampering", "Poseidon itself is decided by C09, the group by C11"],
        true,
        |ctx| {
            tiny(ctx, &curve_a(), &SPar::make(4, 2, 1, 73, 0), "F73", ctx.thorough(), 1);
            tiny(ctx, &curve_b(), &SPar::make(5, 2, 2, 101, 0), "F101/t5", ctx.thorough(), 1);
            tiny(ctx, &curve_e(), &SPar::make(4, 4, 1, 269, 0), "F269", false, ctx.t(29, 1));
            if ctx.thorough() {
                tiny(ctx, &curve_c(), &SPar::make(6, 2, 3, 137, 3), "F137/t6", false, 1);
                tiny(ctx, &curve_d(), &SPar::make(4, 2, 1, 229, 2), "F229", false, 1);
            }
            real(ctx, "bn256", &JubJubBN256::new(), 4);
            real(ctx, "bls12_381", &JubJubBLS12_381::new(), 5);
        },
    );
}
