//! C21: the generated Solidity verifier accepts exactly what native verification accepts.
use bellman::groth16::Proof as BProof;
use fawkes_crypto::core::field::Field;
use fawkes_crypto::helpers::groth16::ethereum::generate_sol_data;
use fawkes_crypto::helpers::groth16::prover::{Proof, ProofData};
use fawkes_crypto::helpers::groth16::verifier::{verify, TruncatedVerifyingKey, TruncatedVerifyingKeyData};
use mc::big::*;
use mc::ensure;
use mc::evm::*;
use mc::report::{guard, run, Ctx, Res};
use mc::sol::{parse, Fault, Source, Vm};
use pairing::bn256::{Bn256, Fq, Fr, G1Affine, G2Affine};
use pairing::CurveAffine;
use serde_json::{json, Value};
use std::sync::Mutex;

/// constructs this interpreter does not know; the run then ends without a verdict
static UNKNOWN: Mutex<Option<String>> = Mutex::new(None);

fn unknown(m: String) -> String {
    let mut u = UNKNOWN.lock().unwrap();
    if u.is_none() {
        *u = Some(m.clone());
    }
    m
}
fn contract(d: &TruncatedVerifyingKeyData<Fq>) -> Result<Source, String> {
    let s = guard(|| generate_sol_data(d)).map_err(|m| format!("generate_sol_data panics: {}", m))?;
    parse(&s).map_err(|e| match e {
        Fault::Unsupported(m) => unknown(m),
        e => format!("the contract does not compile: {:?}", e),
    })
}
/// Some(result), None when the call reverts
fn execute(src: &Source, call: &mc::sol::Call, proof: &[BigUint], inputs: &[BigUint]) -> Result<Option<bool>, String> {
    let vm = Vm::new(src, call);
    match vm.external("verifyProof", &[proof.to_vec(), inputs.to_vec()]) {
        Ok(b) => Ok(Some(b)),
        Err(Fault::Revert(_)) => Ok(None),
        Err(Fault::Unsupported(m)) => Err(unknown(m)),
        Err(e) => Err(format!("the contract does not compile: {:?}", e)),
    }
}
fn words(b: &[u8]) -> Vec<BigUint> {
    b.chunks(32).map(BigUint::from_bytes_be).collect()
}
fn flat(v: &Value, out: &mut Vec<BigUint>) {
    match v {
        Value::String(s) => out.push(s.parse().unwrap()),
        Value::Array(a) => a.iter().for_each(|x| flat(x, out)),
        _ => panic!("{:?}", v),
    }
}
/// the eight words of a proof, as its data form lists them
fn calldata(p: &Proof<Bn256>) -> Vec<BigUint> {
    let v = serde_json::to_value(p.into_data()).unwrap();
    let mut o = vec![];
    for k in ["a", "b", "c"].iter() {
        flat(&v[*k], &mut o);
    }
    o
}
fn data(words: &[BigUint]) -> Option<ProofData<Fq>> {
    let s = |i: usize| words[i].to_string();
    serde_json::from_value(json!({"a": [s(0), s(1)], "b": [[s(2), s(3)], [s(4), s(5)]], "c": [s(6), s(7)]})).ok()
}
/// what the native verifier says to these words; None: not even importable
fn native(tvk: &Result<TruncatedVerifyingKey<Bn256>, String>, w: &[BigUint], inputs: &[BigUint]) -> Option<bool> {
    let tvk = tvk.as_ref().ok()?;
    if inputs.iter().any(|x| *x >= r()) {
        return None;
    }
    let d = data(w)?;
    let p = guard(|| Proof::<Bn256>::from_data(&d)).ok()?;
    let ins: Vec<Fr> = inputs.iter().map(felt).collect();
    Some(verify(tvk, &p, &ins).unwrap_or(false))
}
fn judge(ctx: &Ctx, what: &str, src: &Source, tvk: &Result<TruncatedVerifyingKey<Bn256>, String>, w: &[BigUint], ins: &[BigUint]) -> Res {
    let got = execute(src, &precompile, w, ins)?;
    let want = native(tvk, w, ins);
    ctx.point(1);
    ensure!((got == Some(true)) == (want == Some(true)), "{}: contract gives {:?}, native verification {:?}; proof {:?} inputs {:?}", what, got, want, w, ins);
    if w.iter().any(|x| *x >= q()) || ins.iter().any(|x| *x >= r()) {
        ensure!(got.is_none(), "{}: an unreduced word does not revert; proof {:?} inputs {:?}", what, w, ins);
        ctx.outcome("unreduced word reverts");
    }
    ctx.outcome(&format!("contract {:?} native {:?}", got, want));
    Ok(())
}

/// exponents of a key and of a proof for it
#[derive(Clone)]
struct Key {
    alpha: BigUint,
    beta: BigUint,
    gamma: BigUint,
    delta: BigUint,
    ic: Vec<BigUint>,
}
impl Key {
    fn tvk(&self) -> TruncatedVerifyingKey<Bn256> {
        TruncatedVerifyingKey {
            alpha_g1: Logs::p1(&self.alpha),
            beta_g2: Logs::p2(&self.beta),
            gamma_g2: Logs::p2(&self.gamma),
            delta_g2: Logs::p2(&self.delta),
            ic: self.ic.iter().map(Logs::p1).collect(),
        }
    }
    fn data(&self, l: &Logs) -> TruncatedVerifyingKeyData<Fq> {
        let p1 = |e| {
            let w = words(&l.e1(e));
            json!([w[0].to_string(), w[1].to_string()])
        };
        let p2 = |e| {
            let w = words(&l.e2(e));
            json!([[w[0].to_string(), w[1].to_string()], [w[2].to_string(), w[3].to_string()]])
        };
        serde_json::from_value(json!({"alpha_g1": p1(&self.alpha), "beta_g2": p2(&self.beta), "gamma_g2": p2(&self.gamma), "delta_g2": p2(&self.delta),
            "ic": self.ic.iter().map(p1).collect::<Vec<_>>()}))
        .unwrap()
    }
    /// alpha beta + vk_x gamma
    fn fixed(&self, ins: &[BigUint]) -> BigUint {
        let x = ins.iter().zip(&self.ic[1..]).fold(self.ic[0].clone(), |a, (i, k)| a + i * k);
        (&self.alpha * &self.beta + x * &self.gamma) % r()
    }
    fn holds(&self, a: &BigUint, b: &BigUint, c: &BigUint, ins: &[BigUint]) -> bool {
        a * b % r() == (self.fixed(ins) + c * &self.delta) % r()
    }
    /// the c that makes (a, b, c) acceptable
    fn solve(&self, a: &BigUint, b: &BigUint, ins: &[BigUint]) -> BigUint {
        let d = sub_mod(&(a * b % r()), &self.fixed(ins), &r());
        d * inv_mod(&self.delta, &r()) % r()
    }
    fn generic(n: usize, s: u64) -> Key {
        Key {
            alpha: big(7 + s),
            beta: big(11 + 3 * s),
            gamma: r() - big(13 + s),
            delta: big(1000003 + s) * big(0xffff_ffff_ffff_ffc5) % r(),
            ic: (0..=n as u64).map(|i| (big(31 + s) * big(i * i + 17) * big(1 << 40) + big(i)) % r()).collect(),
        }
    }
}
fn proof_of(a: &BigUint, b: &BigUint, c: &BigUint) -> Proof<Bn256> {
    Proof(BProof { a: Logs::p1(a), b: Logs::p2(b), c: Logs::p1(c) })
}

/// every key, proof and input vector over small exponents, precompiles in the exponent
fn bulk(ctx: &Ctx, logs: &Logs, n: usize, ks: &[BigUint], ics: &[BigUint], ins: &[BigUint], abs: &[BigUint]) {
    let mut keys = vec![];
    for v in mc::gad::tuples(ks.len() as u64, 4) {
        keys.push((format!("exponents, {} inputs, key {:?}", n, v), v));
    }
    let all_ins: Vec<Vec<BigUint>> = mc::gad::tuples(ins.len() as u64, n).into_iter().map(|v| v.iter().map(|k| ins[*k as usize].clone()).collect()).collect();
    ctx.par(keys, |v| {
        for ic in mc::gad::tuples(ics.len() as u64, n + 1) {
            let k = |i: usize| ks[v[i] as usize].clone();
            let key = Key { alpha: k(0), beta: k(1), gamma: k(2), delta: k(3), ic: ic.iter().map(|i| ics[*i as usize].clone()).collect() };
            let src = contract(&key.data(logs))?;
            for x in &all_ins {
                for a in abs {
                    for b in abs {
                        let mut cs = vec![big(0), big(1), r() - big(1)];
                        if key.delta != big(0) {
                            let s = key.solve(a, b, x);
                            if !cs.contains(&s) {
                                cs.push(s);
                            }
                        }
                        for c in cs {
                            let w = words(&[logs.e1(a), logs.e2(b), logs.e1(&c)].concat());
                            let got = execute(&src, &|t, g, i| logs.call(t, g, i), &w, x)?;
                            let want = key.holds(a, b, &c, x);
                            ensure!((got == Some(true)) == want, "key exponents {:?} ic {:?}: proof exponents {} {} {} inputs {:?}: contract {:?}, equation {}", v, ic, a, b, c, x, got, want);
                            ctx.point(1);
                            ctx.outcome(if want { "equation holds" } else { "equation fails" });
                        }
                    }
                }
            }
        }
        ctx.beat();
        Ok(())
    });
}

/// single and double tamperings of an honest call, real precompiles, library verification
fn tamper(ctx: &Ctx, n: usize, s: u64, wide: bool) -> Res {
        let key = Key::generic(n, s);
        let tvk = key.tvk();
        let src = contract(&tvk.into_data())?;
        let tvk = Ok(tvk);
        let ins: Vec<BigUint> = (0..n as u64).map(|i| (big(i + 3) * big(i + 3) * pow2(70)) % r()).collect();
        let (a, b) = (big(99 + s), big(1234567));
        let c = key.solve(&a, &b, &ins);
        let honest = calldata(&proof_of(&a, &b, &c));
        ensure!(words(&[enc1(&Logs::p1(&a)), enc2(&Logs::p2(&b)), enc1(&Logs::p1(&c))].concat()) == honest, "the proof's data form is not in the contract's order");
        ensure!(execute(&src, &precompile, &honest, &ins)? == Some(true), "honest proof refused");
        judge(ctx, "honest", &src, &tvk, &honest, &ins)?;
        let alts = |x: &BigUint, m: &BigUint| {
            let mut v = vec![(x + big(1)) % m, big(0), big(1), sub_mod(&big(0), x, m), m.clone(), x + m, pow2(256) - big(1), m - big(1), pow2(255) + x];
            if wide {
                v.extend(vec![x + m + m, m + big(1), sub_mod(x, &big(1), m), pow2(128), pow2(253)]);
            }
            v.retain(|y| y != x && *y < pow2(256));
            v
        };
        for i in 0..8 {
            for y in alts(&honest[i], &q()) {
                let mut w = honest.clone();
                w[i] = y;
                judge(ctx, &format!("proof word {}", i), &src, &tvk, &w, &ins)?;
            }
            for j in 0..i {
                let mut w = honest.clone();
                w.swap(i, j);
                judge(ctx, &format!("proof words {} and {} swapped", i, j), &src, &tvk, &w, &ins)?;
            }
        }
        // negated points, zeroed points
        for (lo, hi, ys) in [(0usize, 2usize, vec![1usize]), (2, 6, vec![4, 5]), (6, 8, vec![7])].iter() {
            let mut w = honest.clone();
            for y in ys {
                w[*y] = q() - &w[*y];
            }
            judge(ctx, "negated point", &src, &tvk, &w, &ins)?;
            // also with the unreduced form of the same point
            let mut w = honest.clone();
            for y in ys {
                w[*y] += q();
            }
            judge(ctx, "unreduced point", &src, &tvk, &w, &ins)?;
            let mut w = honest.clone();
            for k in *lo..*hi {
                w[k] = big(0);
            }
            judge(ctx, "point at infinity", &src, &tvk, &w, &ins)?;
        }
        judge(ctx, "all zero proof", &src, &tvk, &vec![big(0); 8], &ins)?;
        // other true proofs for the same inputs, and the same proof with A and B negated
        let (na, nb) = (r() - &a, r() - &b);
        for (x, y, z) in [(na.clone(), nb.clone(), c.clone()), (na, b.clone(), c.clone()), (big(0), b.clone(), key.solve(&big(0), &b, &ins)), (big(5), big(0), key.solve(&big(5), &big(0), &ins)), (&a * big(2), big(77), key.solve(&(&a * big(2)), &big(77), &ins))].iter() {
            judge(ctx, "other proof", &src, &tvk, &calldata(&proof_of(x, y, z)), &ins)?;
        }
        // proofs with infinite parts, each word altered
        let mut infinite = vec![(big(0), b.clone(), key.solve(&big(0), &b, &ins)), (a.clone(), big(0), key.solve(&a, &big(0), &ins)), (big(0), big(0), key.solve(&big(0), &big(0), &ins))];
        let ab = key.fixed(&ins);
        infinite.push((ab.clone(), big(1), big(0)));
        infinite.push((big(1), ab, big(0)));
        for (x, y, z) in &infinite {
            let base = calldata(&proof_of(x, y, z));
            ensure!(execute(&src, &precompile, &base, &ins)? == Some(true), "honest proof with infinite parts refused: {:?}", base);
            judge(ctx, "honest with infinite parts", &src, &tvk, &base, &ins)?;
            for i in 0..8 {
                for v in alts(&base[i], &q()) {
                    let mut w = base.clone();
                    w[i] = v;
                    judge(ctx, &format!("word {} of a proof with infinite parts", i), &src, &tvk, &w, &ins)?;
                }
                if base[i] == big(0) {
                    for j in 0..i {
                        for (v, u) in [(big(1), big(2)), (q(), q()), (big(1), big(1)), (q(), big(0))].iter() {
                            if base[j] == big(0) {
                                let mut w = base.clone();
                                w[i] = v.clone();
                                w[j] = u.clone();
                                judge(ctx, &format!("words {} and {} of a proof with infinite parts", i, j), &src, &tvk, &w, &ins)?;
                            }
                        }
                    }
                }
            }
        }
        // B outside the prime order group
        let off = off_subgroup();
        let mut w = honest.clone();
        w[2..6].clone_from_slice(&words(&off));
        judge(ctx, "B outside the group", &src, &tvk, &w, &ins)?;
        // inputs; all of them when few, the ends and the middle when many
        let idx: Vec<usize> = if n <= 4 { (0..n).collect() } else { vec![0, 1, n / 2, n - 2, n - 1] };
        for &i in &idx {
            for y in alts(&ins[i], &r()) {
                let mut x = ins.clone();
                x[i] = y;
                judge(ctx, &format!("input {}", i), &src, &tvk, &honest, &x)?;
            }
            for &j in &idx {
                if j < i {
                    let mut x = ins.clone();
                    x.swap(i, j);
                    judge(ctx, &format!("inputs {} and {} swapped", i, j), &src, &tvk, &honest, &x)?;
                }
            }
        }
        // an input fed with an honest proof of its own
        for &i in &idx {
            for y in alts(&ins[i], &r()).into_iter().filter(|y| *y < r()) {
                let mut x = ins.clone();
                x[i] = y;
                let c = key.solve(&a, &b, &x);
                let w = calldata(&proof_of(&a, &b, &c));
                judge(ctx, &format!("honest with input {}", i), &src, &tvk, &w, &x)?;
                x[i] += r();
                judge(ctx, &format!("honest with unreduced input {}", i), &src, &tvk, &w, &x)?;
            }
        }
        Ok(())
}
/// a point of the twist outside the prime order group
fn off_subgroup() -> Vec<u8> {
    use pairing::EncodedPoint;
    let mut k = 1u8;
    loop {
        let mut c = <G2Affine as CurveAffine>::Compressed::empty();
        c.as_mut()[63] = k;
        if let Ok(p) = c.into_affine() {
            if !p.is_zero() && dec2(&enc2(&p)).is_none() {
                return enc2(&p);
            }
        }
        k += 1;
    }
}
/// the honest proof of every number of inputs is accepted, with the last input altered it is not
fn lengths(ctx: &Ctx, ns: &[usize]) {
    ctx.par(ns.iter().map(|n| (format!("{} inputs", n), *n)).collect(), |&n| {
        let key = Key::generic(n, 40);
        let tvk = key.tvk();
        let src = contract(&tvk.into_data())?;
        let tvk = Ok(tvk);
        let ins: Vec<BigUint> = (0..n as u64).map(|i| big(i + 1)).collect();
        let (a, b) = (big(3), big(5));
        let w = calldata(&proof_of(&a, &b, &key.solve(&a, &b, &ins)));
        ensure!(execute(&src, &precompile, &w, &ins)? == Some(true), "honest proof refused with {} inputs", n);
        judge(ctx, "honest", &src, &tvk, &w, &ins)?;
        for i in [0, n / 3, n - 1].iter() {
            for y in [big(0), r(), r() + &ins[*i], pow2(256) - big(1)].iter() {
                let mut x = ins.clone();
                x[*i] = y.clone();
                judge(ctx, &format!("input {}", i), &src, &tvk, &w, &x)?;
            }
        }
        // a vector of another length is no argument of this contract
        for m in [n - 1, n + 1].iter() {
            let x = vec![big(1); *m];
            match execute(&src, &precompile, &w, &x) {
                Ok(Some(true)) => return Err(format!("{} inputs accepted by a contract for {}", m, n)),
                _ => ctx.point(1),
            }
        }
        Ok(())
    });
}
/// coordinates of every magnitude in every position of the key: the contract compiles and holds them
fn magnitudes(ctx: &Ctx, logs: &Logs, stride: usize) {
    // G2 points both of whose coordinate parts are short: search multiples of the generator
    ctx.case("short coordinates", || {
        let mut best: Vec<(usize, u64)> = vec![];
        use pairing::CurveProjective;
        let mut p = pairing::bn256::G2::one();
        for e in 1..ctx.t(4000u64, 40000) {
            let w = words(&enc2(&p.into_affine()));
            let l = w[0].bits().max(w[1].bits()).min(w[2].bits().max(w[3].bits()));
            best.push((l as usize, e));
            p.add_assign(&pairing::bn256::G2::one());
            if e % 500 == 0 {
                ctx.beat();
            }
        }
        best.sort();
        ctx.note(format!("shortest coordinate pair of a multiple of the G2 generator: {:?} bits", best[0]));
        for (l, e) in best.iter().take(ctx.t(6, 30)) {
            for pos in 0..3 {
                let mut key = Key::generic(1, 9);
                match pos {
                    0 => key.beta = big(*e),
                    1 => key.gamma = big(*e),
                    _ => key.delta = big(*e),
                }
                let src = contract(&key.data(logs))?;
                let ins = vec![big(6)];
                let (a, b) = (big(3), big(5));
                let c = key.solve(&a, &b, &ins);
                let w = calldata(&proof_of(&a, &b, &c));
                let got = execute(&src, &precompile, &w, &ins).map_err(|m| format!("G2 element {} of the key is {} times the generator, with a coordinate pair of {} bits: {}", pos, e, l, m))?;
                ensure!(got == Some(true), "honest proof refused for a key with a G2 element of {} times the generator", e);
                ctx.point(1);
            }
        }
        Ok(())
    });
    // arbitrary field elements as coordinates: such keys are not on the curve, nothing is accepted
    let alpha: Vec<BigUint> = alphabet::<Fq>(false).into_iter().step_by(stride).collect();
    ctx.par(alpha.iter().cloned().enumerate().map(|(i, x)| (format!("off-curve key #{}", i), x)).collect(), |x| {
        for pos in 0..18 {
            let key = Key::generic(2, 5);
            let mut v = serde_json::to_value(key.data(logs)).unwrap();
            let s = json!(x.to_string());
            match pos {
                0..=1 => v["alpha_g1"][pos] = s,
                2..=5 => v["beta_g2"][(pos - 2) / 2][pos % 2] = s,
                6..=9 => v["gamma_g2"][(pos - 6) / 2][pos % 2] = s,
                10..=13 => v["delta_g2"][(pos - 10) / 2][pos % 2] = s,
                _ => v["ic"][(pos - 14) / 2][pos % 2] = s,
            }
            let d: TruncatedVerifyingKeyData<Fq> = serde_json::from_value(v).unwrap();
            let src = contract(&d)?;
            let tvk = guard(|| TruncatedVerifyingKey::<Bn256>::from_data(&d));
            let ins = vec![big(1), big(2)];
            let (a, b) = (big(3), big(5));
            let w = calldata(&proof_of(&a, &b, &key.solve(&a, &b, &ins)));
            judge(ctx, &format!("key word {} set to {}", pos, x), &src, &tvk, &w, &ins)?;
            if pos >= 14 {
                // a proof for the key without the broken element
                let mut less = key.clone();
                less.ic[(pos - 14) / 2] = big(0);
                let w = calldata(&proof_of(&a, &b, &less.solve(&a, &b, &ins)));
                judge(ctx, &format!("key word {} set to {}, proof ignoring it", pos, x), &src, &tvk, &w, &ins)?;
            }
        }
        Ok(())
    });
    ctx.case("key with an element outside the group", || {
        let off = words(&off_subgroup());
        for f in ["beta_g2", "gamma_g2", "delta_g2"].iter() {
            let key = Key::generic(1, 3);
            let mut v = serde_json::to_value(key.data(logs)).unwrap();
            v[*f] = json!([[off[0].to_string(), off[1].to_string()], [off[2].to_string(), off[3].to_string()]]);
            let d: TruncatedVerifyingKeyData<Fq> = serde_json::from_value(v).unwrap();
            let src = contract(&d)?;
            let tvk = guard(|| TruncatedVerifyingKey::<Bn256>::from_data(&d));
            let w = calldata(&proof_of(&big(3), &big(5), &big(7)));
            judge(ctx, f, &src, &tvk, &w, &[big(4)])?;
        }
        Ok(())
    });
}
/// points of the group with a coordinate at the edges of the field, in every position of proof and key
fn edges(ctx: &Ctx) {
    let p = q();
    let mut vals: Vec<BigUint> = (0..ctx.t(24u64, 200)).flat_map(|k| vec![big(k), &q() - big(k + 1)]).collect();
    for k in [8usize, 31, 32, 63, 64, 127, 128, 191, 192, 247, 248, 251, 252, 253].iter() {
        vals.extend(vec![&pow2(*k) - big(1), pow2(*k), &pow2(*k) + big(1), &p - &pow2(*k)]);
    }
    let half = (&p - big(1)) >> 1;
    vals.extend(vec![half.clone(), &half + big(1)]);
    // square roots: p = 3 mod 4; cube roots: p - 1 = 9 n
    let n = (&p - big(1)) / big(9);
    let third = if &n % big(3) == big(2) { (&n + big(1)) / big(3) } else { (&n * big(2) + big(1)) / big(3) };
    let zeta = (2u64..).map(|g| big(g).modpow(&n, &p)).find(|z| z.modpow(&big(3), &p) != big(1)).unwrap();
    let mut pts: Vec<(BigUint, BigUint)> = vec![];
    for v in &vals {
        let t = (v * v * v + big(3)) % &p;
        let y = t.modpow(&((&p + big(1)) >> 2), &p);
        if &y * &y % &p == t {
            pts.push((v.clone(), y.clone()));
            pts.push((v.clone(), &p - y));
        }
        let t = (v * v + &p - big(3)) % &p;
        let c = t.modpow(&third, &p);
        let roots = (0..9u32).map(|i| &c * zeta.modpow(&BigUint::from(i), &p) % &p).filter(|x| x * x * x % &p == t).collect::<Vec<_>>();
        pts.extend(roots.into_iter().map(|x| (x, v.clone())));
    }
    pts.retain(|(x, y)| x < &p && y < &p && dec1(&[be_bytes(x, 32), be_bytes(y, 32)].concat()).is_some());
    pts.sort();
    pts.dedup();
    ctx.note(format!("{} points of the group with a coordinate at an edge of the field", pts.len()));
    ctx.par(pts.into_iter().map(|c| (format!("point ({}, {})", c.0, c.1), c)).collect(), |(x, y)| {
        let pt: G1Affine = dec1(&[be_bytes(x, 32), be_bytes(y, 32)].concat()).unwrap();
        let neg = { let mut g = pt; g.negate(); g };
        let (h, g, o) = (Logs::p2(&big(5)), Logs::p2(&big(7)), G1Affine::zero());
        let one = |k: u64| Logs::p1(&big(k));
        // (name, alpha, beta, gamma, delta, ic, a, b, c), input 2: all hold
        let minus = |k: u64| Logs::p1(&(r() - big(k)));
        let tries: Vec<(&str, G1Affine, G2Affine, [G1Affine; 2], G1Affine, G2Affine, G1Affine)> = vec![
            ("alpha and a", pt, h, [o, o], pt, h, o),
            ("alpha and a, key elements that cancel", pt, h, [minus(6), one(3)], pt, h, o),
            ("a and c", o, h, [o, o], pt, g, pt),
            ("alpha and c", pt, g, [o, o], o, h, neg),
            ("first key element and c", o, h, [pt, o], o, h, neg),
            ("first key element and a", o, h, [pt, o], pt, g, o),
            ("second key element and first", o, h, [pt, pt], pt, g, { use pairing::CurveProjective; let mut d = pt.into_projective(); d.double(); d.into_affine() }),
        ];
        for (name, alpha, beta, ic, a, b, c) in tries {
            let tvk = TruncatedVerifyingKey::<Bn256> { alpha_g1: alpha, beta_g2: beta, gamma_g2: g, delta_g2: if name.starts_with("second") { let mut n = g; n.negate(); n } else { g }, ic: ic.to_vec() };
            let src = contract(&tvk.into_data())?;
            let w = calldata(&Proof(BProof { a, b, c }));
            let tvk = Ok(tvk);
            let want = native(&tvk, &w, &[big(2)]);
            ensure!(want == Some(true), "{}: native verification gives {:?}", name, want);
            judge(ctx, name, &src, &tvk, &w, &[big(2)])?;
            judge(ctx, name, &src, &tvk, &w, &[big(3)])?;
        }
        Ok(())
    });
}
/// keys and proofs of the proving library
fn real(ctx: &Ctx) {
    use fawkes_crypto::helpers::groth16::prover::{generate_keys, prove};
    use fawkes_crypto::helpers::groth16::verifier::truncate_verifying_key;
    use fawkes_crypto::native::num::Num;
    use fawkes_crypto::{circuit::num::CNum, core::cs::Circuit, core::cs::ConstraintSystem, core::signal::Signal};
    struct C(Option<(Num<Fr>, Num<Fr>)>);
    impl Default for C {
        fn default() -> Self {
            C(None)
        }
    }
    impl Circuit for C {
        type F = Fr;
        fn synthesize<CS: ConstraintSystem<F = Fr>>(&self, cs: &CS) {
            let x: CNum<CS> = Signal::alloc(cs, self.0.as_ref().map(|t| &t.0));
            let y: CNum<CS> = Signal::alloc(cs, self.0.as_ref().map(|t| &t.1));
            (&x * &y).inputize();
            (&x + &y).inputize();
        }
        fn get_inputs(&self) -> Option<Vec<Num<Fr>>> {
            self.0.map(|(x, y)| vec![x * y, x + y])
        }
    }
    ctx.case("proving library", || {
        let params = guard(|| generate_keys::<Bn256, C>())?;
        let tvk = truncate_verifying_key(&params.vk);
        let src = contract(&tvk.into_data())?;
        let tvk = Ok(tvk);
        for (x, y) in [(3u64, 5u64), (0, 0), (1, 1), (0, 9)].iter() {
            let c = C(Some((nu(*x), nu(*y))));
            let p = guard(|| prove(&c, &params))?;
            let ins: Vec<BigUint> = vec![big(x * y), big(x + y)];
            let w = calldata(&p);
            ensure!(execute(&src, &precompile, &w, &ins)? == Some(true), "proof of the library refused");
            judge(ctx, "honest", &src, &tvk, &w, &ins)?;
            for i in 0..2 {
                let mut z = ins.clone();
                z[i] += big(1);
                judge(ctx, "input altered", &src, &tvk, &w, &z)?;
            }
        }
        Ok(())
    });
}

fn main() {
    run(
        "C21",
        &[
            "the contract is executed by the harness' interpreter of the Solidity subset it is written in: EVM memory layout, solc's typing rules for conversions, array literals, visibility and mutability; stack depth and code size limits of the EVM are not modelled",
            "precompiles follow EIP-196/197 with the gas of EIP-1108, on the pairing library",
            "a contract for a key without public inputs is outside the property: Solidity has no array of length zero",
        ],
        true,
        |ctx| {
            let _: Option<G1Affine> = None;
            let logs = Logs::default();
            // the precompile model: laws on known points
            ctx.case("precompile model", || {
                for a in 0..6u64 {
                    for b in 0..6u64 {
                        let i = [logs.e1(&big(a)), logs.e1(&big(b))].concat();
                        let g = big(1_000_000);
                        ensure!(precompile(&big(6), &g, &i) == logs.call(&big(6), &g, &i), "add {} {}", a, b);
                        let i = [logs.e1(&big(a)), be_bytes(&(r() - big(b)), 32)].concat();
                        ensure!(precompile(&big(7), &g, &i) == logs.call(&big(7), &g, &i), "mul {} {}", a, b);
                        let i = [logs.e1(&big(a)), logs.e2(&big(b)), logs.e1(&(r() - big(6))), logs.e2(&big(1))].concat();
                        ensure!(precompile(&big(8), &g, &i) == logs.call(&big(8), &g, &i), "pairing {} {}", a, b);
                        ctx.point(3);
                    }
                }
                Ok(())
            });
            let m = |k: u64| r() - big(k);
            lengths(ctx, &ctx.t(vec![1, 2, 3, 4, 5, 7, 8, 9, 10, 16, 17, 31, 33, 64, 99, 100, 101, 127, 129, 254, 255, 256, 257, 300], (1..=80).chain(vec![99, 100, 101, 127, 128, 129, 253, 254, 255, 256, 257, 258, 300, 511, 512, 513]).collect::<Vec<_>>()));
            let mut all = vec![];
            for (n, s) in ctx.t(vec![(1usize, 0u64), (1, 1), (2, 0), (3, 0), (5, 2)], vec![(1, 0), (1, 1), (1, 2), (1, 3), (2, 0), (2, 1), (3, 0), (3, 1), (4, 0), (5, 2), (9, 0), (300, 0)]) {
                all.push((format!("tampering, {} inputs, key {}", n, s), (n, s)));
            }
            ctx.par(all, |&(n, s)| tamper(ctx, n, s, ctx.thorough()));
            magnitudes(ctx, &logs, ctx.t(4, 1));
            edges(ctx);
            real(ctx);
            bulk(ctx, &logs, 1, &[big(0), big(1), m(1)], &[big(0), big(1), m(2)], &[big(0), big(1), m(1)], &[big(0), big(1), m(1)]);
            if ctx.thorough() {
                bulk(ctx, &logs, 1, &[big(0), big(1), m(1), big(2)], &[big(0), big(1), m(2), m(1)], &[big(0), big(1), m(1)], &[big(0), big(1), m(1)]);
                bulk(ctx, &logs, 2, &[big(0), big(1), m(1)], &[big(0), big(1), m(2)], &[big(0), m(1)], &[big(0), big(1), m(1)]);
            } else {
                bulk(ctx, &logs, 2, &[big(0), m(1)], &[big(0), big(1), m(3)], &[big(0), m(1)], &[big(0), big(1), m(1)]);
            }
            if let Some(m) = UNKNOWN.lock().unwrap().clone() {
                eprintln!("the contract uses a construct the interpreter does not know: {}", m);
                std::process::exit(2);
            }
        },
    )
}
