//! C03: JSON and Borsh encodings: round trip, layout, and every structural mutation.
use borsh::{BorshDeserialize, BorshSerialize};
use fawkes_crypto::core::field::Field;
use fawkes_crypto::core::sizedvec::SizedVec;
use fawkes_crypto::helpers::groth16::prover::{Proof, ProofData};
use fawkes_crypto::helpers::groth16::verifier::{TruncatedVerifyingKey, TruncatedVerifyingKeyData};
use fawkes_crypto::helpers::groth16::{G1PointData, G2PointData};
use fawkes_crypto::native::ecc::{EdwardsPoint, MontgomeryPoint};
use fawkes_crypto::native::num::Num;
use fawkes_crypto::native::poseidon::MerkleProof;
use mc::big::*;
use mc::ensure;
use mc::fp::Fp;
use mc::report::{guard, run, Ctx, Res};
use pairing::{CurveAffine, CurveProjective, Engine};
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Value};
use typenum::*;

type B = BigUint;

// ---------- JSON: every single structural mutation of a document ----------
#[derive(Clone, Copy, PartialEq, Debug)]
enum Exp {
    Reject,
    Same, // decodes, and encodes back to the mutated document
}

/// all documents one mutation away from v, with the expected fate
fn mutants(v: &Value, p: &B, vec_ok: bool, out: &mut Vec<(Value, Exp)>, rebuild: &dyn Fn(Value) -> Value) {
    match v {
        Value::String(_) => {
            for b in [big(0), big(1), p - big(1), p >> 1].iter() {
                out.push((rebuild(json!(b.to_string())), Exp::Same));
            }
            for b in [p.clone(), p + big(1), p * big(2), pow2(256) + big(5), pow2(384), p * p, pow2(2000)].iter() {
                if b >= p {
                    out.push((rebuild(json!(b.to_string())), Exp::Reject));
                }
            }
            for s in ["", "x", "-1", "-0", "1a", " 1", "1 ", "0x10", "1.0", "1e2", "\u{661}", "1\u{0}", "NaN", "true"].iter() {
                out.push((rebuild(json!(s)), Exp::Reject));
            }
            for w in [Value::Null, json!(true), json!(1), json!(0), json!(1.5), json!([]), json!({}), json!(["1"]), json!([1])].iter() {
                out.push((rebuild(w.clone()), Exp::Reject));
            }
        }
        Value::Bool(b) => {
            out.push((rebuild(json!(!b)), Exp::Same));
            for w in [Value::Null, json!(1), json!(0), json!("true"), json!([])].iter() {
                out.push((rebuild(w.clone()), Exp::Reject));
            }
        }
        Value::Array(a) => {
            for i in 0..a.len() {
                let mut c = a.clone();
                c.remove(i);
                out.push((rebuild(Value::Array(c)), if vec_ok { Exp::Same } else { Exp::Reject }));
                let mut c = a.clone();
                c.insert(i, a[i].clone());
                out.push((rebuild(Value::Array(c)), if vec_ok { Exp::Same } else { Exp::Reject }));
                let f = |x: Value| {
                    let mut c = a.clone();
                    c[i] = x;
                    rebuild(Value::Array(c))
                };
                mutants(&a[i], p, false, out, &f);
            }
            if !a.is_empty() {
                out.push((rebuild(json!([])), if vec_ok { Exp::Same } else { Exp::Reject }));
            }
            out.push((rebuild(Value::Null), Exp::Reject));
            out.push((rebuild(json!("1")), Exp::Reject));
            out.push((rebuild(json!(7)), Exp::Reject));
        }
        Value::Object(o) => {
            for k in o.keys() {
                let mut c = o.clone();
                c.remove(k);
                out.push((rebuild(Value::Object(c.clone())), Exp::Reject));
                c.insert(format!("{}_", k), o[k].clone());
                out.push((rebuild(Value::Object(c)), Exp::Reject));
                let f = |x: Value| {
                    let mut c = o.clone();
                    c.insert(k.clone(), x);
                    rebuild(Value::Object(c))
                };
                mutants(&o[k], p, k == "ic", out, &f);
            }
            out.push((rebuild(Value::Null), Exp::Reject));
            out.push((rebuild(json!("1")), Exp::Reject));
        }
        _ => {}
    }
}

fn json_suite<T: Serialize + DeserializeOwned>(ctx: &Ctx, t: &T, want: Value, p: &B, same: &dyn Fn(&T) -> bool) -> Res {
    let s = serde_json::to_string(t).map_err(|e| e.to_string())?;
    let v: Value = serde_json::from_str(&s).unwrap();
    ensure!(v == want, "JSON layout {} instead of {}", v, want);
    ensure!(serde_json::to_value(t).ok() == Some(want.clone()), "to_value");
    for txt in [s.clone(), serde_json::to_string_pretty(t).unwrap()].iter() {
        let d: T = serde_json::from_str(txt).map_err(|e| format!("own encoding {} rejected: {}", txt, e))?;
        ensure!(same(&d), "decoded value differs from the original for {}", txt);
        ensure!(serde_json::to_value(&d).ok() == Some(want.clone()), "re-encoding of {}", txt);
        // the same document from a reader, and with every digit escaped
        let d: T = serde_json::from_reader(txt.as_bytes()).map_err(|e| format!("own encoding {} rejected from a reader: {}", txt, e))?;
        ensure!(same(&d), "value decoded from a reader differs for {}", txt);
        let mut esc = String::new();
        let mut inside = false;
        for c in txt.chars() {
            if c == '"' {
                inside = !inside;
            }
            if inside && c.is_ascii_digit() {
                esc.push_str(&format!("\\u{:04x}", c as u32));
            } else {
                esc.push(c);
            }
        }
        let d: T = serde_json::from_str(&esc).map_err(|e| format!("escaped digits {} rejected: {}", esc, e))?;
        ensure!(same(&d), "value decoded from escaped digits differs for {}", txt);
    }
    let d: T = serde_json::from_value(want.clone()).map_err(|e| format!("own encoding {} rejected as a value: {}", want, e))?;
    ensure!(same(&d), "value decoded from a document tree differs for {}", want);
    ctx.point(2);
    // every truncation, trailing data
    for i in 0..s.len() {
        ensure!(serde_json::from_str::<T>(&s[..i]).is_err(), "truncated JSON accepted: {}", &s[..i]);
    }
    for t in ["0", "x", "\"\"", "]", "}", ",", "[]"].iter() {
        ensure!(serde_json::from_str::<T>(&format!("{}{}", s, t)).is_err(), "trailing {} accepted", t);
    }
    ctx.point(s.len() as u64 + 7);
    let mut ms = vec![];
    mutants(&want, p, false, &mut ms, &|x| x);
    for (m, e) in &ms {
        if *m == want {
            continue;
        }
        let r = guard(|| serde_json::from_value::<T>(m.clone()).ok().map(|d| serde_json::to_value(&d).unwrap()));
        let txt = m.to_string();
        let r2 = guard(|| serde_json::from_str::<T>(&txt).ok().map(|d| serde_json::to_value(&d).unwrap()));
        for r in [r, r2].iter() {
            match (e, r) {
                (Exp::Reject, Ok(None)) => {}
                (Exp::Reject, Err(e)) => return Err(format!("malformed {} ends in a panic instead of an error: {}", m, e)),
                (Exp::Same, Ok(Some(x))) => ensure!(x == m, "{} decodes to {}", m, x),
                (Exp::Reject, Ok(Some(x))) => return Err(format!("malformed {} accepted as {}", m, x)),
                (Exp::Same, x) => return Err(format!("valid {} rejected ({:?})", m, x)),
            }
        }
        ctx.point(1);
        ctx.outcome(match e {
            Exp::Reject => "JSON rejected",
            Exp::Same => "JSON decoded to the mutated value",
        });
    }
    Ok(())
}

// ---------- Borsh ----------
/// takes one byte per call and fails when `room` bytes have been taken: always, or only once
struct Faulty {
    got: Vec<u8>,
    room: usize,
    once: bool,
}
impl std::io::Write for Faulty {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        if self.got.len() == self.room {
            if self.once {
                self.room = usize::max_value();
            }
            return Err(std::io::Error::new(std::io::ErrorKind::Other, "no room"));
        }
        self.got.push(buf[0]);
        Ok(1)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// fixed-width little-endian words; `fixed`: number of words before a length-prefixed tail
fn borsh_suite<T: BorshSerialize + BorshDeserialize>(ctx: &Ctx, t: &T, words: &[B], tail: Option<usize>, p: &B, w: usize, same: &dyn Fn(&T) -> bool) -> Res {
    let enc = |words: &[B], n: usize| -> Vec<u8> {
        let mut v = vec![];
        for (i, x) in words.iter().enumerate() {
            if Some(i) == tail {
                v.extend(&(n as u32).to_le_bytes());
            }
            v.extend(le_bytes(x, w));
        }
        if Some(words.len()) == tail {
            v.extend(&(n as u32).to_le_bytes());
        }
        v
    };
    let per = 2; // words per tail element (G1)
    let n = tail.map(|k| (words.len() - k) / per).unwrap_or(0);
    let b = t.try_to_vec().map_err(|e| e.to_string())?;
    ensure!(b == enc(words, n), "Borsh layout {:?} instead of {:?}", b, enc(words, n));
    let d = T::try_from_slice(&b).map_err(|e| format!("own Borsh encoding rejected: {}", e))?;
    ensure!(same(&d), "Borsh round trip differs");
    let mut cur = &b[..];
    let d = T::deserialize(&mut cur).map_err(|e| e.to_string())?;
    ensure!(cur.is_empty() && same(&d), "Borsh stream decode left {} bytes", cur.len());
    for i in 0..b.len() {
        ensure!(guard(|| T::try_from_slice(&b[..i]).is_err()) == Ok(true), "Borsh prefix of {} of {} bytes accepted (or a panic)", i, b.len());
    }
    // a writer that fails after i bytes; one that takes a byte at a time
    for i in 0..=b.len() {
        let mut out = Faulty { got: vec![], room: i, once: false };
        let r = guard(|| t.serialize(&mut out).is_ok())?;
        ensure!(r == (i == b.len()), "writer failing after {} of {} bytes: reported {}", i, b.len(), if r { "success" } else { "an error" });
        ensure!(b.starts_with(&out.got) && (!r || out.got == b), "bytes written before the failure at {}", i);
        let mut out = Faulty { got: vec![], room: i, once: true };
        let r = guard(|| t.serialize(&mut out).is_ok())?;
        ensure!(!r || out.got == b, "a failure at byte {} of {} is not reported and leaves {} bytes", i, b.len(), out.got.len());
    }
    ctx.point(b.len() as u64 + 1);
    for x in [0u8, 1, 255].iter() {
        for k in [1usize, 4, w, 2 * w].iter() {
            let mut c = b.clone();
            c.extend(vec![*x; *k]);
            ensure!(T::try_from_slice(&c).is_err(), "{} trailing bytes accepted", k);
        }
    }
    ctx.point(b.len() as u64 + 14);
    // every bit of every byte outside the length
    let lenpos = tail.map(|k| k * w);
    for i in 0..b.len() {
        if let Some(l) = lenpos {
            if i >= l && i < l + 4 {
                let mut c = b.clone();
                c[i] = c[i].wrapping_add(1);
                ensure!(guard(|| T::try_from_slice(&c).is_err()) == Ok(true), "wrong element count accepted (byte {})", i);
                let mut c = b.clone();
                if c[i] > 0 {
                    c[i] -= 1;
                    ensure!(T::try_from_slice(&c).is_err(), "smaller element count accepted (byte {})", i);
                }
                continue;
            }
        }
        for bit in 0..8 {
            let mut c = b.clone();
            c[i] ^= 1 << bit;
            let off = match lenpos {
                Some(l) if i >= l + 4 => i - 4,
                _ => i,
            };
            let k = off / w;
            let start = i - off % w;
            let x = BigUint::from_bytes_le(&c[start..start + w]);
            let r = guard(|| T::try_from_slice(&c).ok().map(|d| d.try_to_vec().unwrap())).map_err(|m| format!("decoding panics: {}", m))?;
            if x < *p {
                ensure!(r == Some(c.clone()), "valid Borsh (word {} := {}) decoded to {:?}", k, x, r);
            } else {
                ensure!(r.is_none(), "word {} := {} (not below the prime) accepted", k, x);
            }
            ctx.point(1);
        }
    }
    // every word at the boundary of the prime
    for k in 0..words.len() {
        for (x, ok) in [(p - big(1), true), (p.clone(), false), (p + big(1), false), (pow2(8 * w) - big(1), false), (big(0), true)].iter() {
            if *x >= pow2(8 * w) {
                continue;
            }
            let mut ws = words.to_vec();
            ws[k] = x.clone();
            let c = enc(&ws, n);
            let r = T::try_from_slice(&c).ok().map(|d| d.try_to_vec().unwrap());
            ensure!(r.is_some() == *ok && (!*ok || r == Some(c)), "word {} := {}", k, x);
            ctx.point(1);
        }
    }
    ctx.outcome("Borsh mutations decided");
    Ok(())
}

fn num_cases<F: Field>(ctx: &Ctx, name: &str, elems: Vec<B>) {
    let p = modulus::<F>();
    let w = num_bytes::<F>();
    let items: Vec<_> = elems.into_iter().map(|x| (format!("{}/num {}", name, x), x)).collect();
    ctx.par(items, |x| {
        let n: Num<F> = num_of(x);
        json_suite(ctx, &n, json!(x.to_string()), &p, &|d| nbig(d) == *x)?;
        borsh_suite(ctx, &n, &[x.clone()], None, &p, w, &|d: &Num<F>| nbig(d) == *x)
    });
}

fn sized<F: Field, L: Unsigned>(ctx: &Ctx, name: &str) {
    let p = modulus::<F>();
    let n = L::USIZE;
    ctx.case(&format!("{}/SizedVec<{}>", name, n), || -> Res {
        let al = [big(0), &p - big(1), big(7), &p >> 1, big(1), &p >> 2];
        let xs: Vec<B> = (0..n).map(|i| al[i % al.len()].clone()).collect();
        let v: SizedVec<Num<F>, L> = xs.iter().map(num_of::<F>).collect();
        let js = |k: usize| Value::Array((0..k).map(|i| json!(al[i % al.len()].to_string())).collect());
        json_suite(ctx, &v, js(n), &p, &|d: &SizedVec<Num<F>, L>| d.iter().map(nbig).collect::<Vec<_>>() == xs)?;
        let path: SizedVec<bool, L> = (0..n).map(|i| i % 3 == 1).collect();
        let jp = |k: usize| Value::Array((0..k).map(|i| json!(i % 3 == 1)).collect());
        json_suite(ctx, &path, jp(n), &p, &|d: &SizedVec<bool, L>| d.iter().cloned().collect::<Vec<_>>() == path.0)?;
        let mp = MerkleProof::<F, L> { sibling: v.clone(), path: path.clone() };
        let want = json!({"sibling": js(n), "path": jp(n)});
        json_suite(ctx, &mp, want, &p, &|d: &MerkleProof<F, L>| {
            d.sibling.iter().map(nbig).collect::<Vec<_>>() == xs && d.path.0 == path.0
        })?;
        for k in 0..n + 70 {
            for l in 0..n + 3 {
                let ok = k == n;
                if l == 0 {
                    ensure!(serde_json::from_value::<SizedVec<Num<F>, L>>(js(k)).is_ok() == ok, "a list of {} decoded as SizedVec<{}>", k, n);
                    ensure!(serde_json::from_value::<SizedVec<bool, L>>(jp(k)).is_ok() == ok, "a list of {} flags decoded as SizedVec<{}>", k, n);
                    ensure!(guard(|| (0..k).collect::<SizedVec<usize, L>>()).is_ok() == ok, "collecting {} elements into SizedVec<{}>", k, n);
                }
                let r = serde_json::from_value::<MerkleProof<F, L>>(json!({"sibling": js(k), "path": jp(l)}));
                ensure!(r.is_ok() == (k == n && l == n), "Merkle proof with {} siblings and {} flags, depth {}", k, l, n);
                ctx.point(1);
            }
        }
        // nested
        let vv: SizedVec<SizedVec<Num<F>, L>, U2> = vec![v.clone(), v.clone()].into_iter().collect();
        json_suite(ctx, &vv, json!([js(n), js(n)]), &p, &|d: &SizedVec<SizedVec<Num<F>, L>, U2>| d.iter().all(|r| r.iter().map(nbig).collect::<Vec<_>>() == xs))
    });
}

fn points<F: Field>(ctx: &Ctx, name: &str) {
    let p = modulus::<F>();
    let al = [big(0), big(1), &p - big(1), &p >> 1, big(12345) % &p];
    for (i, x) in al.iter().enumerate() {
        let y = &al[(i * 2 + 2) % al.len()];
        ctx.case(&format!("{}/curve points {}", name, i), || -> Res {
            let w = json!({"x": x.to_string(), "y": y.to_string()});
            let e = EdwardsPoint::<F> { x: num_of(x), y: num_of(y) };
            json_suite(ctx, &e, w.clone(), &p, &|d| *d == e)?;
            let m = MontgomeryPoint::<F> { x: num_of(x), y: num_of(y) };
            json_suite(ctx, &m, w, &p, &|d| *d == m)
        });
    }
}

/// point data over any field, values taken from JSON (their fields are private)
fn data_suite<F: Field>(ctx: &Ctx, name: &str, xs: &[B], nic: usize) {
    let p = modulus::<F>();
    let w = num_bytes::<F>();
    ctx.case(&format!("{}/groth16 data, {} ic", name, nic), || -> Res {
        let x = |i: usize| xs[i % xs.len()].clone();
        let g1 = |i: usize| json!([x(i).to_string(), x(i + 1).to_string()]);
        // imaginary part first in JSON
        let g2 = |i: usize| json!([[x(i + 1).to_string(), x(i).to_string()], [x(i + 3).to_string(), x(i + 2).to_string()]]);
        let from = |v: &Value| -> Result<G1PointData<F>, String> { serde_json::from_value(v.clone()).map_err(|e| e.to_string()) };
        let d1 = from(&g1(0))?;
        json_suite(ctx, &d1, g1(0), &p, &|d| *d == d1)?;
        borsh_suite(ctx, &d1, &[x(0), x(1)], None, &p, w, &|d| *d == d1)?;
        let d2: G2PointData<F> = serde_json::from_value(g2(0)).map_err(|e| e.to_string())?;
        json_suite(ctx, &d2, g2(0), &p, &|d| *d == d2)?;
        borsh_suite(ctx, &d2, &[x(0), x(1), x(2), x(3)], None, &p, w, &|d| *d == d2)?;
        let pj = json!({"a": g1(0), "b": g2(2), "c": g1(6)});
        let pd: ProofData<F> = serde_json::from_value(pj.clone()).map_err(|e| e.to_string())?;
        json_suite(ctx, &pd, pj, &p, &|d| *d == pd)?;
        borsh_suite(ctx, &pd, &(0..8).map(|i| x(i)).collect::<Vec<_>>(), None, &p, w, &|d| *d == pd)?;
        let vj = json!({"alpha_g1": g1(0), "beta_g2": g2(2), "gamma_g2": g2(6), "delta_g2": g2(10),
            "ic": (0..nic).map(|i| g1(14 + 2 * i)).collect::<Vec<_>>()});
        let vd: TruncatedVerifyingKeyData<F> = serde_json::from_value(vj.clone()).map_err(|e| e.to_string())?;
        json_suite(ctx, &vd, vj, &p, &|d| *d == vd)?;
        borsh_suite(ctx, &vd, &(0..14 + 2 * nic).map(|i| x(i)).collect::<Vec<_>>(), Some(14), &p, w, &|d| *d == vd)
    });
}

/// sizes beyond the mutation suites: layout, round trip and wrong counts only
fn big_data<F: Field>(ctx: &Ctx, name: &str, sizes: &[usize]) {
    let p = modulus::<F>();
    let w = num_bytes::<F>();
    ctx.par(sizes.iter().map(|n| (format!("{}/key data with {} ic", name, n), *n)).collect(), |nic| {
        let x = |i: usize| (big(i as u64 * 1000003 + 7) * pow2(i % 200)) % &p;
        let g1 = |i: usize| json!([x(i).to_string(), x(i + 1).to_string()]);
        let g2 = |i: usize| json!([[x(i + 1).to_string(), x(i).to_string()], [x(i + 3).to_string(), x(i + 2).to_string()]]);
        let doc = |n: usize| json!({"alpha_g1": g1(0), "beta_g2": g2(2), "gamma_g2": g2(6), "delta_g2": g2(10), "ic": (0..n).map(|i| g1(14 + 2 * i)).collect::<Vec<_>>()});
        let vj = doc(*nic);
        let vd: TruncatedVerifyingKeyData<F> = serde_json::from_value(vj.clone()).map_err(|e| e.to_string())?;
        ensure!(serde_json::to_value(&vd).ok() == Some(vj.clone()), "JSON layout of {} ic", nic);
        let txt = serde_json::to_string(&vd).unwrap();
        ensure!(serde_json::from_str::<TruncatedVerifyingKeyData<F>>(&txt).ok().as_ref() == Some(&vd), "JSON round trip of {} ic", nic);
        let mut want = vec![];
        for i in 0..14 {
            want.extend(le_bytes(&x(i), w));
        }
        want.extend(&(*nic as u32).to_le_bytes());
        for i in 14..14 + 2 * nic {
            want.extend(le_bytes(&x(i), w));
        }
        ensure!(vd.try_to_vec().ok() == Some(want.clone()), "Borsh layout of {} ic", nic);
        ensure!(TruncatedVerifyingKeyData::<F>::try_from_slice(&want).ok().as_ref() == Some(&vd), "Borsh round trip of {} ic", nic);
        for cut in [1, w, 2 * w].iter().filter(|c| **c <= want.len()) {
            ensure!(guard(|| TruncatedVerifyingKeyData::<F>::try_from_slice(&want[..want.len() - cut]).is_err()) == Ok(true), "{} ic short of {} bytes accepted", nic, cut);
        }
        for d in [1u8, 255].iter() {
            let mut c = want.clone();
            c[14 * w] = c[14 * w].wrapping_add(*d);
            ensure!(guard(|| TruncatedVerifyingKeyData::<F>::try_from_slice(&c).is_err()) == Ok(true), "{} ic with a wrong count accepted", nic);
        }
        // the last word at the prime
        let l = want.len();
        let mut c = want.clone();
        c.splice(l - w.., le_bytes(&p, w));
        ensure!(guard(|| TruncatedVerifyingKeyData::<F>::try_from_slice(&c).is_err()) == Ok(true), "last word at the prime accepted");
        ctx.point(12);
        Ok(())
    });
}

fn big_sized<L: Unsigned>(ctx: &Ctx) {
    type F = fawkes_crypto::native::bn256::Fr;
    let n = L::USIZE;
    ctx.case(&format!("bn256.Fr/long SizedVec<{}>", n), || -> Res {
        let x = |i: usize| (big(i as u64 * 1000003 + 7) * pow2(i % 200)) % modulus::<F>();
        let js = |k: usize| Value::Array((0..k).map(|i| json!(x(i).to_string())).collect());
        let jp = |k: usize| Value::Array((0..k).map(|i| json!(i % 3 == 1)).collect());
        for k in n.saturating_sub(2)..n + 3 {
            for (sk, pk) in [(k, n), (n, k), (k, k)].iter() {
                let doc = json!({"sibling": js(*sk), "path": jp(*pk)});
                let ok = *sk == n && *pk == n;
                let txt = doc.to_string();
                let r = guard(|| serde_json::from_str::<MerkleProof<F, L>>(&txt).ok())?;
                ensure!(r.is_some() == ok, "Merkle proof with {} siblings and {} flags, depth {}", sk, pk, n);
                if let Some(r) = r {
                    ensure!(serde_json::to_value(&r).ok() == Some(doc), "round trip of a Merkle proof of depth {}", n);
                    ensure!((0..n).all(|i| nbig(&r.sibling[i]) == x(i) && r.path[i] == (i % 3 == 1)), "decoded Merkle proof of depth {}", n);
                }
                ctx.point(1);
            }
        }
        Ok(())
    });
}

/// all byte strings of short point data over a tiny field
fn tiny_bytes<const P: u64>(ctx: &Ctx) {
    ctx.par((0..=255u8).map(|a| (format!("F{}/borsh bytes {:02x}..", P, a), a)).collect(), |a| {
        for b in 0..=255u8 {
            let v = [*a, b];
            let ok = (*a as u64) < P && (b as u64) < P;
            let r = G1PointData::<Fp<P>>::try_from_slice(&v).ok().map(|d| d.try_to_vec().unwrap());
            ensure!(r == if ok { Some(v.to_vec()) } else { None }, "G1 data {:?} -> {:?}", v, r);
            ctx.point(1);
        }
        let r = Num::<Fp<P>>::try_from_slice(&[*a]).ok().map(|n| (n.0).0);
        ensure!(r == if (*a as u64) < P { Some(*a as u64) } else { None }, "Num bytes {} -> {:?}", a, r);
        Ok(())
    });
    ctx.case(&format!("F{}/json integers", P), || -> Res {
        for n in 0..70000u64 {
            let r = serde_json::from_value::<Num<Fp<P>>>(json!(n.to_string())).ok().map(|n| (n.0).0);
            ensure!(r == if n < P { Some(n) } else { None }, "JSON {} -> {:?}", n, r);
            ctx.point(1);
        }
        Ok(())
    });
}

macro_rules! engine {
    ($ctx:expr, $name:expr, $E:ty, $m:ident) => {{
        use pairing::$m as c;
        let ctx = $ctx;
        let p = modulus::<c::Fq>();
        let w = num_bytes::<c::Fq>();
        // real points: multiples of the generators, and infinity
        ctx.par((0..6u64).map(|k| (format!("{}/points {}", $name, k), k)).collect(), |k| {
            let s = felt::<<$E as pairing::ff::ScalarEngine>::Fr>(&if *k < 4 { big(*k) } else { &modulus::<<$E as pairing::ff::ScalarEngine>::Fr>() - big(*k) });
            let g1 = <$E as Engine>::G1Affine::one().mul(s).into_affine();
            let g2 = <$E as Engine>::G2Affine::one().mul(s).into_affine();
            let (w1, w2) = (mc::pair::xy1(&g1), mc::pair::xy2(&g2));
            let j1 = json!([w1[0].to_string(), w1[1].to_string()]);
            let j2 = json!([[w2[1].to_string(), w2[0].to_string()], [w2[3].to_string(), w2[2].to_string()]]);
            let d1 = G1PointData::<c::Fq>::from(g1);
            let d2 = G2PointData::<c::Fq>::from(g2);
            json_suite(ctx, &d1, j1.clone(), &p, &|d| *d == d1)?;
            json_suite(ctx, &d2, j2.clone(), &p, &|d| *d == d2)?;
            borsh_suite(ctx, &d1, &w1, None, &p, w, &|d| *d == d1)?;
            borsh_suite(ctx, &d2, &w2, None, &p, w, &|d| *d == d2)?;
            let pr = Proof::<$E>(bellman::groth16::Proof { a: g1, b: g2, c: <$E as Engine>::G1Affine::one() });
            let o = mc::pair::xy1(&<$E as Engine>::G1Affine::one());
            let jo = json!([o[0].to_string(), o[1].to_string()]);
            let pd = pr.into_data();
            json_suite(ctx, &pd, json!({"a": j1, "b": j2, "c": jo}), &p, &|d| *d == pd)?;
            let tvk = TruncatedVerifyingKey::<$E> { alpha_g1: g1, beta_g2: g2, gamma_g2: <$E as Engine>::G2Affine::one(), delta_g2: g2, ic: vec![<$E as Engine>::G1Affine::one(), g1] };
            let o = mc::pair::xy2(&<$E as Engine>::G2Affine::one());
            let jg = json!([[o[1].to_string(), o[0].to_string()], [o[3].to_string(), o[2].to_string()]]);
            let vd = tvk.into_data();
            json_suite(ctx, &vd, json!({"alpha_g1": j1, "beta_g2": j2, "gamma_g2": jg, "delta_g2": j2, "ic": [jo, j1]}), &p, &|d| *d == vd)
        });
    }};
}

fn main() {
    run(
        "C03",
        &["JSON numbers with leading zeros, a plus sign or digit separators denote the same integer and are not covered by the property",
          "unknown extra JSON object members are ignored by the decoder and not covered",
          "mutations: all single structural mutations of each document and all single bit flips and truncations of each Borsh encoding"],
        true,
        |ctx| {
            use fawkes_crypto::native::{bls12_381 as bl, bn256 as bn};
            use pairing::{bls12_381 as pbl, bn256 as pbn};
            fn al<F: Field>(ctx: &Ctx) -> Vec<B> {
                let v = alphabet::<F>(ctx.thorough());
                let st = ctx.t(5, 1);
                v.into_iter().step_by(st).collect()
            }
            num_cases::<Fp<13>>(ctx, "F13", (0..13).map(big).collect());
            num_cases::<Fp<251>>(ctx, "F251", (0..251).map(big).collect());
            num_cases::<Fp<257>>(ctx, "F257", (0..257).map(big).collect());
            num_cases::<bn::Fr>(ctx, "bn256.Fr", al::<bn::Fr>(ctx));
            num_cases::<bn::Fs>(ctx, "bn256.Fs", al::<bn::Fs>(ctx));
            num_cases::<pbn::Fq>(ctx, "bn256.Fq", al::<pbn::Fq>(ctx));
            num_cases::<bl::Fr>(ctx, "bls12_381.Fr", al::<bl::Fr>(ctx));
            num_cases::<bl::Fs>(ctx, "bls12_381.Fs", al::<bl::Fs>(ctx));
            num_cases::<pbl::Fq>(ctx, "bls12_381.Fq", al::<pbl::Fq>(ctx));
            tiny_bytes::<13>(ctx);
            tiny_bytes::<251>(ctx);
            macro_rules! sz { ($F:ty, $n:expr, $($L:ty),*) => { $( sized::<$F, $L>(ctx, $n); )* } }
            sz!(Fp<251>, "F251", U0, U1, U2, U3, U4, U5, U8, U16, U33);
            sz!(bn::Fr, "bn256.Fr", U0, U1, U2, U3, U4, U7, U32);
            sz!(bl::Fr, "bls12_381.Fr", U1, U2, U3);
            points::<Fp<251>>(ctx, "F251");
            points::<bn::Fr>(ctx, "bn256.Fr");
            points::<bl::Fr>(ctx, "bls12_381.Fr");
            let distinct: Vec<B> = (0..31).map(|i| big(3 + 7 * i)).collect();
            for nic in 0..ctx.t(4, 8) {
                data_suite::<Fp<251>>(ctx, "F251", &distinct, nic);
            }
            let a = alphabet::<pbn::Fq>(false);
            data_suite::<pbn::Fq>(ctx, "bn256.Fq", &a[20..51], 2);
            let b = alphabet::<pbl::Fq>(false);
            data_suite::<pbl::Fq>(ctx, "bls12_381.Fq", &b[20..51], ctx.t(1, 3));
            let sizes: Vec<usize> = (4..=ctx.t(40, 600)).chain([63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 1000].iter().cloned()).collect();
            big_data::<Fp<251>>(ctx, "F251", &sizes);
            big_data::<pbn::Fq>(ctx, "bn256.Fq", &sizes);
            big_data::<pbl::Fq>(ctx, "bls12_381.Fq", &[5, 17, 33, 64, 100, 256]);
            big_sized::<U64>(ctx);
            big_sized::<U65>(ctx);
            big_sized::<U100>(ctx);
            big_sized::<U128>(ctx);
            big_sized::<U256>(ctx);
            big_sized::<U300>(ctx);
            big_sized::<U1000>(ctx);
            engine!(ctx, "bn256", pbn::Bn256, bn256);
            engine!(ctx, "bls12_381", pbl::Bls12, bls12_381);
        },
    );
}
