//! C20: proofs and keys are imported only when well-formed, and round-trip.
use fawkes_crypto::helpers::groth16::prover::{Proof, ProofData};
use fawkes_crypto::helpers::groth16::verifier::{TruncatedVerifyingKey, TruncatedVerifyingKeyData};
use fawkes_crypto::helpers::groth16::{G1PointData, G2PointData};
use ff::{Field, PrimeField, SqrtField};
use mc::big::*;
use mc::ensure;
use mc::report::{guard, run, Ctx, Res};
use mc::toy::{Toy, G1A, G2A};
use pairing::{CurveAffine, CurveProjective, EncodedPoint, Engine};
use serde_json::{json, Value};
use std::io::{self, Read, Write};

// ---------------------------------------------------------------- faulty streams

/// gives `data` in pieces of at most `chunk` bytes, then `end`
struct Src<'a> {
    data: &'a [u8],
    pos: usize,
    chunk: usize,
    /// position at which an error is raised (once, for Interrupted)
    fault: Option<(usize, io::ErrorKind)>,
    /// any error is raised once only
    once: bool,
}
impl<'a> Read for Src<'a> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let mut n = buf.len().min(self.chunk).min(self.data.len() - self.pos);
        if let Some((at, k)) = self.fault {
            if self.pos >= at {
                if k == io::ErrorKind::Interrupted || self.once {
                    self.fault = None;
                }
                return Err(io::Error::new(k, "injected"));
            }
            n = n.min(at - self.pos);
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
struct Dst {
    out: Vec<u8>,
    chunk: usize,
    fault: Option<(usize, Option<io::ErrorKind>)>,
    once: bool,
}
impl Write for Dst {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let mut n = buf.len().min(self.chunk);
        if let Some((at, k)) = self.fault {
            if self.out.len() >= at {
                if self.once {
                    self.fault = None;
                }
                match k {
                    Some(io::ErrorKind::Interrupted) => {
                        self.fault = None;
                        return Err(io::ErrorKind::Interrupted.into());
                    }
                    Some(k) => return Err(io::Error::new(k, "injected")),
                    None => return Ok(0),
                }
            }
            n = n.min(at - self.out.len());
        }
        self.out.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
fn same<E: Engine>(a: &TruncatedVerifyingKey<E>, b: &TruncatedVerifyingKey<E>) -> bool {
    a.alpha_g1 == b.alpha_g1 && a.beta_g2 == b.beta_g2 && a.gamma_g2 == b.gamma_g2 && a.delta_g2 == b.delta_g2 && a.ic == b.ic
}
fn parts<E: Engine>(a: &TruncatedVerifyingKey<E>) -> Vec<Vec<u8>> {
    let mut v = vec![a.alpha_g1.into_compressed().as_ref().to_vec(), a.beta_g2.into_compressed().as_ref().to_vec(), a.gamma_g2.into_compressed().as_ref().to_vec(), a.delta_g2.into_compressed().as_ref().to_vec()];
    v.extend(a.ic.iter().map(|x| x.into_compressed().as_ref().to_vec()));
    v
}

/// what the bytes of one element mean: Some(element) when acceptable
fn element<G: CurveAffine>(b: &[u8]) -> Option<G> {
    let mut r = G::Compressed::empty();
    r.as_mut().copy_from_slice(b);
    let g = r.into_affine().ok()?;
    if g.is_zero() || !g.mul(G::Scalar::char()).is_zero() {
        return None;
    }
    Some(g)
}
/// the key a byte string denotes (None: must be refused)
fn decode<E: Engine>(b: &[u8]) -> Option<TruncatedVerifyingKey<E>> {
    let (l1, l2) = (<E::G1Affine as CurveAffine>::Compressed::size(), <E::G2Affine as CurveAffine>::Compressed::size());
    let head = l1 + 3 * l2;
    if b.len() < head || (b.len() - head) % l1 != 0 {
        return None;
    }
    let g2 = |k: usize| element::<E::G2Affine>(&b[l1 + k * l2..l1 + (k + 1) * l2]);
    Some(TruncatedVerifyingKey {
        alpha_g1: element::<E::G1Affine>(&b[..l1])?,
        beta_g2: g2(0)?,
        gamma_g2: g2(1)?,
        delta_g2: g2(2)?,
        ic: b[head..].chunks(l1).map(element::<E::G1Affine>).collect::<Option<Vec<_>>>()?,
    })
}
fn read_is<E: Engine>(ctx: &Ctx, what: &str, b: &[u8], src: Src) -> Res {
    let (fault, once) = (src.fault, src.once);
    let r = guard(|| TruncatedVerifyingKey::<E>::read(src)).map_err(|m| format!("{}: read panics: {}", what, m))?;
    ctx.point(1);
    let want = decode::<E>(b);
    match fault {
        Some((at, kind)) if once || kind == io::ErrorKind::Interrupted => {
            if let Ok(k) = r {
                ensure!(want.as_ref().map_or(false, |w| same(w, &k)), "{}: after an interruption at {} another key was read", what, at);
            }
        }
        Some((at, k)) => {
            ensure!(r.is_err(), "{}: stream failing ({:?}) at byte {} of {} gave a key", what, k, at, b.len());
            ctx.outcome("failing stream reported");
        }
        None => match (r, want) {
            (Ok(k), Some(w)) => {
                ensure!(same(&k, &w), "{}: {:02x?} read as another key", what, b);
                ctx.outcome("key read");
            }
            (Err(_), None) => ctx.outcome("malformed key refused"),
            (Ok(_), None) => return Err(format!("{}: malformed bytes {:02x?} gave a key", what, b)),
            (Err(e), Some(w)) => {
                ensure!(w.ic.is_empty(), "{}: well-formed bytes {:02x?} refused: {}", what, b, e);
            }
        },
    }
    Ok(())
}

/// all streams over a byte alphabet on the toy engine
fn toy<const P: u64>(ctx: &Ctx, nic: usize, junk: bool) {
    let g1: Vec<Vec<u8>> = (0..=P).flat_map(|x| (0..=junk as u8).map(move |j| vec![x as u8, j])).collect();
    let g2: Vec<Vec<u8>> = (0..=2 * P).flat_map(|x| (0..=junk as u8).map(move |j| vec![x as u8, 0, j])).collect();
    let heads: Vec<(String, Vec<u8>)> = g1.iter().flat_map(|a| g2.iter().map(move |b| [&a[..], &b[..]].concat())).map(|v| (format!("Z{}/key bytes {:02x?} {} more", P, v, nic), v)).collect();
    ctx.par(heads, |h| {
        for b in &g2 {
            for c in &g2 {
                for ic in mc::gad::tuples(g1.len() as u64, nic) {
                    let mut v = [&h[..], b, c].concat();
                    for k in ic {
                        v.extend_from_slice(&g1[k as usize]);
                    }
                    read_is::<Toy<P>>(ctx, "toy", &v, Src { data: &v, pos: 0, chunk: usize::max_value(), fault: None, once: false })?;
                    if nic == 1 {
                        let cut = &v[..v.len() - 1];
                        read_is::<Toy<P>>(ctx, "toy", cut, Src { data: cut, pos: 0, chunk: 2, fault: None, once: false })?;
                    }
                }
            }
        }
        Ok(())
    });
}
/// every fault position, piece size and truncation of one key
fn streams<E: Engine>(ctx: &Ctx, tag: &str, key: &TruncatedVerifyingKey<E>, full: bool) {
    let bytes: Vec<u8> = parts(key).concat();
    let kinds = [io::ErrorKind::Other, io::ErrorKind::UnexpectedEof, io::ErrorKind::ConnectionReset, io::ErrorKind::WouldBlock, io::ErrorKind::Interrupted, io::ErrorKind::InvalidData, io::ErrorKind::TimedOut];
    let n = bytes.len();
    ctx.par((0..=n).map(|k| (format!("{}/stream of {} elements cut or failing at byte {}", tag, key.ic.len() + 4, k), k)).collect(), |k| {
        let chunks: &[usize] = if full { &[1, 3, 7, 32, 48, 1 << 20] } else { &[5, 1 << 20] };
        for chunk in chunks.iter().cloned() {
            read_is::<E>(ctx, tag, &bytes[..*k], Src { data: &bytes[..*k], pos: 0, chunk, fault: None, once: false })?;
            for kind in kinds.iter().take(if full { 7 } else { 5 }) {
                read_is::<E>(ctx, tag, &bytes, Src { data: &bytes, pos: 0, chunk, fault: Some((*k, *kind)), once: false })?;
                read_is::<E>(ctx, tag, &bytes, Src { data: &bytes, pos: 0, chunk, fault: Some((*k, *kind)), once: true })?;
            }
            // writing
            for (f, once) in kinds.iter().map(|k| Some(*k)).chain(Some(None)).flat_map(|f| vec![(f, false), (f, true)]) {
                let mut d = Dst { out: vec![], chunk, fault: Some((*k, f)), once };
                let r = guard(|| key.write(&mut d)).map_err(|m| format!("write panics: {}", m))?;
                ctx.point(1);
                if r.is_ok() {
                    ensure!(d.out == bytes, "writing with a fault at {} ({:?}, pieces of {}) reported success but wrote {} of {} bytes", k, f, chunk, d.out.len(), n);
                } else {
                    ctx.outcome("failing write reported");
                    ensure!(*k < n, "write failed although the fault lies behind the data");
                }
            }
            let mut d = Dst { out: vec![], chunk, fault: None, once: false };
            ensure!(key.write(&mut d).is_ok() && d.out == bytes, "wrote {:02x?} instead of {:02x?}", d.out, bytes);
        }
        Ok(())
    });
    // appended bytes
    ctx.case(&format!("{}/appended bytes ({} elements)", tag, key.ic.len() + 4), || {
        for l in 1..=2 * <E::G1Affine as CurveAffine>::Compressed::size() + 1 {
            for fill in [0u8, 1, 0xff].iter() {
                let mut v = bytes.clone();
                v.extend(vec![*fill; l]);
                read_is::<E>(ctx, tag, &v, Src { data: &v, pos: 0, chunk: usize::max_value(), fault: None, once: false })?;
            }
            let mut v = bytes.clone();
            v.extend(bytes.iter().take(l));
            read_is::<E>(ctx, tag, &v, Src { data: &v, pos: 0, chunk: 9, fault: None, once: false })?;
        }
        Ok(())
    });
}

// ---------------------------------------------------------------- production engines

fn s(x: &BigUint) -> Value {
    json!(x.to_string())
}
fn j1(c: &[BigUint]) -> Value {
    json!([s(&c[0]), s(&c[1])])
}
/// coordinates as x.c0, x.c1, y.c0, y.c1
fn j2(c: &[BigUint]) -> Value {
    json!([[s(&c[1]), s(&c[0])], [s(&c[3]), s(&c[2])]])
}

macro_rules! engine {
    ($ctx:expr, $tag:expr, $E:ty, $m:ident, $b1:expr, $b2:expr, $g1cof:expr) => {{
        use pairing::$m as c;
        type E1 = <$E as Engine>::G1Affine;
        type E2 = <$E as Engine>::G2Affine;
        let ctx: &Ctx = $ctx;
        let tag = $tag;
        let q = modulus::<c::Fq>();
        let fq = |x: &BigUint| -> c::Fq { felt::<c::Fq>(x) };
        let fq2 = |a: &BigUint, b: &BigUint| c::Fq2 { c0: felt::<c::Fq>(a), c1: felt::<c::Fq>(b) };
        let b1: c::Fq = $b1;
        let b2: c::Fq2 = $b2;
        fn rhs<F: Field>(x: &F, b: &F) -> F {
            let mut t = *x;
            t.square();
            t.mul_assign(x);
            t.add_assign(b);
            t
        }
        // raw points: through the pairing library's unchecked uncompressed decoding
        let pt1 = |v: &[BigUint]| -> E1 {
            let mut u = <E1 as CurveAffine>::Uncompressed::empty();
            let w = u.as_ref().len() / 2;
            for i in 0..2 {
                u.as_mut()[w * i..w * (i + 1)].copy_from_slice(&be(&v[i], w));
            }
            u.into_affine_unchecked().unwrap()
        };
        let pt2 = |v: &[BigUint]| -> E2 {
            let mut u = <E2 as CurveAffine>::Uncompressed::empty();
            let w = u.as_ref().len() / 4;
            for (i, k) in [1, 0, 3, 2].iter().enumerate() {
                u.as_mut()[w * i..w * (i + 1)].copy_from_slice(&be(&v[*k], w));
            }
            u.into_affine_unchecked().unwrap()
        };
        let ok1 = |v: &[BigUint]| -> bool {
            if v.iter().all(|x| *x == big(0)) {
                return true;
            }
            let mut y = fq(&v[1]);
            y.square();
            y == rhs(&fq(&v[0]), &b1) && pt1(v).mul(c::Fr::char()).is_zero()
        };
        let ok2 = |v: &[BigUint]| -> bool {
            if v.iter().all(|x| *x == big(0)) {
                return true;
            }
            let mut y = fq2(&v[2], &v[3]);
            y.square();
            y == rhs(&fq2(&v[0], &v[1]), &b2) && pt2(v).mul(c::Fr::char()).is_zero()
        };
        // ---- candidate coordinates
        let gen1: Vec<E1> = [1u64, 2, 3, 7].iter().flat_map(|k| { let p = E1::one().mul(felt::<c::Fr>(&big(*k))).into_affine(); let mut n = p; n.negate(); vec![p, n] }).collect();
        let gen2: Vec<E2> = [1u64, 2, 3, 7].iter().flat_map(|k| { let p = E2::one().mul(felt::<c::Fr>(&big(*k))).into_affine(); let mut n = p; n.negate(); vec![p, n] }).collect();
        let mut c1: Vec<Vec<BigUint>> = vec![vec![big(0); 2]];
        let mut c2: Vec<Vec<BigUint>> = vec![vec![big(0); 4]];
        for p in &gen1 {
            let v = mc::pair::xy1(p);
            c1.push(v.clone());
            c1.push(vec![v[1].clone(), v[0].clone()]);
            for i in 0..2 {
                for d in [big(1), &q - big(1)].iter() {
                    let mut w = v.clone();
                    w[i] = (&w[i] + d) % &q;
                    c1.push(w);
                }
                let mut w = v.clone();
                w[i] = big(0);
                c1.push(w);
            }
        }
        for p in &gen2 {
            let v = mc::pair::xy2(p);
            c2.push(v.clone());
            c2.push(vec![v[1].clone(), v[0].clone(), v[3].clone(), v[2].clone()]);
            c2.push(vec![v[2].clone(), v[3].clone(), v[0].clone(), v[1].clone()]);
            for i in 0..4 {
                for d in [big(1), &q - big(1)].iter() {
                    let mut w = v.clone();
                    w[i] = (&w[i] + d) % &q;
                    c2.push(w);
                }
                let mut w = v.clone();
                w[i] = big(0);
                c2.push(w.clone());
                w[i] = (&q - &v[i]) % &q;
                c2.push(w);
            }
            for m in [3usize, 12, 7, 11, 13, 14].iter() {
                c2.push((0..4).map(|i| if m >> i & 1 == 1 { big(0) } else { v[i].clone() }).collect());
            }
        }
        // curve points with a small x (mostly outside the subgroup), both roots; and their sums with subgroup points
        let mut off2: Vec<E2> = vec![];
        for x in 0..ctx.t(12u64, 60) {
            if let Some(y) = rhs(&fq(&big(x)), &b1).sqrt() {
                let y = fbig(&y);
                c1.push(vec![big(x), y.clone()]);
                c1.push(vec![big(x), (&q - &y) % &q]);
                let t = pt1(&[big(x), y]);
                let mut sum = t.into_projective();
                sum.add_assign_mixed(&gen1[0]);
                c1.push(mc::pair::xy1(&sum.into_affine()));
                c1.push(mc::pair::xy1(&t.mul(c::Fr::char()).into_affine()));
            } else {
                c1.push(vec![big(x), big(1)]);
            }
            for x1 in 0..3u64 {
                let xx = fq2(&big(x), &big(x1));
                if let Some(y) = rhs(&xx, &b2).sqrt() {
                    let v = vec![big(x), big(x1), fbig(&y.c0), fbig(&y.c1)];
                    let t = pt2(&v);
                    c2.push(v);
                    // pure cofactor part, and a subgroup point plus a cofactor part
                    let r = t.mul(c::Fr::char());
                    let mut sum = r;
                    sum.add_assign_mixed(&gen2[0]);
                    for p in [r.into_affine(), sum.into_affine()].iter() {
                        if !p.is_zero() {
                            c2.push(mc::pair::xy2(p));
                            if off2.len() < 4 {
                                off2.push(*p);
                            }
                        }
                    }
                    if off2.len() < 3 {
                        off2.push(t);
                    }
                }
            }
        }
        c1.sort();
        c1.dedup();
        c2.sort();
        c2.dedup();
        ctx.sample(format!("{}: {} G1 and {} G2 coordinate candidates, {} off-subgroup G2 points", tag, c1.len(), c2.len(), off2.len()));
        // ---- data import, point by point
        let q1: Vec<(String, Vec<BigUint>)> = c1.iter().map(|v| (format!("{}/G1 data {:?}", tag, v.iter().map(|x| x.to_string()).collect::<Vec<_>>()), v.clone())).collect();
        ctx.par(q1, |v| {
            let d: G1PointData<c::Fq> = serde_json::from_value(j1(v)).map_err(|e| e.to_string())?;
            let r = guard(|| -> E1 { d.into() });
            let want = ok1(v);
            ctx.point(1);
            ensure!(r.is_ok() == want, "import {} (belongs to the group: {})", if r.is_ok() { "accepted" } else { "refused" }, want);
            if let Ok(p) = r {
                ensure!(mc::pair::xy1(&p) == *v && p.is_zero() == (v[0] == big(0) && v[1] == big(0)), "imported as another point");
                ensure!(G1PointData::<c::Fq>::from(p) == d, "does not export to the same data");
                ctx.outcome("G1 data accepted");
            } else {
                ctx.outcome("G1 data refused");
            }
            Ok(())
        });
        let q2: Vec<(String, Vec<BigUint>)> = c2.iter().map(|v| (format!("{}/G2 data {:?}", tag, v.iter().map(|x| x.to_string()).collect::<Vec<_>>()), v.clone())).collect();
        ctx.par(q2, |v| {
            let d: G2PointData<c::Fq> = serde_json::from_value(j2(v)).map_err(|e| e.to_string())?;
            let r = guard(|| -> E2 { d.into() });
            let want = ok2(v);
            ctx.point(1);
            ensure!(r.is_ok() == want, "import {} (belongs to the group: {})", if r.is_ok() { "accepted" } else { "refused" }, want);
            if let Ok(p) = r {
                ensure!(mc::pair::xy2(&p) == *v && p.is_zero() == v.iter().all(|x| *x == big(0)), "imported as another point");
                ensure!(G2PointData::<c::Fq>::from(p) == d, "does not export to the same data");
                ctx.outcome("G2 data accepted");
            } else {
                ctx.outcome("G2 data refused");
            }
            Ok(())
        });
        // ---- proofs and keys: every position with every kind of bad point
        let bad1: Vec<Vec<BigUint>> = c1.iter().filter(|v| !ok1(v)).cloned().collect();
        let bad2: Vec<Vec<BigUint>> = c2.iter().filter(|v| !ok2(v)).cloned().collect();
        let on_curve_bad2: Vec<Vec<BigUint>> = off2.iter().map(|p| mc::pair::xy2(p)).collect();
        let pick = |v: &Vec<Vec<BigUint>>, n: usize| -> Vec<Vec<BigUint>> { let k = v.len() / n + 1; v.iter().step_by(k).cloned().collect() };
        let mut bad2s = pick(&bad2, ctx.t(6, 30));
        bad2s.extend(on_curve_bad2.iter().cloned());
        let mut bad1s = pick(&bad1, ctx.t(6, 30));
        if $g1cof {
            bad1s.push(vec![big(0), big(2)]);
        }
        let g1 = |k: usize| mc::pair::xy1(&gen1[k % gen1.len()]);
        let g2 = |k: usize| mc::pair::xy2(&gen2[k % gen2.len()]);
        ctx.par((0..3usize).map(|k| (format!("{}/proof data, position {}", tag, k), k)).collect(), |pos| {
            let good = [j1(&g1(0)), j2(&g2(1)), j1(&g1(2))];
            let mut tries: Vec<Option<Value>> = vec![None];
            if *pos == 1 { tries.extend(bad2s.iter().map(|v| Some(j2(v)))); } else { tries.extend(bad1s.iter().map(|v| Some(j1(v)))); }
            for t in tries {
                let mut e = good.clone();
                if let Some(v) = &t { e[*pos] = v.clone(); }
                let d: ProofData<c::Fq> = serde_json::from_value(json!({"a": e[0], "b": e[1], "c": e[2]})).map_err(|e| e.to_string())?;
                let r = guard(|| Proof::<$E>::from_data(&d));
                ctx.point(1);
                ensure!(r.is_ok() == t.is_none(), "proof data with {:?} at {}: accepted {}", t, pos, r.is_ok());
                if let Ok(p) = r {
                    ensure!(p.into_data() == d && mc::pair::xy1(&p.0.a) == g1(0) && mc::pair::xy2(&p.0.b) == g2(1) && mc::pair::xy1(&p.0.c) == g1(2), "proof data does not round-trip");
                }
            }
            // infinity is representable in data form
            let mut e = good.clone();
            e[*pos] = if *pos == 1 { j2(&vec![big(0); 4]) } else { j1(&vec![big(0); 2]) };
            let d: ProofData<c::Fq> = serde_json::from_value(json!({"a": e[0], "b": e[1], "c": e[2]})).map_err(|e| e.to_string())?;
            let p = guard(|| Proof::<$E>::from_data(&d)).map_err(|m| format!("infinity at {} panics: {}", pos, m))?;
            ensure!((p.0.a.is_zero(), p.0.b.is_zero(), p.0.c.is_zero()) == (*pos == 0, *pos == 1, *pos == 2) && p.into_data() == d, "infinity at {} does not round-trip", pos);
            Ok(())
        });
        // ---- export of points that were computed, not imported: every pattern of infinities
        ctx.par((0..256usize).map(|k| (format!("{}/computed points, infinities {:08b}", tag, k), k)).collect(), |mask| {
            let zeros1 = [E1::zero(), E1::one().mul(c::Fr::char()).into_affine(), { let mut z = E1::zero(); z.negate(); z }];
            let zeros2 = [E2::zero(), E2::one().mul(c::Fr::char()).into_affine(), { let mut z = E2::zero(); z.negate(); z }];
            for k in 0..zeros1.len() {
                let on = |i: usize| mask >> i & 1 == 1;
                let e1 = |i: usize| if on(i) { (zeros1[k], vec![big(0); 2]) } else { (gen1[(i + k) % gen1.len()], g1(i + k)) };
                let e2 = |i: usize| if on(i) { (zeros2[k], vec![big(0); 4]) } else { (gen2[(i + k) % gen2.len()], g2(i + k)) };
                let p = Proof::<$E>(bellman::groth16::Proof { a: e1(0).0, b: e2(1).0, c: e1(2).0 });
                let want: ProofData<c::Fq> = serde_json::from_value(json!({"a": j1(&e1(0).1), "b": j2(&e2(1).1), "c": j1(&e1(2).1)})).map_err(|e| e.to_string())?;
                let d = p.into_data();
                ensure!(d == want, "a computed proof exports to {:?}", d);
                let r = guard(|| Proof::<$E>::from_data(&d)).map_err(|m| format!("an exported proof is refused: {}", m))?;
                ensure!(r.0.a == p.0.a && r.0.b == p.0.b && r.0.c == p.0.c, "an exported proof comes back as another");
                let key = TruncatedVerifyingKey::<$E> { alpha_g1: e1(0).0, beta_g2: e2(1).0, gamma_g2: e2(3).0, delta_g2: e2(4).0, ic: vec![e1(2).0, e1(5).0, e1(6).0, e1(7).0] };
                let want: TruncatedVerifyingKeyData<c::Fq> = serde_json::from_value(json!({"alpha_g1": j1(&e1(0).1), "beta_g2": j2(&e2(1).1), "gamma_g2": j2(&e2(3).1), "delta_g2": j2(&e2(4).1), "ic": [j1(&e1(2).1), j1(&e1(5).1), j1(&e1(6).1), j1(&e1(7).1)]})).map_err(|e| e.to_string())?;
                let d = key.into_data();
                ensure!(d == want, "a computed key exports to {:?}", d);
                let r = guard(|| TruncatedVerifyingKey::<$E>::from_data(&d)).map_err(|m| format!("an exported key is refused: {}", m))?;
                ensure!(same(&r, &key), "an exported key comes back as another");
                ctx.point(4);
            }
            Ok(())
        });
        ctx.par((0..8usize).flat_map(|n| (0..4 + n).map(move |k| (format!("{}/key data with {} elements, position {}", tag, n, k), (n, k)))).collect(), |(n, pos)| {
            let g2pos = *pos >= 1 && *pos <= 3;
            let build = |bad: Option<&Value>| {
                let mut e: Vec<Value> = vec![j1(&g1(3)), j2(&g2(0)), j2(&g2(1)), j2(&g2(2))];
                e.extend((0..*n).map(|i| j1(&g1(i))));
                if let Some(v) = bad { e[*pos] = v.clone(); }
                json!({"alpha_g1": e[0], "beta_g2": e[1], "gamma_g2": e[2], "delta_g2": e[3], "ic": e[4..].to_vec()})
            };
            let mut tries: Vec<Option<Value>> = vec![None];
            if g2pos { tries.extend(bad2s.iter().map(|v| Some(j2(v)))); } else { tries.extend(bad1s.iter().map(|v| Some(j1(v)))); }
            for t in tries.iter().step_by(if *n > 2 { 3 } else { 1 }) {
                let d: TruncatedVerifyingKeyData<c::Fq> = serde_json::from_value(build(t.as_ref())).map_err(|e| e.to_string())?;
                let r = guard(|| TruncatedVerifyingKey::<$E>::from_data(&d));
                ctx.point(1);
                ensure!(r.is_ok() == t.is_none(), "key data with {:?}: accepted {}", t, r.is_ok());
                if let Ok(p) = r {
                    ensure!(p.into_data() == d, "key data does not round-trip");
                    ensure!(mc::pair::xy1(&p.alpha_g1) == g1(3) && mc::pair::xy2(&p.beta_g2) == g2(0) && mc::pair::xy2(&p.gamma_g2) == g2(1) && mc::pair::xy2(&p.delta_g2) == g2(2) && p.ic.iter().map(|x| mc::pair::xy1(x)).eq((0..*n).map(|i| g1(i))), "key data imported as another key");
                    // the same key through its binary form
                    let mut b = vec![];
                    p.write(&mut b).map_err(|e| e.to_string())?;
                    ensure!(b == parts(&p).concat(), "binary form is not the sequence of compressed elements");
                    if *n > 0 {
                        let r = TruncatedVerifyingKey::<$E>::read(&b[..]).map_err(|e| format!("written key refused: {}", e))?;
                        ensure!(same(&r, &p), "binary form reads back as another key");
                    }
                }
            }
            // infinity
            let inf = if g2pos { j2(&vec![big(0); 4]) } else { j1(&vec![big(0); 2]) };
            let d: TruncatedVerifyingKeyData<c::Fq> = serde_json::from_value(build(Some(&inf))).map_err(|e| e.to_string())?;
            let p = guard(|| TruncatedVerifyingKey::<$E>::from_data(&d)).map_err(|m| format!("infinity panics: {}", m))?;
            ensure!(p.into_data() == d, "infinity does not round-trip");
            let mut b = vec![];
            p.write(&mut b).map_err(|e| e.to_string())?;
            ensure!(TruncatedVerifyingKey::<$E>::read(&b[..]).is_err(), "binary key with infinity at {} accepted", pos);
            ctx.point(2);
            Ok(())
        });
        ctx.par([8usize, 16, 17, 31, 32, 33, 64, 65, 100, 128, 129, 255, 256, 257, 300].iter().take(ctx.t(10, 15)).map(|n| (format!("{}/key with {} elements", tag, n), *n)).collect(), |n| {
            let e: Vec<Value> = (0..*n).map(|i| j1(&g1(i))).collect();
            for bad in [None, Some(0), Some(n / 2), Some(n - 1)].iter() {
                let mut e = e.clone();
                if let Some(k) = bad { e[*k] = j1(&bad1s[k % bad1s.len()]); }
                let d: TruncatedVerifyingKeyData<c::Fq> = serde_json::from_value(json!({"alpha_g1": j1(&g1(3)), "beta_g2": j2(&g2(0)), "gamma_g2": j2(&g2(1)), "delta_g2": j2(&g2(2)), "ic": e})).map_err(|e| e.to_string())?;
                let r = guard(|| TruncatedVerifyingKey::<$E>::from_data(&d));
                ctx.point(1);
                ensure!(r.is_ok() == bad.is_none(), "key data with {} elements, bad one at {:?}: accepted {}", n, bad, r.is_ok());
                if let Ok(p) = r {
                    ensure!(p.into_data() == d && p.ic.iter().map(|x| mc::pair::xy1(x)).eq((0..*n).map(|i| g1(i))), "key data with {} elements imported as another key", n);
                    let mut b = vec![];
                    p.write(&mut b).map_err(|e| e.to_string())?;
                    ensure!(b == parts(&p).concat(), "binary form of {} elements is not the sequence of compressed elements", n);
                    let r = TruncatedVerifyingKey::<$E>::read(&b[..]).map_err(|e| format!("written key refused: {}", e))?;
                    ensure!(same(&r, &p), "binary form of {} elements reads back as another key", n);
                    let l = b.len();
                    ensure!(TruncatedVerifyingKey::<$E>::read(&b[..l - 1]).is_err(), "binary key of {} elements short of a byte accepted", n);
                }
            }
            Ok(())
        });
        // ---- binary keys: faults, and every element position replaced
        let key = |n: usize| TruncatedVerifyingKey::<$E> { alpha_g1: gen1[0], beta_g2: gen2[1], gamma_g2: gen2[2], delta_g2: gen2[4], ic: (0..n).map(|i| gen1[i % gen1.len()]).collect() };
        streams(ctx, tag, &key(ctx.t(1, 3)), ctx.thorough());
        let enc1: Vec<Vec<u8>> = {
            let mut v: Vec<Vec<u8>> = vec![E1::zero().into_compressed().as_ref().to_vec()];
            let w = v[0].len();
            for x in [&q - big(1), q.clone(), &q + big(1), big(0), big(5), big(6), big(7), big(8)].iter() {
                for f in 0..8u8 { let mut b = be(x, w); b[0] |= f << 5; v.push(b); }
            }
            for t in bad1s.iter() {
                let mut y = fq(&t[1]);
                y.square();
                if y == rhs(&fq(&t[0]), &b1) { v.push(pt1(t).into_compressed().as_ref().to_vec()); }
            }
            v.push(vec![0; w]);
            v.push(vec![0xff; w]);
            v
        };
        let enc2: Vec<Vec<u8>> = {
            let mut v: Vec<Vec<u8>> = vec![E2::zero().into_compressed().as_ref().to_vec()];
            let w = v[0].len();
            for p in &off2 { v.push(p.into_compressed().as_ref().to_vec()); }
            for x in [&q - big(1), q.clone(), big(0), big(1), big(5)].iter() {
                for f in 0..8u8 { for lo in [0u64, 1, 2].iter() { let mut b = be(x, w / 2); b[0] |= f << 5; b.extend(be(&big(*lo), w / 2)); v.push(b); } }
            }
            v.push(vec![0; w]);
            v.push(vec![0xff; w]);
            v
        };
        ctx.par((0..4usize).flat_map(|n| (0..4 + n).map(move |k| (n, k))).filter(|(n, _)| *n == 1 || *n == 3).map(|(n, k)| (format!("{}/binary key with {} elements, position {}", tag, n, k), (n, k))).collect(), |(n, pos)| {
            let good = parts(&key(*n));
            for e in if *pos >= 1 && *pos <= 3 { &enc2 } else { &enc1 } {
                let mut p = good.clone();
                p[*pos] = e.clone();
                let b = p.concat();
                read_is::<$E>(ctx, tag, &b, Src { data: &b, pos: 0, chunk: usize::max_value(), fault: None, once: false })?;
            }
            ctx.beat();
            Ok(())
        });
        // every single bit of a key
        let kb: Vec<u8> = parts(&key(1)).concat();
        ctx.par((0..kb.len()).map(|k| (format!("{}/binary key, bits of byte {}", tag, k), k)).collect(), |k| {
            for bit in (0..8).filter(|b| ctx.thorough() || (b + k) % 4 == 0) {
                let mut b = kb.clone();
                b[*k] ^= 1 << bit;
                read_is::<$E>(ctx, tag, &b, Src { data: &b, pos: 0, chunk: usize::max_value(), fault: None, once: false })?;
            }
            Ok(())
        });
        // ---- binary proofs
        let l1 = <E1 as CurveAffine>::Compressed::size();
        let l2 = <E2 as CurveAffine>::Compressed::size();
        let proof_is = |what: &str, b: &[u8], src: Src| -> Res {
            let (fault, once) = (src.fault, src.once);
            let r = guard(|| Proof::<$E>::read(src)).map_err(|m| format!("{}: read panics: {}", what, m))?;
            ctx.point(1);
            let want = if b.len() < 2 * l1 + l2 { None } else {
                match (element::<E1>(&b[..l1]), element::<E2>(&b[l1..l1 + l2]), element::<E1>(&b[l1 + l2..2 * l1 + l2])) { (Some(a), Some(b), Some(c)) => Some((a, b, c)), _ => None }
            };
            match (r, want, fault) {
                (Ok(p), Some(w), None) => ensure!(p.0.a == w.0 && p.0.b == w.1 && p.0.c == w.2, "{}: {:02x?} read as another proof", what, b),
                (Ok(p), Some(w), Some((_, kind))) if once || kind == io::ErrorKind::Interrupted => ensure!(p.0.a == w.0 && p.0.b == w.1 && p.0.c == w.2, "{}: read as another proof after an interruption", what),
                (Err(_), None, None) => ctx.outcome("malformed proof refused"),
                (Ok(_), None, None) => return Err(format!("{}: malformed bytes {:02x?} gave a proof", what, b)),
                (Err(e), Some(_), None) => return Err(format!("{}: well-formed proof refused: {}", what, e)),
                (Ok(_), _, Some((at, k))) => ensure!(at >= 2 * l1 + l2, "{}: stream failing ({:?}) at byte {} gave a proof", what, k, at),
                (Err(_), _, Some((at, k))) => ensure!(at < 2 * l1 + l2 || k == io::ErrorKind::Interrupted || true, "{} {}", at, what),
            }
            Ok(())
        };
        let proof = Proof::<$E>(bellman::groth16::Proof { a: gen1[2], b: gen2[3], c: gen1[5] });
        let pparts = vec![proof.0.a.into_compressed().as_ref().to_vec(), proof.0.b.into_compressed().as_ref().to_vec(), proof.0.c.into_compressed().as_ref().to_vec()];
        let pb = pparts.concat();
        ctx.par((0..=pb.len()).map(|k| (format!("{}/binary proof, byte {}", tag, k), k)).collect(), |k| {
            for chunk in [1usize, 5, 1 << 20].iter().cloned() {
                proof_is("truncated", &pb[..*k], Src { data: &pb[..*k], pos: 0, chunk, fault: None, once: false })?;
                for kind in [io::ErrorKind::Other, io::ErrorKind::UnexpectedEof, io::ErrorKind::WouldBlock, io::ErrorKind::Interrupted].iter() {
                    proof_is("fault", &pb, Src { data: &pb, pos: 0, chunk, fault: Some((*k, *kind)), once: false })?;
                    proof_is("fault", &pb, Src { data: &pb, pos: 0, chunk, fault: Some((*k, *kind)), once: true })?;
                    let mut d = Dst { out: vec![], chunk, fault: Some((*k, Some(*kind))), once: true };
                    let r = guard(|| proof.write(&mut d)).map_err(|m| format!("write panics: {}", m))?;
                    ensure!(r.is_err() || d.out == pb, "writing with one failure at {} reported success but wrote {} bytes", k, d.out.len());
                    let mut d = Dst { out: vec![], chunk, fault: Some((*k, Some(*kind))), once: false };
                    let r = guard(|| proof.write(&mut d)).map_err(|m| format!("write panics: {}", m))?;
                    ensure!(r.is_err() || d.out == pb, "writing with a fault at {} reported success but wrote {} bytes", k, d.out.len());
                    ctx.point(1);
                }
                let mut d = Dst { out: vec![], chunk, fault: Some((*k, None)), once: false };
                let r = proof.write(&mut d);
                ensure!(r.is_err() || d.out == pb, "short write at {} reported success", k);
            }
            if *k < pb.len() {
                for bit in 0..8 {
                    let mut b = pb.clone();
                    b[*k] ^= 1 << bit;
                    proof_is("bit flip", &b, Src { data: &b, pos: 0, chunk: usize::max_value(), fault: None, once: false })?;
                }
            }
            Ok(())
        });
        ctx.par((0..3usize).map(|k| (format!("{}/binary proof, element {}", tag, k), k)).collect(), |pos| {
            for e in if *pos == 1 { &enc2 } else { &enc1 } {
                let mut p = pparts.clone();
                p[*pos] = e.clone();
                let b = p.concat();
                proof_is("element replaced", &b, Src { data: &b, pos: 0, chunk: usize::max_value(), fault: None, once: false })?;
            }
            // all valid multiples round-trip
            for a in &gen1 {
                for b in &gen2 {
                    let p = Proof::<$E>(bellman::groth16::Proof { a: if *pos == 0 { *a } else { gen1[1] }, b: if *pos == 2 { *b } else { gen2[0] }, c: *a });
                    let mut o = vec![];
                    p.write(&mut o).map_err(|e| e.to_string())?;
                    let r = Proof::<$E>::read(&o[..]).map_err(|e| format!("written proof refused: {}", e))?;
                    ensure!(r.0.a == p.0.a && r.0.b == p.0.b && r.0.c == p.0.c, "proof reads back as another");
                    ctx.point(1);
                }
            }
            Ok(())
        });
    }};
}
fn be(x: &BigUint, w: usize) -> Vec<u8> {
    let b = x.to_bytes_be();
    let mut v = vec![0; w - b.len()];
    v.extend(b);
    v
}

fn main() {
    run(
        "C20",
        &[
            "the pairing library's point decoding, addition and multiplication are trusted",
            "all byte strings over an alphabet on the toy engine (valid, infinite, off-subgroup and undecodable values of every element); every truncation, fault position, single bit flip and element replacement on the production engines",
            "a binary proof may be followed by further bytes; a binary key extended by whole valid elements is a different key",
        ],
        true,
        |ctx| {
            toy::<3>(ctx, 0, true);
            toy::<3>(ctx, 1, true);
            toy::<3>(ctx, 2, ctx.thorough());
            if ctx.thorough() {
                toy::<5>(ctx, 1, true);
                toy::<3>(ctx, 3, false);
            }
            for n in 0..4u64 {
                let k = TruncatedVerifyingKey::<Toy<5>> { alpha_g1: G1A(1), beta_g2: G2A(2), gamma_g2: G2A(4), delta_g2: G2A(6), ic: (0..n).map(|i| G1A(1 + (i + 1) % 4)).collect() };
                streams(ctx, "toy", &k, true);
            }
            // many elements
            for n in [9u64, 17, 33, 64, 65, 128, 129].iter().cloned() {
                let k = TruncatedVerifyingKey::<Toy<5>> { alpha_g1: G1A(1), beta_g2: G2A(2), gamma_g2: G2A(4), delta_g2: G2A(6), ic: (0..n).map(|i| G1A(1 + (i + 1) % 4)).collect() };
                streams(ctx, "toy", &k, false);
            }
            let three = felt::<pairing::bn256::Fq>(&big(3));
            let bn2 = {
                // 3 / (9 + u)
                let mut x = pairing::bn256::Fq2 { c0: felt(&big(9)), c1: felt(&big(1)) }.inverse().unwrap();
                x.mul_assign(&pairing::bn256::Fq2 { c0: three, c1: felt(&big(0)) });
                x
            };
            engine!(ctx, "bn256", pairing::bn256::Bn256, bn256, three, bn2, false);
            let four = felt::<pairing::bls12_381::Fq>(&big(4));
            engine!(ctx, "bls12_381", pairing::bls12_381::Bls12, bls12_381, four, pairing::bls12_381::Fq2 { c0: four, c1: four }, true);
        },
    );
}
