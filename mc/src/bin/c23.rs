//! C23: the command-line pipelines carry keys, proofs and inputs faithfully.
//! The real command-line modules run as processes in scratch directories; every step is judged from
//! the files before and after it by decoders and a pairing equation of our own.
use bellman::groth16::Parameters;
use ff::PrimeField;
use mc::big::*;
use mc::ensure;
use mc::pair::{xy1, xy2};
use mc::report::{run, Ctx, Res};
use pairing::{bls12_381::Bls12, bn256::Bn256, CurveAffine, CurveProjective, EncodedPoint, Engine};
use serde_json::{json, Value};
use std::collections::{HashMap, BTreeMap, HashSet};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Eth,
    Waves,
    Near,
}
#[derive(Clone, Copy, Debug)]
struct Module {
    name: &'static str,
    kind: Kind,
    bls: bool,
    circ: usize,
}
const MODULES: [Module; 12] = {
    const fn m(name: &'static str, kind: Kind, bls: bool, circ: usize) -> Module {
        Module { name, kind, bls, circ }
    }
    [
        m("eth0", Kind::Eth, false, 0),
        m("eth1", Kind::Eth, false, 1),
        m("eth2", Kind::Eth, false, 2),
        m("wav0", Kind::Waves, true, 0),
        m("wav1", Kind::Waves, true, 1),
        m("wav2", Kind::Waves, true, 2),
        m("wbn0", Kind::Waves, false, 0),
        m("wbn1", Kind::Waves, false, 1),
        m("wbn2", Kind::Waves, false, 2),
        m("near0", Kind::Near, false, 0),
        m("near1", Kind::Near, false, 1),
        m("near2", Kind::Near, false, 2),
    ]
};
/// the same macros for a circuit with many public inputs
const WIDE: [Module; 4] = [
    Module { name: "eth3", kind: Kind::Eth, bls: false, circ: 3 },
    Module { name: "wav3", kind: Kind::Waves, bls: true, circ: 3 },
    Module { name: "wbn3", kind: Kind::Waves, bls: false, circ: 3 },
    Module { name: "near3", kind: Kind::Near, bls: false, circ: 3 },
];
const PAR: u64 = 3;
const MANY: usize = 260;

// ---------------------------------------------------------------- independent encodings

const B64: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
fn b64enc(d: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    for c in d.chunks(3) {
        let v = c.iter().fold(0u32, |a, b| a << 8 | *b as u32) << (8 * (3 - c.len()));
        for k in 0..4 {
            o.push(if k <= c.len() { B64[(v >> (18 - 6 * k)) as usize & 63] } else { b'=' });
        }
    }
    o
}
/// the data of a base64 text; padding may be missing
fn b64dec(t: &[u8]) -> Option<Vec<u8>> {
    let mut n = t.len();
    while n > 0 && t[n - 1] == b'=' && t.len() - n < 2 {
        n -= 1;
    }
    let (mut acc, mut bits, mut o) = (0u32, 0, vec![]);
    for c in &t[..n] {
        let v = B64.iter().position(|x| x == c)? as u32;
        acc = (acc << 6 | v) & 0xffffff;
        bits += 6;
        if bits >= 8 {
            bits -= 8;
            o.push((acc >> bits) as u8);
        }
    }
    if n % 4 == 1 {
        return None;
    }
    Some(o)
}
fn decimal(v: &Value, p: &BigUint) -> Option<BigUint> {
    let s = v.as_str()?;
    let s: String = s.strip_prefix('+').unwrap_or(s).chars().filter(|c| *c != '_').collect();
    if s.is_empty() || !s.bytes().all(|b| b.is_ascii_digit()) {
        return None;
    }
    let b = BigUint::parse_bytes(s.as_bytes(), 10)?;
    if &b < p {
        Some(b)
    } else {
        None
    }
}
fn g1<E: Engine>(x: &BigUint, y: &BigUint) -> Option<E::G1Affine> {
    point::<E::G1Affine>(&[x, y])
}
/// from x.c0, x.c1, y.c0, y.c1
fn g2<E: Engine>(c: &[BigUint]) -> Option<E::G2Affine> {
    point::<E::G2Affine>(&[&c[1], &c[0], &c[3], &c[2]])
}
fn point<G: CurveAffine>(c: &[&BigUint]) -> Option<G> {
    if c.iter().all(|x| **x == big(0)) {
        return Some(G::zero());
    }
    let mut u = G::Uncompressed::empty();
    let w = u.as_ref().len() / c.len();
    for (k, x) in c.iter().enumerate() {
        u.as_mut()[k * w..(k + 1) * w].copy_from_slice(&be_bytes(x, w));
    }
    good(u.into_affine().ok()?)
}
static SOUND: Mutex<Option<HashSet<Vec<u8>>>> = Mutex::new(None);
fn good<G: CurveAffine>(g: G) -> Option<G> {
    // (points already found to be of the right order are remembered)
    let id = g.into_uncompressed().as_ref().to_vec();
    if SOUND.lock().unwrap().get_or_insert_with(HashSet::new).contains(&id) {
        return Some(g);
    }
    if g.mul(G::Scalar::char()).is_zero() {
        SOUND.lock().unwrap().as_mut().unwrap().insert(id);
        Some(g)
    } else {
        None
    }
}
fn packed<G: CurveAffine>(b: &[u8]) -> Option<G> {
    let mut r = G::Compressed::empty();
    r.as_mut().copy_from_slice(b);
    good(r.into_affine().ok()?).filter(|g| !g.is_zero())
}

#[derive(Clone, PartialEq, Debug)]
struct Key<E: Engine> {
    alpha: E::G1Affine,
    g2: Vec<E::G2Affine>,
    ic: Vec<E::G1Affine>,
}
#[derive(Clone, PartialEq, Debug)]
struct Prf<E: Engine> {
    a: E::G1Affine,
    b: E::G2Affine,
    c: E::G1Affine,
}
fn fq<E: Engine>() -> BigUint {
    limbs(<E::Fq as PrimeField>::char().as_ref())
}
fn fr<E: Engine>() -> BigUint {
    limbs(<E::Fr as PrimeField>::char().as_ref())
}
struct Cur<'a>(&'a [u8]);
impl<'a> Cur<'a> {
    fn take(&mut self, n: usize) -> Option<&'a [u8]> {
        if self.0.len() < n {
            return None;
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Some(a)
    }
    fn le(&mut self, p: &BigUint) -> Option<BigUint> {
        Some(BigUint::from_bytes_le(self.take(32)?)).filter(|x| x < p)
    }
    fn b1<E: Engine>(&mut self) -> Option<E::G1Affine> {
        let p = fq::<E>();
        g1::<E>(&self.le(&p)?, &self.le(&p)?)
    }
    fn b2<E: Engine>(&mut self) -> Option<E::G2Affine> {
        let p = fq::<E>();
        let c = (0..4).map(|_| self.le(&p)).collect::<Option<Vec<_>>>()?;
        g2::<E>(&c)
    }
    fn c1<E: Engine>(&mut self) -> Option<E::G1Affine> {
        packed(self.take(<E::G1Affine as CurveAffine>::Compressed::size())?)
    }
    fn c2<E: Engine>(&mut self) -> Option<E::G2Affine> {
        packed(self.take(<E::G2Affine as CurveAffine>::Compressed::size())?)
    }
    fn end(&self) -> Option<()> {
        if self.0.is_empty() {
            Some(())
        } else {
            None
        }
    }
}
fn j1<E: Engine>(v: &Value) -> Option<E::G1Affine> {
    let a = v.as_array().filter(|a| a.len() == 2)?;
    let p = fq::<E>();
    g1::<E>(&decimal(&a[0], &p)?, &decimal(&a[1], &p)?)
}
/// JSON: ((x.c1, x.c0), (y.c1, y.c0))
fn j2<E: Engine>(v: &Value) -> Option<E::G2Affine> {
    let a = v.as_array().filter(|a| a.len() == 2)?;
    let p = fq::<E>();
    let mut c = vec![];
    for h in a {
        let h = h.as_array().filter(|h| h.len() == 2)?;
        c.push(decimal(&h[1], &p)?);
        c.push(decimal(&h[0], &p)?);
    }
    g2::<E>(&c)
}
fn dec_key<E: Engine>(k: Kind, f: &[u8]) -> Option<Key<E>> {
    match k {
        Kind::Eth => {
            let v: Value = serde_json::from_slice(f).ok()?;
            Some(Key {
                alpha: j1::<E>(v.get("alpha_g1")?)?,
                g2: ["beta_g2", "gamma_g2", "delta_g2"].iter().map(|n| j2::<E>(v.get(*n)?)).collect::<Option<_>>()?,
                ic: v.get("ic")?.as_array()?.iter().map(j1::<E>).collect::<Option<_>>()?,
            })
        }
        Kind::Waves => {
            let d = b64dec(f)?;
            let mut c = Cur(&d);
            let alpha = c.c1::<E>()?;
            let g2 = vec![c.c2::<E>()?, c.c2::<E>()?, c.c2::<E>()?];
            let mut ic = vec![];
            while !c.0.is_empty() {
                ic.push(c.c1::<E>()?);
            }
            Some(Key { alpha, g2, ic })
        }
        Kind::Near => {
            let d = b64dec(f)?;
            let mut c = Cur(&d);
            let alpha = c.b1::<E>()?;
            let g2 = vec![c.b2::<E>()?, c.b2::<E>()?, c.b2::<E>()?];
            let n = BigUint::from_bytes_le(c.take(4)?);
            let mut ic = vec![];
            while !c.0.is_empty() {
                ic.push(c.b1::<E>()?);
            }
            if big(ic.len() as u64) != n {
                return None;
            }
            Some(Key { alpha, g2, ic })
        }
    }
}
fn dec_prf<E: Engine>(k: Kind, f: &[u8]) -> Option<Prf<E>> {
    match k {
        Kind::Eth => {
            let v: Value = serde_json::from_slice(f).ok()?;
            Some(Prf { a: j1::<E>(v.get("a")?)?, b: j2::<E>(v.get("b")?)?, c: j1::<E>(v.get("c")?)? })
        }
        Kind::Waves => {
            // bytes after the proof are not looked at
            let d = b64dec(f)?;
            let mut c = Cur(&d);
            Some(Prf { a: c.c1::<E>()?, b: c.c2::<E>()?, c: c.c1::<E>()? })
        }
        Kind::Near => {
            let d = b64dec(f)?;
            let mut c = Cur(&d);
            let p = Prf { a: c.b1::<E>()?, b: c.b2::<E>()?, c: c.b1::<E>()? };
            c.end()?;
            Some(p)
        }
    }
}
fn dec_inputs(k: Kind, r: &BigUint, f: &[u8]) -> Option<Vec<BigUint>> {
    match k {
        Kind::Eth => serde_json::from_slice::<Value>(f).ok()?.as_array()?.iter().map(|v| decimal(v, r)).collect(),
        Kind::Waves => {
            let d = b64dec(f)?;
            if d.len() % 32 != 0 {
                return None;
            }
            d.chunks(32).map(|c| Some(BigUint::from_bytes_be(c)).filter(|x| x < r)).collect()
        }
        Kind::Near => {
            let d = b64dec(f)?;
            let mut c = Cur(&d);
            let n = BigUint::from_bytes_le(c.take(4)?);
            let mut v = vec![];
            while !c.0.is_empty() {
                v.push(c.le(r)?);
            }
            if big(v.len() as u64) != n {
                return None;
            }
            Some(v)
        }
    }
}
fn jd(x: &BigUint) -> Value {
    Value::String(x.to_str_radix(10))
}
fn ej1<G: CurveAffine>(g: &G) -> Value {
    let c = xy1(g);
    json!([jd(&c[0]), jd(&c[1])])
}
fn ej2<G: CurveAffine>(g: &G) -> Value {
    let c = xy2(g);
    json!([[jd(&c[1]), jd(&c[0])], [jd(&c[3]), jd(&c[2])]])
}
fn le(v: &[BigUint]) -> Vec<u8> {
    v.iter().flat_map(|x| le_bytes(x, 32)).collect()
}
fn enc_key<E: Engine>(k: Kind, v: &Key<E>) -> Vec<u8> {
    match k {
        Kind::Eth => serde_json::to_vec(&json!({
            "alpha_g1": ej1(&v.alpha), "beta_g2": ej2(&v.g2[0]), "gamma_g2": ej2(&v.g2[1]), "delta_g2": ej2(&v.g2[2]),
            "ic": v.ic.iter().map(ej1).collect::<Vec<_>>()
        })).unwrap(),
        Kind::Waves => {
            let mut d = v.alpha.into_compressed().as_ref().to_vec();
            v.g2.iter().for_each(|g| d.extend_from_slice(g.into_compressed().as_ref()));
            v.ic.iter().for_each(|g| d.extend_from_slice(g.into_compressed().as_ref()));
            b64enc(&d)
        }
        Kind::Near => {
            let mut d = le(&xy1(&v.alpha));
            v.g2.iter().for_each(|g| d.extend(le(&xy2(g))));
            d.extend_from_slice(&(v.ic.len() as u32).to_le_bytes());
            v.ic.iter().for_each(|g| d.extend(le(&xy1(g))));
            b64enc(&d)
        }
    }
}
fn enc_prf<E: Engine>(k: Kind, v: &Prf<E>) -> Vec<u8> {
    match k {
        Kind::Eth => serde_json::to_vec(&json!({"a": ej1(&v.a), "b": ej2(&v.b), "c": ej1(&v.c)})).unwrap(),
        Kind::Waves => b64enc(&[v.a.into_compressed().as_ref(), v.b.into_compressed().as_ref(), v.c.into_compressed().as_ref()].concat()),
        Kind::Near => b64enc(&[le(&xy1(&v.a)), le(&xy2(&v.b)), le(&xy1(&v.c))].concat()),
    }
}
fn enc_inputs(k: Kind, v: &[BigUint]) -> Vec<u8> {
    match k {
        Kind::Eth => serde_json::to_vec(&Value::Array(v.iter().map(jd).collect())).unwrap(),
        Kind::Waves => b64enc(&v.iter().flat_map(|x| be_bytes(x, 32)).collect::<Vec<_>>()),
        Kind::Near => b64enc(&[&(v.len() as u32).to_le_bytes()[..], &le(v)].concat()),
    }
}
/// is the file exactly the documented encoding? (white space and key order of JSON are free)
fn same_file(k: Kind, a: &[u8], b: &[u8]) -> bool {
    match k {
        Kind::Eth => match (serde_json::from_slice::<Value>(a), serde_json::from_slice::<Value>(b)) {
            (Ok(a), Ok(b)) => a == b,
            _ => false,
        },
        _ => a == b,
    }
}
/// e(A,B) = e(alpha,beta) e(sum,gamma) e(C,delta)
fn holds<E: Engine>(k: &Key<E>, p: &Prf<E>, x: &[BigUint]) -> bool {
    if x.len() + 1 != k.ic.len() {
        return false;
    }
    let mut s = k.ic[0].into_projective();
    for (g, x) in k.ic[1..].iter().zip(x) {
        let e: E::Fr = E::Fr::from_str(&x.to_str_radix(10)).unwrap();
        s.add_assign(&g.mul(e.into_repr()));
    }
    let mut na = p.a;
    na.negate();
    let s = s.into_affine();
    let t = E::miller_loop(
        [
            (&na.prepare(), &p.b.prepare()),
            (&k.alpha.prepare(), &k.g2[0].prepare()),
            (&s.prepare(), &k.g2[1].prepare()),
            (&p.c.prepare(), &k.g2[2].prepare()),
        ]
        .iter(),
    );
    E::final_exponentiation(&t) == Some(<E::Fqk as ff::Field>::one())
}
fn key_of<E: Engine>(p: &Parameters<E>) -> Key<E> {
    Key { alpha: p.vk.alpha_g1, g2: vec![p.vk.beta_g2, p.vk.gamma_g2, p.vk.delta_g2], ic: p.vk.ic.clone() }
}

// ---------------------------------------------------------------- objects of the circuits

fn nums(v: &Value, n: usize, r: &BigUint) -> Option<Vec<BigUint>> {
    v.as_array().filter(|a| a.len() == n)?.iter().map(|x| decimal(x, r)).collect()
}
/// the public inputs an object file denotes and whether its witness is true
fn object(circ: usize, r: &BigUint, f: &[u8]) -> Option<(Vec<BigUint>, bool)> {
    let v: Value = serde_json::from_slice(f).ok()?;
    let v = v.as_array().filter(|a| a.len() == 2)?;
    if circ == 3 {
        let a = nums(&v[0], MANY, r)?;
        let x = decimal(&v[1], r)?;
        let t = a.iter().enumerate().all(|(i, y)| *y == (&x + big(i as u64)) % r);
        return Some((a, t));
    }
    if circ == 2 {
        nums(&v[0], 0, r)?;
        let x = decimal(&v[1], r)?;
        return Some((vec![], &x * &x % r == big(PAR * PAR)));
    }
    let (x, y) = match v[1].as_array() {
        Some(a) if a.len() == 2 => (decimal(&a[0], r)?, decimal(&a[1], r)?),
        _ => (decimal(v[1].get("x")?, r)?, decimal(v[1].get("y")?, r)?),
    };
    if circ == 0 {
        let a = decimal(&v[0], r)?;
        let t = &x * &y % r == a;
        return Some((vec![a], t));
    }
    let (a, pick, e) = (decimal(v[0].get("a")?, r)?, v[0].get("pick")?.as_bool()?, nums(v[0].get("e")?, 2, r)?);
    let t = &x * &y % r == a && e[0] == if pick { x.clone() } else { y.clone() } && e[1] == (&x + big(PAR)) % r;
    Some((vec![a, big(pick as u64), e[0].clone(), e[1].clone()], t))
}
fn make_object(circ: usize, r: &BigUint, x: &BigUint, y: &BigUint, pick: bool) -> Value {
    match circ {
        0 => json!([jd(&(x * y % r)), {"x": jd(x), "y": jd(y)}]),
        1 => json!([{"a": jd(&(x * y % r)), "pick": pick, "e": [jd(if pick { x } else { y }), jd(&((x + big(PAR)) % r))]}, {"x": jd(x), "y": jd(y)}]),
        2 => json!([[], jd(x)]),
        _ => json!([(0..MANY as u64).map(|i| jd(&((x + big(i)) % r))).collect::<Vec<_>>(), jd(x)]),
    }
}
fn test_object(circ: usize, r: &BigUint) -> Value {
    match circ {
        0 => make_object(0, r, &big(5), &big(7), false),
        1 => make_object(1, r, &(r - big(1)), &big(2), true),
        2 => make_object(2, r, &big(3), &big(0), false),
        _ => make_object(3, r, &big(1000), &big(0), false),
    }
}

// ---------------------------------------------------------------- processes

static SEQ: AtomicU64 = AtomicU64::new(0);
struct Env {
    root: PathBuf,
    cli: PathBuf,
    fi: PathBuf,
    /// parameter files written by successful setups of each circuit and engine
    honest: Mutex<HashSet<(bool, usize, Vec<u8>)>>,
}
struct Dir(PathBuf);
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
impl Env {
    fn dir(&self) -> Dir {
        let p = self.root.join(format!("d{}", SEQ.fetch_add(1, SeqCst)));
        std::fs::create_dir(&p).unwrap();
        Dir(p)
    }
    fn with(&self, files: &Snap) -> Dir {
        let d = self.dir();
        for (n, b) in files {
            std::fs::write(d.0.join(n), b).unwrap();
        }
        d
    }
}
type Snap = BTreeMap<String, Vec<u8>>;
fn snap(d: &Path) -> Snap {
    std::fs::read_dir(d).unwrap().map(|e| e.unwrap()).map(|e| (e.file_name().into_string().unwrap(), std::fs::read(e.path()).unwrap())).collect()
}
#[derive(Clone, Debug)]
struct Fault {
    op: char,
    at: usize,
    mode: &'static str,
}
#[derive(Debug, Clone)]
struct Out {
    code: Option<i32>,
    out: String,
    err: String,
}
impl Out {
    fn ok(&self) -> bool {
        self.code == Some(0)
    }
    fn says(&self, w: &str) -> bool {
        self.out.contains(w)
    }
}
/// calls of one class made by a command
type Calls = Vec<(char, usize)>;
fn exec(env: &Env, dir: &Path, args: &[&str], fault: Option<&Fault>, log: bool) -> Result<(Out, Calls), String> {
    let mut c = Command::new(&env.cli);
    c.args(args).current_dir(dir).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped()).env("RUST_BACKTRACE", "0");
    let lp = env.root.join(format!("log{}", SEQ.fetch_add(1, SeqCst)));
    if fault.is_some() || log {
        c.env("LD_PRELOAD", &env.fi).env("FI_DIR", dir);
    }
    if let Some(f) = fault {
        c.env("FI_OP", f.op.to_string()).env("FI_AT", f.at.to_string()).env("FI_MODE", f.mode);
    }
    if log {
        c.env("FI_LOG", &lp);
    }
    let mut p = c.spawn().map_err(|e| format!("cannot start the command line: {}", e))?;
    let t = Instant::now();
    let mut nap = 200;
    loop {
        if p.try_wait().map_err(|e| e.to_string())?.is_some() {
            break;
        }
        if t.elapsed() > Duration::from_secs(120) {
            let _ = p.kill();
            let _ = p.wait();
            return Err(format!("{:?} did not end within 120 s", args));
        }
        std::thread::sleep(Duration::from_micros(nap));
        nap = (nap + 200).min(2000);
    }
    let o = p.wait_with_output().map_err(|e| e.to_string())?;
    let mut calls = vec![];
    if log {
        for l in std::fs::read_to_string(&lp).unwrap_or_default().lines() {
            calls.push((l.chars().next().unwrap(), l[2..].parse().unwrap()));
        }
        let _ = std::fs::remove_file(&lp);
    }
    Ok((Out { code: o.status.code(), out: String::from_utf8_lossy(&o.stdout).into(), err: String::from_utf8_lossy(&o.stderr).into() }, calls))
}

// ---------------------------------------------------------------- one step, judged from the files

#[derive(Clone, Copy, PartialEq, Debug)]
enum Op {
    Gen,
    Setup,
    Prove,
    Verify,
    Sol,
}
/// file names in use
#[derive(Clone)]
struct Names {
    n: [String; 6],
    args: [Vec<String>; 6],
}
const FILES: [(&str, &str); 6] = [("params", "p"), ("vk", "v"), ("object", "o"), ("proof", "r"), ("inputs", "i"), ("solidity", "s")];
const PARAMS: usize = 0;
const VK: usize = 1;
const OBJECT: usize = 2;
const PROOF: usize = 3;
const INPUTS: usize = 4;
const SOL: usize = 5;
fn names(k: Kind) -> Names {
    let e = if k == Kind::Eth { "json" } else { "txt" };
    Names {
        n: ["params.bin".into(), format!("verification_key.{}", e), "object.json".into(), format!("proof.{}", e), format!("inputs.{}", e), "verifier.sol".into()],
        args: Default::default(),
    }
}
impl Op {
    fn name(&self) -> &'static str {
        match self {
            Op::Gen => "generate-test-data",
            Op::Setup => "setup",
            Op::Prove => "prove",
            Op::Verify => "verify",
            Op::Sol => "generate-verifier",
        }
    }
    fn uses(&self) -> &'static [usize] {
        match self {
            Op::Gen => &[OBJECT],
            Op::Setup => &[PARAMS, VK],
            Op::Prove => &[PARAMS, OBJECT, PROOF, INPUTS],
            Op::Verify => &[VK, PROOF, INPUTS],
            Op::Sol => &[VK, SOL],
        }
    }
    fn writes(&self) -> &'static [usize] {
        match self {
            Op::Gen => &[OBJECT],
            Op::Setup => &[PARAMS, VK],
            Op::Prove => &[PROOF, INPUTS],
            Op::Verify => &[],
            Op::Sol => &[SOL],
        }
    }
}
fn ops(k: Kind) -> Vec<Op> {
    let mut v = vec![Op::Gen, Op::Setup, Op::Prove, Op::Verify];
    if k == Kind::Eth {
        v.push(Op::Sol);
    }
    v
}

/// what a step may be held to when it was disturbed
#[derive(Clone, Copy, PartialEq)]
enum Duty {
    /// undisturbed: it must also succeed whenever its input files allow
    Full,
    /// it may fail, but what it reports as done must be done
    Sound,
    /// its reads were cut or failed: it may also print false
    Blind,
}
fn step(ctx: &Ctx, env: &Env, m: &Module, n: &Names, d: &Path, op: Op, fault: Option<&Fault>) -> Result<(Out, Snap), String> {
    if m.bls {
        step_e::<Bls12>(ctx, env, m, n, d, op, fault)
    } else {
        step_e::<Bn256>(ctx, env, m, n, d, op, fault)
    }
}
fn judge<E: Engine>(env: &Env, m: &Module, n: &Names, op: Op, duty: Duty, before: &Snap, after: &Snap, o: &Out) -> Res {
    let (k, r) = (m.kind, fr::<E>());
    let get = |s: &Snap, f: usize| s.get(&n.n[f]).cloned();
    for (f, b) in before {
        if !op.writes().iter().any(|w| &n.n[*w] == f) {
            ensure!(after.get(f) == Some(b), "{} changed the file {}", op.name(), f);
        }
    }
    if o.ok() && duty == Duty::Full {
        for f in after.keys() {
            ensure!(before.contains_key(f) || op.writes().iter().any(|w| &n.n[*w] == f), "{} created the unexpected file {}", op.name(), f);
        }
    }
    match op {
        Op::Gen => {
            ensure!(duty != Duty::Full || o.ok(), "generate-test-data failed: {:?}", o);
            if o.ok() {
                let f = get(after, OBJECT).ok_or("no object file was written")?;
                let v: Value = serde_json::from_slice(&f).map_err(|e| format!("the object file is not complete JSON: {}", e))?;
                ensure!(v == test_object(m.circ, &r), "the object file holds {} instead of the test data", v);
            }
        }
        Op::Setup => {
            ensure!(duty != Duty::Full || o.ok(), "setup failed: {:?}", o);
            if o.ok() {
                let f = get(after, PARAMS).ok_or("no parameters file was written")?;
                let mut rest = &f[..];
                let p = Parameters::<E>::read(&mut rest, true).map_err(|e| format!("setup succeeded but the parameters file ({} bytes) is unreadable: {}", f.len(), e))?;
                ensure!(rest.is_empty(), "{} bytes follow the parameters", rest.len());
                let mut back = vec![];
                p.write(&mut back).unwrap();
                ensure!(back == f, "the parameters file is not the parameters' encoding");
                let want = enc_key(k, &key_of(&p));
                let vk = get(after, VK).ok_or("no key file was written")?;
                ensure!(same_file(k, &vk, &want), "setup succeeded but the key file ({} bytes) does not hold the parameters' verification key", vk.len());
                let ninputs = [1, 4, 0, MANY][m.circ];
                ensure!(p.vk.ic.len() == ninputs + 1, "the key is for {} inputs instead of {}", p.vk.ic.len() as i64 - 1, ninputs);
                env.honest.lock().unwrap().insert((m.bls, m.circ, f));
            }
        }
        Op::Prove => {
            let (params, obj) = (get(before, PARAMS), get(before, OBJECT));
            let p = params.as_ref().and_then(|b| Parameters::<E>::read(&b[..], false).ok());
            let honest = params.as_ref().map_or(false, |b| env.honest.lock().unwrap().contains(&(m.bls, m.circ, b.clone())));
            let ob = obj.as_ref().and_then(|b| object(m.circ, &r, b));
            if o.ok() {
                let p = p.as_ref().ok_or("prove succeeded without readable parameters")?;
                let (x, truth) = ob.as_ref().ok_or_else(|| format!("prove succeeded on the object {:?}", obj.as_ref().map(|o| String::from_utf8_lossy(o).to_string())))?;
                let fi = get(after, INPUTS).ok_or("no inputs file was written")?;
                ensure!(same_file(k, &fi, &enc_inputs(k, x)), "prove succeeded but the inputs file {:?} does not hold the object's public inputs {:?}", String::from_utf8_lossy(&fi), x);
                let fp = get(after, PROOF).ok_or("no proof file was written")?;
                if honest {
                    let q = dec_prf::<E>(k, &fp).ok_or_else(|| format!("prove succeeded but the proof file ({} bytes) holds no proof", fp.len()))?;
                    ensure!(same_file(k, &fp, &enc_prf(k, &q)), "the proof file is not in the documented encoding");
                    ensure!(holds(&key_of(p), &q, x) == *truth, "the proof of a {} statement is {} under the parameters' key", truth, !truth);
                }
            }
            if duty == Duty::Full && honest && ob.is_some() {
                // objects in our own canonical form must be provable
                ensure!(o.ok(), "prove failed on {:?}: {:?}", String::from_utf8_lossy(&obj.unwrap()), o);
            }
        }
        Op::Verify => {
            let key = get(before, VK);
            let (key, prf, x) = (
                key.as_ref().and_then(|b| dec_key::<E>(k, b)),
                get(before, PROOF).and_then(|b| dec_prf::<E>(k, &b)),
                get(before, INPUTS).and_then(|b| dec_inputs(k, &r, &b)),
            );
            let verdict = match (&key, &prf, &x) {
                (Some(k), Some(p), Some(x)) => Some(holds(k, p, x)),
                _ => None,
            };
            ensure!(!(o.says("true") && o.says("false")), "verify prints both results: {}", o.out);
            if o.says("true") {
                ensure!(verdict.is_some(), "verify prints true for files that do not all hold complete data");
                ensure!(verdict == Some(true), "verify prints true for a key, proof and inputs that do not verify together");
            }
            if let (Some(key), Some(prf), Some(x)) = (&key, &prf, &x) {
                let canon = same_file(k, &before[&n.n[VK]], &enc_key(k, key)) && same_file(k, &before[&n.n[PROOF]], &enc_prf(k, prf)) && same_file(k, &before[&n.n[INPUTS]], &enc_inputs(k, x));
                if canon && verdict == Some(true) {
                    ensure!(duty != Duty::Full || (o.ok() && o.says("true")), "verify does not print true for a valid proof: {:?}", o);
                    ensure!(duty == Duty::Blind || !o.ok() || o.says("true"), "a disturbed verify prints {:?} for a valid proof", o.out);
                }
            }
        }
        Op::Sol => {
            let vk = get(before, VK);
            let key = vk.as_ref().and_then(|b| dec_key::<E>(k, b));
            if o.ok() {
                // (the points of the key are the contract's business)
                let f = get(after, SOL).ok_or("no contract was written")?;
                let data: fawkes_crypto::helpers::groth16::verifier::TruncatedVerifyingKeyData<pairing::bn256::Fq> =
                    vk.as_ref().and_then(|b| serde_json::from_slice(b).ok()).ok_or("generate-verifier succeeded without a key")?;
                ensure!(f == fawkes_crypto::helpers::groth16::ethereum::generate_sol_data(&data).into_bytes(), "generate-verifier succeeded but the contract file ({} bytes) is not the key's contract", f.len());
            }
            if let (Some(key), Duty::Full) = (&key, duty) {
                if key.ic.len() > 1 && same_file(k, &vk.unwrap(), &enc_key(k, key)) {
                    ensure!(o.ok(), "generate-verifier failed: {:?}", o);
                }
            }
        }
    }
    Ok(())
}
fn step_e<E: Engine>(ctx: &Ctx, env: &Env, m: &Module, n: &Names, d: &Path, op: Op, fault: Option<&Fault>) -> Result<(Out, Snap), String> {
    let before = snap(d);
    let mut args = vec![m.name, op.name()];
    for f in op.uses() {
        args.extend(n.args[*f].iter().map(|s| s.as_str()));
    }
    let (o, _) = exec(env, d, &args, fault, false)?;
    let after = snap(d);
    let duty = match fault {
        None => Duty::Full,
        Some(f) if (f.op == 'r' || f.op == 'o') && ["zero", "eio"].contains(&f.mode) => Duty::Blind,
        _ => Duty::Sound,
    };
    ctx.point(1);
    ctx.outcome(&format!("{} {}{}", op.name(), if o.ok() { "done" } else { "failed" }, if o.says("true") { " true" } else if o.says("false") { " false" } else { "" }));
    judge::<E>(env, m, n, op, duty, &before, &after, &o).map_err(|e| format!("{} {} {}: {} | printed {:?} {:?}", m.name, op.name(), fault.map(|f| format!("with {:?}", f)).unwrap_or_default(), e, o.out, o.err.chars().take(200).collect::<String>()))?;
    Ok((o, after))
}
fn order(m: &Module) -> BigUint {
    if m.bls {
        fr::<Bls12>()
    } else {
        fr::<Bn256>()
    }
}

// ---------------------------------------------------------------- explorations

/// an honest run; `rename` selects the files given explicit names
fn pipeline(ctx: &Ctx, env: &Env, m: &Module, rename: usize, style: usize, stale: bool) -> Result<Snap, String> {
    let d = env.dir();
    let mut n = names(m.kind);
    for f in 0..6 {
        if rename >> f & 1 == 1 {
            n.n[f] = format!("x{} {}.dat", f, FILES[f].0);
            n.args[f] = match style {
                0 => vec![format!("--{}", FILES[f].0), n.n[f].clone()],
                1 => vec![format!("-{}", FILES[f].1), n.n[f].clone()],
                _ => vec![format!("--{}={}", FILES[f].0, n.n[f])],
            };
        }
    }
    if stale {
        for f in 0..if m.kind == Kind::Eth { 6 } else { 5 } {
            std::fs::write(d.0.join(&n.n[f]), vec![b'A'; 40000]).unwrap();
        }
    }
    for op in ops(m.kind) {
        let (o, _) = step(ctx, env, m, &n, &d.0, op, None)?;
        ensure!(o.ok(), "{} failed in an honest run: {:?}", op.name(), o);
        if op == Op::Verify {
            ensure!(o.says("true"), "an honest run is not accepted: {:?}", o);
        }
    }
    Ok(snap(&d.0))
}
fn verify_with(ctx: &Ctx, env: &Env, m: &Module, files: &Snap, f: usize, b: Vec<u8>, what: &str) -> Res {
    let n = names(m.kind);
    let mut s = files.clone();
    s.insert(n.n[f].clone(), b);
    s.remove(&n.n[PARAMS]);
    let d = env.with(&s);
    step(ctx, env, m, &n, &d.0, Op::Verify, None).map_err(|e| format!("{} {}: {}", FILES[f].0, what, e))?;
    if m.kind == Kind::Eth && f == VK {
        step(ctx, env, m, &n, &d.0, Op::Sol, None).map_err(|e| format!("{} {}: {}", FILES[f].0, what, e))?;
    }
    Ok(())
}
fn edits(b: u8, kind: Kind, more: bool) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![vec![], vec![b ^ 1], vec![b'\n', b]];
    if more {
        v.extend(vec![vec![b, b], vec![0], vec![0xff]]);
    }
    let alpha: Vec<u8> = match kind {
        Kind::Eth if b.is_ascii_digit() => if more { b"0123456789".to_vec() } else { vec![b'0', b'9'] },
        Kind::Eth => if more { b" ,:\"[]{}-1e.".to_vec() } else { b" ,".to_vec() },
        _ => if more { B64.to_vec() } else { vec![b'A', b'/', b'='] },
    };
    v.extend(alpha.into_iter().filter(|a| *a != b).map(|a| vec![a]));
    v.sort();
    v.dedup();
    v
}
fn fault_modes(op: char) -> &'static [&'static str] {
    match op {
        'w' => &["short", "half", "zero", "eintr", "enospc", "eio", "torn", "kill0", "kill1", "kill2"],
        'r' => &["short", "half", "zero", "eintr", "eio", "kill0"],
        'o' => &["enospc", "eio", "eintr", "kill0"],
        _ => &["eio", "kill0"],
    }
}
fn calls(env: &Env, m: &Module, files: &Snap, op: Op) -> Result<Calls, String> {
    let d = env.with(files);
    let (o, c) = exec(env, &d.0, &[m.name, op.name()], None, true)?;
    ensure!(o.ok(), "{} failed under observation: {:?}", op.name(), o);
    Ok(c)
}
fn faults(ctx: &Ctx, env: &Env, m: &Module, base: &Snap, op: Op) -> Vec<Fault> {
    let c = match calls(env, m, base, op) {
        Ok(c) => c,
        Err(e) => {
            ctx.fail(&format!("{}/{} observed", m.name, op.name()), e);
            return vec![];
        }
    };
    let mut v = vec![];
    for k in ['o', 'r', 'w', 'm'].iter() {
        let n = c.iter().filter(|x| x.0 == *k).count();
        for at in 0..n {
            for mode in fault_modes(*k) {
                v.push(Fault { op: *k, at, mode });
            }
        }
    }
    v
}

/// all histories of the given length over the commands (and interrupted commands), from every
/// intermediate state exactly once per history
fn histories(ctx: &Ctx, env: &Env, m: &Module, s: &Snap, left: usize, crashes: usize, cuts: &[(Op, Fault)], trail: &str) -> Res {
    if left == 0 {
        return Ok(());
    }
    let n = names(m.kind);
    for op in ops(m.kind) {
        let d = env.with(s);
        let t = format!("{} {}", trail, op.name());
        let (_, after) = step(ctx, env, m, &n, &d.0, op, None).map_err(|e| format!("after{}: {}", t, e))?;
        drop(d);
        ctx.beat();
        histories(ctx, env, m, &after, left - 1, crashes, cuts, &t)?;
    }
    // an object with a false witness may be put in place at any time
    if s.get(&n.n[OBJECT]).is_some() && !trail.ends_with("false-object") {
        let mut v = s.clone();
        let r = order(m);
        v.insert(n.n[OBJECT].clone(), serde_json::to_vec(&falsified(m.circ, &r)[0]).unwrap());
        histories(ctx, env, m, &v, left - 1, crashes, cuts, &format!("{} false-object", trail))?;
    }
    if crashes > 0 {
        for (op, f) in cuts {
            let d = env.with(s);
            let t = format!("{} {}[{}{} {}]", trail, op.name(), f.op, f.at, f.mode);
            let (_, after) = step(ctx, env, m, &n, &d.0, *op, Some(f)).map_err(|e| format!("after{}: {}", t, e))?;
            drop(d);
            ctx.beat();
            histories(ctx, env, m, &after, left - 1, crashes - 1, cuts, &t)?;
        }
    }
    Ok(())
}
/// false objects: each number of a true one replaced, wherever that makes the statement false
fn falsified(circ: usize, r: &BigUint) -> Vec<Value> {
    let mut v = vec![];
    let reps: Vec<BigUint> = vec![big(0), big(1), big(4), r - big(1), r - big(3), r - big(4)];
    for (x, y, pick) in [(big(5), big(7), false), (r - big(1), big(2), true), (big(3), big(9), false)].iter() {
        let b = make_object(circ, r, x, y, *pick);
        let mut paths: Vec<Vec<Value>> = vec![];
        fn walk(v: &Value, p: &mut Vec<Value>, o: &mut Vec<Vec<Value>>) {
            match v {
                Value::Array(a) => a.iter().enumerate().for_each(|(i, x)| {
                    p.push(json!(i));
                    walk(x, p, o);
                    p.pop();
                }),
                Value::Object(a) => a.iter().for_each(|(i, x)| {
                    p.push(json!(i));
                    walk(x, p, o);
                    p.pop();
                }),
                _ => o.push(p.clone()),
            }
        }
        walk(&b, &mut vec![], &mut paths);
        for p in &paths {
            for rep in &reps {
                let mut c = b.clone();
                let mut t = &mut c;
                for i in p {
                    t = match i {
                        Value::String(s) => &mut t[s.as_str()],
                        i => &mut t[i.as_u64().unwrap() as usize],
                    };
                }
                *t = match t {
                    Value::Bool(b) => json!(!*b),
                    _ => jd(rep),
                };
                if let Some((_, false)) = object(circ, r, &serde_json::to_vec(&c).unwrap()) {
                    v.push(c);
                }
            }
        }
    }
    v
}

fn explore(ctx: &Ctx, env: &Env) {
    // honest runs under every choice of file names, and over stale longer files
    let mut items = vec![];
    for m in MODULES.iter() {
        for stale in [false, true].iter() {
            items.push((format!("{}/honest run{}", m.name, if *stale { " over stale files" } else { "" }), (*m, 0, 0, *stale)));
        }
        let top = if m.kind == Kind::Eth { 64 } else { 32 };
        for sub in 1..top {
            for style in 0..ctx.t(2, 3) {
                if ctx.thorough() || m.circ == style || sub == top - 1 || (sub as usize).is_power_of_two() {
                    items.push((format!("{}/names {:06b} style {}", m.name, sub, style), (*m, sub, style, sub % 2 == 1)));
                }
            }
        }
    }
    ctx.lap(items.len());
    ctx.par(items, |(m, sub, style, stale)| pipeline(ctx, env, m, *sub, *style, *stale).map(|_| ()));
    if !ctx.spare() {
        return;
    }
    // two honest file sets per module
    let mut sets: Vec<[Snap; 2]> = vec![];
    for m in MODULES.iter() {
        match (pipeline(ctx, env, m, 0, 0, false), pipeline(ctx, env, m, 0, 0, false)) {
            (Ok(a), Ok(b)) => sets.push([a, b]),
            (Err(e), _) | (_, Err(e)) => {
                ctx.fail(&format!("{}/honest run", m.name), e);
                return;
            }
        }
        let n = names(m.kind);
        let s = sets.last().unwrap();
        if s[0][&n.n[PARAMS]] == s[1][&n.n[PARAMS]] || s[0][&n.n[PROOF]] == s[1][&n.n[PROOF]] {
            ctx.fail(&format!("{}/fresh keys", m.name), "two setups or proofs are equal".into());
        }
    }
    ctx.sample(format!("eth1 files: {:?}", sets[1][0].iter().map(|(k, v)| format!("{} {} bytes", k, v.len())).collect::<Vec<_>>()));

    // damaged and exchanged files
    let mut items = vec![];
    for (i, m) in MODULES.iter().enumerate() {
        let n = names(m.kind);
        for f in [VK, PROOF, INPUTS].iter() {
            let b = &sets[i][0][&n.n[*f]];
            if ctx.quick() && m.circ != if m.kind == Kind::Eth && *f != INPUTS { 2 } else { 1 } {
                continue;
            }
            for lo in (0..=b.len()).step_by(16) {
                items.push((format!("{}/{} edited at {}..", m.name, FILES[*f].0, lo), (i, *f, lo)));
            }
        }
    }
    ctx.lap(items.len());
    ctx.par(items, |(i, f, lo)| {
        let m = &MODULES[*i];
        let n = names(m.kind);
        let files = &sets[*i][0];
        let b = &files[&n.n[*f]];
        for k in *lo..(lo + 16).min(b.len()) {
            verify_with(ctx, env, m, files, *f, b[..k].to_vec(), &format!("cut to {} bytes", k))?;
            for e in edits(b[k], m.kind, ctx.thorough()) {
                verify_with(ctx, env, m, files, *f, [&b[..k], &e, &b[k + 1..]].concat(), &format!("byte {} replaced by {:?}", k, e))?;
            }
            ctx.beat();
        }
        if lo + 16 > b.len() {
            for e in [&b"\n"[..], b" ", b"=", b"A", b"AAAA", b"0", b"]", b"}", b"[]", b"\0"].iter() {
                verify_with(ctx, env, m, files, *f, [&b[..], e].concat(), &format!("followed by {:?}", e))?;
            }
            verify_with(ctx, env, m, files, *f, [&b[..], &b[..]].concat(), "doubled")?;
            verify_with(ctx, env, m, files, *f, vec![], "empty")?;
        }
        Ok(())
    });
    // elements exchanged between two honest sets and moved within a file
    let items: Vec<_> = (0..12).flat_map(|i| (0..10).map(move |j| (format!("{}/exchanged elements {}", MODULES[i].name, j), (i, j)))).collect();
    ctx.lap(items.len());
    ctx.par(items, |(i, j)| {
        let m = &MODULES[*i];
        if m.bls {
            exchange::<Bls12>(ctx, env, m, &sets[*i], *j)
        } else {
            exchange::<Bn256>(ctx, env, m, &sets[*i], *j)
        }
    });
    // many public inputs: each place altered, exchanged, dropped, repeated, in the inputs and in the key
    let wide: Mutex<HashMap<&str, Snap>> = Mutex::new(HashMap::new());
    ctx.par(WIDE.iter().map(|m| (format!("{}/honest run", m.name), *m)).collect(), |m| pipeline(ctx, env, m, 0, 0, false).map(|s| drop(wide.lock().unwrap().insert(m.name, s))));
    let wide = wide.into_inner().unwrap();
    let at: Vec<usize> = (0..MANY).filter(|i| ctx.thorough() || i % 32 < 2 || i % 32 > 30 || *i == 7 || *i == 8 || *i == 9 || *i > MANY - 4).collect();
    let items: Vec<_> = WIDE.iter().filter(|m| wide.contains_key(m.name)).flat_map(|m| at.iter().map(move |i| (format!("{}/place {}", m.name, i), (*m, *i)))).collect();
    ctx.lap(items.len());
    ctx.par(items, |(m, i)| {
        if m.bls {
            many::<Bls12>(ctx, env, m, &wide[m.name], *i)
        } else {
            many::<Bn256>(ctx, env, m, &wide[m.name], *i)
        }
    });
    // files of other modules
    let items: Vec<_> = (0..12).flat_map(|i| (0..12).filter(move |j| *j != i).map(move |j| (format!("{}/files of {}", MODULES[i].name, MODULES[j].name), (i, j)))).collect();
    ctx.lap(items.len());
    ctx.par(items, |(i, j)| {
        let (m, o) = (&MODULES[*i], &MODULES[*j]);
        let (n, no) = (names(m.kind), names(o.kind));
        for f in [VK, PROOF, INPUTS].iter() {
            verify_with(ctx, env, m, &sets[*i][0], *f, sets[*j][0][&no.n[*f]].clone(), &format!("of {}", o.name))?;
        }
        // prove with foreign parameters or objects
        for f in [PARAMS, OBJECT].iter() {
            let mut s = sets[*i][0].clone();
            s.insert(n.n[*f].clone(), sets[*j][0][&no.n[*f]].clone());
            let d = env.with(&s);
            if *f == PARAMS && m.bls == o.bls {
                // another circuit's key: nothing is promised about the proof but it must not be accepted
                let (_, c) = (0, exec(env, &d.0, &[m.name, "prove"], None, false)?);
                if c.0.ok() {
                    let (v, _) = exec(env, &d.0, &[m.name, "verify"], None, false)?;
                    ensure!(m.circ == o.circ || !v.says("true"), "a proof made with the parameters of {} is accepted", o.name);
                }
                ctx.point(2);
            } else {
                step(ctx, env, m, &n, &d.0, Op::Prove, None)?;
                step(ctx, env, m, &n, &d.0, Op::Verify, None)?;
            }
        }
        Ok(())
    });
    // objects: true ones, false ones, damaged ones
    let mut items = vec![];
    for (i, m) in MODULES.iter().enumerate() {
        let r = order(m);
        let al: Vec<BigUint> = vec![big(0), big(1), big(2), big(255), pow2(64), &pow2(248) - big(1), (&r - big(1)) >> 1, &r - big(1)];
        let mut objs: Vec<Value> = vec![];
        for x in &al {
            for y in &al {
                for pick in [false, true].iter() {
                    objs.push(make_object(m.circ, &r, x, y, *pick));
                }
            }
        }
        objs.push(make_object(m.circ, &r, &big(3), &big(3), true));
        objs.push(make_object(m.circ, &r, &(&r - big(3)), &big(3), true));
        objs.extend(falsified(m.circ, &r));
        let mut seen = HashSet::new();
        objs.retain(|o| seen.insert(o.to_string()));
        for (j, o) in objs.into_iter().enumerate() {
            items.push((format!("{}/object {}", m.name, j), (i, serde_json::to_vec(&o).unwrap(), false)));
        }
        let b = &sets[i][0][&names(m.kind).n[OBJECT]];
        if ctx.thorough() || m.circ != 0 {
            for k in 0..b.len() {
                items.push((format!("{}/object cut to {}", m.name, k), (i, b[..k].to_vec(), true)));
                for e in edits(b[k], Kind::Eth, ctx.thorough()) {
                    items.push((format!("{}/object byte {} replaced by {:?}", m.name, k, e), (i, [&b[..k], &e, &b[k + 1..]].concat(), true)));
                }
            }
        }
        // numbers not below the order, wrong lengths, wrong shapes
        let text = String::from_utf8(serde_json::to_vec(&test_object(m.circ, &r)).unwrap()).unwrap();
        let num = test_object(m.circ, &r);
        let mut words: Vec<String> = vec![];
        fn strings(v: &Value, o: &mut Vec<String>) {
            match v {
                Value::String(s) => o.push(s.clone()),
                Value::Array(a) => a.iter().for_each(|x| strings(x, o)),
                Value::Object(a) => a.values().for_each(|x| strings(x, o)),
                _ => {}
            }
        }
        strings(&num, &mut words);
        for w in words {
            for rep in [format!("\"{}\"", BigUint::parse_bytes(w.as_bytes(), 10).unwrap() + &r), format!("\"{}\"", r), w.clone(), "null".into(), "\"\"".into(), format!("[\"{}\"]", w), format!("\"0x{}\"", w), format!("\"-{}\"", w), format!("\" {}\"", w), format!("\"00{}\"", w), format!("\"{}\",\"{}\"", w, w)].iter() {
                items.push((format!("{}/object number {} written {}", m.name, w, rep), (i, text.replacen(&format!("\"{}\"", w), rep, 1).into_bytes(), true)));
            }
        }
    }
    ctx.lap(items.len());
    ctx.par(items, |(i, o, damaged)| {
        let m = &MODULES[*i];
        let n = names(m.kind);
        let mut s = sets[*i][0].clone();
        s.insert(n.n[OBJECT].clone(), o.clone());
        s.remove(&n.n[PROOF]);
        s.remove(&n.n[INPUTS]);
        let d = env.with(&s);
        let before = snap(&d.0);
        let (o, after) = if *damaged {
            // may be refused; what is accepted must be right
            let r = exec(env, &d.0, &[m.name, "prove"], None, false)?.0;
            let after = snap(&d.0);
            ctx.point(1);
            let j = if m.bls { judge::<Bls12>(env, m, &n, Op::Prove, Duty::Sound, &before, &after, &r) } else { judge::<Bn256>(env, m, &n, Op::Prove, Duty::Sound, &before, &after, &r) };
            j?;
            (r, after)
        } else {
            step(ctx, env, m, &n, &d.0, Op::Prove, None)?
        };
        if o.ok() {
            step(ctx, env, m, &n, &d.0, Op::Verify, None)?;
            // a number not below the order stands for no public input, whatever the true one is
            let r = order(m);
            let x = dec_inputs(m.kind, &r, &after[&n.n[INPUTS]]).unwrap_or_default();
            let ends = [big(0), big(1), &r - big(1)];
            for (j, v) in x.iter().enumerate() {
                if *damaged || !x.iter().all(|v| ends.contains(v) || v < &big(PAR + 2)) {
                    break;
                }
                for a in [&r + v, r.clone(), &pow2(256) - big(1), &pow2(255) + v].iter().filter(|a| **a >= r) {
                    let mut y = x.clone();
                    y[j] = a.clone();
                    verify_with(ctx, env, m, &after, INPUTS, enc_inputs(m.kind, &y), "value not below the order")?;
                }
            }
        }
        Ok(())
    });
    // parameters: every truncation and byte change
    let mut items = vec![];
    for (i, m) in MODULES.iter().enumerate() {
        if ctx.quick() && m.circ != 2 {
            continue;
        }
        let l = sets[i][0]["params.bin"].len();
        for lo in (0..l).step_by(32) {
            items.push((format!("{}/params edited at {}..", m.name, lo), (i, lo)));
        }
    }
    ctx.lap(items.len());
    ctx.par(items, |(i, lo)| {
        let m = &MODULES[*i];
        let n = names(m.kind);
        let b = &sets[*i][0]["params.bin"];
        for k in *lo..(lo + 32).min(b.len()) {
            for e in 0..ctx.t(2, 6) {
                let c = match e {
                    0 => b[..k].to_vec(),
                    1 => [&b[..k], &[b[k] ^ 1][..], &b[k + 1..]].concat(),
                    2 => [&b[..k], &[b[k] ^ 0x80][..], &b[k + 1..]].concat(),
                    3 => [&b[..k], &[0][..], &b[k + 1..]].concat(),
                    4 => [&b[..k], &b[k + 1..]].concat(),
                    _ => [&b[..k], &[b[k]][..], &b[k..]].concat(),
                };
                let mut s = sets[*i][0].clone();
                s.insert("params.bin".into(), c);
                let d = env.with(&s);
                let (o, _) = exec(env, &d.0, &[m.name, "prove"], None, false)?;
                ctx.point(1);
                ensure!(e != 0 || !o.ok(), "prove succeeds with parameters cut to {} of {} bytes", k, b.len());
                if o.ok() {
                    step(ctx, env, m, &n, &d.0, Op::Verify, None)?;
                }
            }
            ctx.beat();
        }
        Ok(())
    });
    // a fault at every file operation of every command
    let mut items = vec![];
    for (i, m) in MODULES.iter().enumerate() {
        if ctx.quick() && m.circ != 1 {
            continue;
        }
        for op in ops(m.kind) {
            for f in faults(ctx, env, m, &sets[i][0], op) {
                items.push((format!("{}/{} {:?}", m.name, op.name(), f), (i, op, f)));
            }
        }
    }
    ctx.note(format!("{} injected faults", items.len()));
    ctx.lap(items.len());
    ctx.par(items, |(i, op, f)| {
        let m = &MODULES[*i];
        let n = names(m.kind);
        // once into an empty place, once over the files of an earlier run
        for over in [true, false].iter() {
            if ctx.quick() && *over != f.mode.starts_with("kill") {
                continue;
            }
            let mut s = sets[*i][0].clone();
            if !*over {
                for w in op.writes() {
                    s.remove(&n.n[*w]);
                }
            }
            let d = env.with(&s);
            let (o, _) = step(ctx, env, m, &n, &d.0, *op, Some(f))?;
            if o.ok() && (f.mode == "enospc" || f.mode == "eio" || f.mode == "torn") {
                ensure!(*op == Op::Verify || f.op == 'r' || f.op == 'm' || o.code != Some(0), "{} {}: a failing write is reported as success", m.name, op.name());
            }
            // afterwards verify never accepts what does not verify, and the whole run can be repeated
            step(ctx, env, m, &n, &d.0, Op::Verify, None)?;
            if *over && (ctx.thorough() || f.mode == "kill1") {
                for op in ops(m.kind) {
                    let (o, _) = step(ctx, env, m, &n, &d.0, op, None)?;
                    ensure!(op != Op::Verify || o.says("true"), "a run repeated after {:?} of {} is not accepted", f, op.name());
                }
            }
        }
        Ok(())
    });
    // the damaged-file verdict under read faults: wrong inputs are never accepted
    let mut items = vec![];
    for (i, m) in MODULES.iter().enumerate() {
        if m.circ == 2 || (ctx.quick() && m.circ != 1) {
            continue;
        }
        for f in faults(ctx, env, m, &sets[i][0], Op::Verify) {
            for w in [VK, PROOF, INPUTS].iter() {
                items.push((format!("{}/verify wrong {} {:?}", m.name, FILES[*w].0, f), (i, *w, f.clone())));
            }
        }
    }
    ctx.lap(items.len());
    ctx.par(items, |(i, w, f)| {
        let m = &MODULES[*i];
        let n = names(m.kind);
        let mut s = sets[*i][0].clone();
        let b = if *w == INPUTS {
            let x = dec_inputs(m.kind, &order(m), &s[&n.n[INPUTS]]).unwrap();
            enc_inputs(m.kind, &x.iter().map(|x| (x + big(1)) % order(m)).collect::<Vec<_>>())
        } else {
            sets[*i][1][&n.n[*w]].clone()
        };
        s.insert(n.n[*w].clone(), b);
        let d = env.with(&s);
        let (o, _) = step(ctx, env, m, &n, &d.0, Op::Verify, Some(f))?;
        ensure!(!o.says("true"), "true printed for wrong files");
        Ok(())
    });
    // histories
    let mut items = vec![];
    for (i, m) in MODULES.iter().enumerate() {
        if ctx.quick() && m.circ != 0 {
            continue;
        }
        let mut cuts = vec![];
        for op in [Op::Setup, Op::Prove].iter() {
            let c = match calls(env, m, &sets[i][0], *op) {
                Ok(c) => c,
                Err(e) => return ctx.fail(&format!("{}/{} observed", m.name, op.name()), e),
            };
            let w: Vec<usize> = c.iter().filter(|x| x.0 == 'w').map(|x| x.1).collect();
            let mut at = vec![0, w.len() / 2, w.len() - 1];
            at.dedup();
            for a in at {
                cuts.push((*op, Fault { op: 'w', at: a, mode: "kill1" }));
            }
        }
        let n = names(m.kind);
        let mut fresh = Snap::new();
        fresh.insert(n.n[OBJECT].clone(), sets[i][0][&n.n[OBJECT]].clone());
        for (w, s) in [("empty", Snap::new()), ("object", fresh), ("complete", sets[i][0].clone())].iter() {
            // split over the first step for parallelism
            for first in 0..ops(m.kind).len() + cuts.len() {
                items.push((format!("{}/history {} first {}", m.name, w, first), (i, s.clone(), first, cuts.clone())));
            }
        }
    }
    ctx.lap(items.len());
    ctx.par(items, |(i, s, first, cuts)| {
        let m = &MODULES[*i];
        let n = names(m.kind);
        let o = ops(m.kind);
        let d = env.with(s);
        let (op, f) = if *first < o.len() { (o[*first], None) } else { (cuts[*first - o.len()].0, Some(&cuts[*first - o.len()].1)) };
        let (_, after) = step(ctx, env, m, &n, &d.0, op, f)?;
        drop(d);
        let depth = ctx.t(2, 3);
        histories(ctx, env, m, &after, depth, if f.is_some() { 0 } else { 1 }, cuts, &format!(" {}", op.name()))
    });
    // a full device
    let items: Vec<_> = (0..12).flat_map(|i| ops(MODULES[i].kind).into_iter().map(move |o| (i, o))).flat_map(|(i, o)| o.writes().iter().filter(move |w| **w != INPUTS || MODULES[i].circ != 2 || MODULES[i].kind != Kind::Waves).map(move |w| (format!("{}/{} {} on a full device", MODULES[i].name, o.name(), FILES[*w].0), (i, o, *w)))).collect();
    ctx.lap(items.len());
    ctx.par(items, |(i, op, w)| {
        let m = &MODULES[*i];
        let d = env.with(&sets[*i][0]);
        let (o, _) = exec(env, &d.0, &[m.name, op.name(), &format!("--{}", FILES[*w].0), "/dev/full"], None, false)?;
        ctx.point(1);
        ensure!(!o.ok(), "{} reports success although its {} went to a full device", op.name(), FILES[*w].0);
        Ok(())
    });
}

fn many<E: Engine>(ctx: &Ctx, env: &Env, m: &Module, files: &Snap, i: usize) -> Res {
    let n = names(m.kind);
    let k = m.kind;
    let r = fr::<E>();
    let key = dec_key::<E>(k, &files[&n.n[VK]]).unwrap();
    let x = dec_inputs(k, &r, &files[&n.n[INPUTS]]).unwrap();
    let v = |f: usize, b: Vec<u8>, what: &str| verify_with(ctx, env, m, files, f, b, what);
    let j = (i + 1) % MANY;
    let mut y = x.clone();
    y[i] = &y[i] + big(1);
    v(INPUTS, enc_inputs(k, &y), "value replaced")?;
    let mut y = x.clone();
    y.swap(i, j);
    v(INPUTS, enc_inputs(k, &y), "values swapped")?;
    let mut y = x.clone();
    y.remove(i);
    v(INPUTS, enc_inputs(k, &y), "value dropped")?;
    let mut y = x.clone();
    y.insert(i, big(0));
    v(INPUTS, enc_inputs(k, &y), "value inserted")?;
    v(INPUTS, enc_inputs(k, &x[..i]), "cut")?;
    let mut q = key.clone();
    q.ic.swap(i + 1, j);
    v(VK, enc_key::<E>(k, &q), "elements swapped")?;
    let mut q = key.clone();
    q.ic.remove(i + 1);
    v(VK, enc_key::<E>(k, &q), "element dropped")
}

fn exchange<E: Engine>(ctx: &Ctx, env: &Env, m: &Module, sets: &[Snap; 2], part: usize) -> Res {
    let n = names(m.kind);
    let k = m.kind;
    let r = fr::<E>();
    let dk = |s: &Snap| dec_key::<E>(k, &s[&n.n[VK]]).unwrap();
    let dp = |s: &Snap| dec_prf::<E>(k, &s[&n.n[PROOF]]).unwrap();
    let (k0, k1, p0, p1) = (dk(&sets[0]), dk(&sets[1]), dp(&sets[0]), dp(&sets[1]));
    let x = dec_inputs(k, &r, &sets[0][&n.n[INPUTS]]).unwrap();
    let v = |f: usize, b: Vec<u8>, what: &str| verify_with(ctx, env, m, &sets[0], f, b, what);
    // proofs: each element from the other proof, negated, the generator, another of the proof's own
    let neg1 = |g: &E::G1Affine| { let mut g = *g; g.negate(); g };
    let neg2 = |g: &E::G2Affine| { let mut g = *g; g.negate(); g };
    let a1: Vec<E::G1Affine> = vec![p0.a, p1.a, neg1(&p0.a), p0.c, p1.c, neg1(&p0.c), E::G1Affine::one(), k0.alpha, E::G1Affine::zero()];
    let a2: Vec<E::G2Affine> = vec![p0.b, p1.b, neg2(&p0.b), E::G2Affine::one(), k0.g2[0], k0.g2[2], E::G2Affine::zero()];
    if part < a1.len() {
        let lim = if ctx.quick() && m.circ != 1 { 2 } else { 9 };
        if part <= lim {
            for b in a2.iter().take(lim) {
                for c in a1.iter().take(lim) {
                    v(PROOF, enc_prf::<E>(k, &Prf { a: a1[part], b: *b, c: *c }), "recombined")?;
                }
            }
        }
        return Ok(());
    }
    // keys: every element replaced
    for pos in 0..4 + k0.ic.len() {
        for alt in 0..6 {
            let mut q = k0.clone();
            if (1..4).contains(&pos) {
                q.g2[pos - 1] = [k1.g2[pos - 1], neg2(&k0.g2[pos - 1]), E::G2Affine::one(), k0.g2[pos % 3], E::G2Affine::zero(), p0.b][alt];
            } else {
                let o = if pos == 0 { k0.alpha } else { k0.ic[pos - 4] };
                let g = [if pos == 0 { k1.alpha } else { k1.ic[pos - 4] }, neg1(&o), E::G1Affine::one(), k0.ic[(pos + 1) % k0.ic.len()], E::G1Affine::zero(), p0.a][alt];
                if pos == 0 {
                    q.alpha = g;
                } else {
                    q.ic[pos - 4] = g;
                }
            }
            v(VK, enc_key::<E>(k, &q), "element replaced")?;
        }
    }
    for drop in 0..k0.ic.len() {
        let mut q = k0.clone();
        q.ic.remove(drop);
        v(VK, enc_key::<E>(k, &q), "without an element")?;
        let mut q = k0.clone();
        q.ic.insert(drop, k0.ic[0]);
        v(VK, enc_key::<E>(k, &q), "with an element more")?;
    }
    v(VK, enc_key::<E>(k, &k1), "of another setup")?;
    v(PROOF, enc_prf::<E>(k, &p1), "of another setup")?;
    // inputs: each position over an alphabet, permutations, lengths, numbers not below the order
    for i in 0..x.len() {
        for a in [big(0), big(1), big(2), (&x[i] + big(1)) % &r, (&x[i] + &r - big(1)) % &r, &r - &x[i], &r - big(1)].iter() {
            let mut y = x.clone();
            y[i] = a % &r;
            v(INPUTS, enc_inputs(k, &y), "value replaced")?;
        }
        for a in [&x[i] + &r, r.clone(), &pow2(256) - big(1)].iter() {
            let mut y = x.clone();
            if a < &pow2(256) {
                y[i] = a.clone();
                v(INPUTS, enc_inputs(k, &y), "value not below the order")?;
            }
        }
        let mut y = x.clone();
        y.remove(i);
        v(INPUTS, enc_inputs(k, &y), "value dropped")?;
        for j in 0..x.len() {
            let mut y = x.clone();
            y.swap(i, j);
            v(INPUTS, enc_inputs(k, &y), "values swapped")?;
        }
    }
    for e in [big(0), big(1), &r - big(1)].iter() {
        let mut y = x.clone();
        y.push(e.clone());
        v(INPUTS, enc_inputs(k, &y), "value appended")?;
        let mut y = x.clone();
        y.insert(0, e.clone());
        v(INPUTS, enc_inputs(k, &y), "value prepended")?;
    }
    v(INPUTS, enc_inputs(k, &[]), "no values")?;
    // all pairs of set members: accepted exactly when key and proof come from one setup
    for i in 0..2 {
        for j in 0..2 {
            let mut s = sets[0].clone();
            s.insert(n.n[VK].clone(), sets[i][&n.n[VK]].clone());
            s.insert(n.n[PROOF].clone(), sets[j][&n.n[PROOF]].clone());
            let d = env.with(&s);
            let (o, _) = step(ctx, env, m, &n, &d.0, Op::Verify, None)?;
            ensure!(o.says(if i == j { "true" } else { "false" }), "key of setup {} and proof of setup {}: {:?}", i, j, o);
        }
    }
    // the rest of white space and key order is free in JSON
    if k == Kind::Eth {
        for f in [VK, PROOF, INPUTS].iter() {
            let j: Value = serde_json::from_slice(&sets[0][&n.n[*f]]).unwrap();
            for t in [serde_json::to_string(&j).unwrap(), format!(" \n\t{}\r\n ", serde_json::to_string_pretty(&j).unwrap())].iter() {
                v(*f, t.clone().into_bytes(), "reformatted")?;
            }
        }
    }
    Ok(())
}

fn main() {
    let root = std::env::temp_dir().join(format!("c23-{}", std::process::id()));
    std::fs::create_dir_all(&root).unwrap();
    let here = std::env::current_exe().unwrap().parent().unwrap().to_path_buf();
    let env = Env { root: root.clone(), cli: here.join("cli"), fi: here.join("fi.so"), honest: Default::default() };
    if !env.cli.exists() || !env.fi.exists() {
        eprintln!("the command line or the fault library is not built");
        std::process::exit(2);
    }
    struct Clean(PathBuf);
    impl Drop for Clean {
        fn drop(&mut self) {
            let _ = std::fs::remove_dir_all(&self.0);
        }
    }
    let c = Clean(root);
    run(
        "C23",
        &[
            "clap is replaced by a stub with the same derive interface (clap is not available offline); option names, defaults and subcommand names come from the macros' own attributes",
            "a proof accepted by a key with other inputs or of a false statement would need a collision of probability below 2^-200",
            "files are read and written through read, write, pread, pwrite and their vector forms, open, rename, truncate and sync calls",
            "a waves proof file may be followed by further bytes, and base64 padding may be missing: the data is then still complete",
        ],
        true,
        move |ctx| {
            let c = c;
            explore(ctx, &env);
            drop(c);
        },
    )
}
