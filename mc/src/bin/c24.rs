//! C24: keys and proofs take their secrets from the operating system's random source, fresh each time.
//!
//! The random source is replaced in this process: `syscall` is defined here, so that the generator's
//! system calls are answered from a script (all bytes, all faults) while the thread has one installed.
use fawkes_crypto::circuit::num::CNum;
use fawkes_crypto::core::cs::{Circuit, ConstraintSystem};
use fawkes_crypto::core::field::Field;
use fawkes_crypto::core::osrng::OsRng;
use fawkes_crypto::core::signal::Signal;
use fawkes_crypto::helpers::groth16::prover::{generate_keys, prove, Parameters, Proof};
use fawkes_crypto::native::num::Num;
use mc::ensure;
use mc::fp::Fp;
use mc::report::{guard, run, Ctx, Res};
use mc::toy::Toy;
use pairing::{bls12_381::Bls12, bn256::Bn256, Engine};
use rand::Rng;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

// ---- the scripted source ------------------------------------------------------------------------

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Resp {
    Full,
    Short(usize),
    Intr,
    Fatal(i32),
}
const EIO: i32 = 5;
const EINTR: i32 = 4;
const ENOSYS: i32 = 38;
const EPERM: i32 = 1;

#[derive(Clone, Default)]
struct Source {
    bytes: Vec<u8>,
    seed: u64,
    flip: Option<usize>,
    script: BTreeMap<usize, Resp>,
    pos: usize,
    calls: usize,
    fatal: bool,
}
impl Source {
    fn byte(&self, i: usize) -> u8 {
        let b = self.bytes.get(i).copied().unwrap_or_else(|| {
            let mut z = self.seed.wrapping_mul(0x9e3779b97f4a7c15).wrapping_add((i as u64 + 1).wrapping_mul(0xd1342543de82ef95));
            z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
            (z >> 24) as u8
        });
        match self.flip {
            Some(k) if k / 8 == i => b ^ (1 << (k % 8)),
            _ => b,
        }
    }
    fn answer(&mut self, out: &mut [u8]) -> Result<usize, i32> {
        if out.is_empty() {
            return Ok(0); // the library asks whether the call exists
        }
        let r = self.script.get(&self.calls).copied().unwrap_or(Resp::Full);
        self.calls += 1;
        let n = match r {
            Resp::Full => out.len(),
            Resp::Short(k) => k.min(out.len()),
            Resp::Intr => return Err(EINTR),
            Resp::Fatal(e) => {
                self.fatal = true;
                return Err(e);
            }
        };
        for i in 0..n {
            out[i] = self.byte(self.pos + i);
        }
        self.pos += n;
        Ok(n)
    }
}
thread_local! { static SRC: RefCell<Option<Source>> = RefCell::new(None); }

extern "C" {
    fn __errno_location() -> *mut i32;
}
const SYS_GETRANDOM: i64 = 318;

/// every call of the C library's `syscall` in this program comes here
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if n == SYS_GETRANDOM {
        let r = SRC.try_with(|s| {
            s.try_borrow_mut().ok().and_then(|mut s| {
                s.as_mut().map(|s| if b == 0 { Ok(0) } else { s.answer(std::slice::from_raw_parts_mut(a as *mut u8, b as usize)) })
            })
        });
        match r {
            Ok(Some(Ok(k))) => return k as i64,
            Ok(Some(Err(x))) => {
                *__errno_location() = x;
                return -1;
            }
            _ => {}
        }
    }
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _);
    if r < 0 && r > -4096 {
        *__errno_location() = -r as i32;
        return -1;
    }
    r
}

/// run with the source installed; the source afterwards tells what was drawn
fn with<T>(src: Source, f: impl FnOnce() -> T) -> (Result<T, String>, Source) {
    SRC.with(|s| *s.borrow_mut() = Some(src));
    let r = guard(f);
    (r, SRC.with(|s| s.borrow_mut().take().unwrap()))
}

// ---- the generator ------------------------------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    New(usize),
    U32(usize),
    U64(usize),
    Fill(usize, usize),
    Bool(usize),
}
fn perform(ops: &[Op]) -> Vec<Vec<u8>> {
    let mut g = [OsRng::new(), OsRng::new()];
    ops.iter()
        .map(|o| match *o {
            Op::New(k) => {
                g[k] = OsRng::new();
                vec![]
            }
            Op::U32(k) => g[k].next_u32().to_le_bytes().to_vec(),
            Op::U64(k) => g[k].next_u64().to_le_bytes().to_vec(),
            Op::Fill(k, n) => {
                let mut v = vec![0xa5; n];
                g[k].fill_bytes(&mut v);
                v
            }
            Op::Bool(k) => vec![g[k].gen::<bool>() as u8],
        })
        .collect()
}
/// rank over GF(2) of bit strings
fn rank(rows: &[Vec<u8>]) -> usize {
    let mut basis: Vec<Vec<u8>> = vec![];
    for r in rows {
        let mut r = r.clone();
        for b in &basis {
            let lead = b.iter().position(|x| *x != 0).unwrap();
            let top = 7 - b[lead].leading_zeros() as usize;
            if r[lead] >> top & 1 == 1 {
                r.iter_mut().zip(b).for_each(|(x, y)| *x ^= *y);
            }
        }
        if r.iter().any(|x| *x != 0) {
            basis.push(r);
        }
    }
    basis.len()
}

fn history(ctx: &Ctx, ops: &[Op], seed: u64) -> Res {
    let src = Source { seed, ..Default::default() };
    let (base, after) = with(src.clone(), || perform(ops));
    let base = base?;
    let (again, _) = with(src.clone(), || perform(ops));
    ensure!(again? == base, "{:?}: the same source gave different values", ops);
    let mut diffs: Vec<Vec<Vec<u8>>> = vec![vec![]; ops.len()];
    for bit in 0..after.pos * 8 {
        let (r, _) = with(Source { flip: Some(bit), ..src.clone() }, || perform(ops));
        let r = r?;
        ctx.point(1);
        let mut hit = vec![];
        for k in 0..ops.len() {
            if r[k] != base[k] {
                hit.push(k);
                diffs[k].push(r[k].iter().zip(&base[k]).map(|(x, y)| x ^ y).collect());
            }
        }
        ensure!(hit.len() <= 1, "{:?}: bit {} of the source went into the results of operations {:?}", ops, bit, hit);
    }
    for (k, o) in ops.iter().enumerate() {
        let want = if let Op::Bool(_) = o { 1 } else { base[k].len() * 8 };
        let got = rank(&diffs[k]);
        ensure!(got == want, "{:?}: operation {} returns {} bits, of which {} come from the source", ops, k, want, got);
    }
    Ok(())
}
fn histories(ctx: &Ctx, depth: usize) {
    let al = [Op::New(0), Op::U32(0), Op::U64(0), Op::Fill(0, 3), Op::Bool(0), Op::U32(1), Op::U64(1), Op::Fill(1, 9)];
    let mut all: Vec<Vec<Op>> = vec![vec![]];
    let mut last = all.clone();
    for _ in 0..depth {
        last = last.iter().flat_map(|p| al.iter().map(move |o| { let mut p = p.clone(); p.push(*o); p })).collect();
        all.extend(last.iter().cloned());
    }
    let chunks: Vec<_> = all.chunks(64).enumerate().map(|(i, c)| (format!("generator/operation sequences {}", i), c.to_vec())).collect();
    ctx.par(chunks, |c| c.iter().map(|o| history(ctx, o, 7)).collect());
    // long histories: a buffer that is refilled, wrapped or reused shows here
    let long: Vec<_> = [16usize, 17, 64, 65, 130, 300].iter().flat_map(|n| {
        vec![(format!("generator/{} words", n), vec![Op::U32(0); *n]), (format!("generator/{} double words", n), vec![Op::U64(0); *n]), (format!("generator/{} words of two generators", n), (0..*n).map(|i| Op::U32(i % 2)).collect())]
    }).collect();
    ctx.par(long, |o| history(ctx, o, 3));
    ctx.par((0..ctx.t(70usize, 300)).map(|n| (format!("generator/fill {}", n), n)).collect(), |n| history(ctx, &[Op::Fill(0, *n)], 5));
    // many words without flips: no value of a long run repeats
    ctx.case("generator/long run", || {
        let n = ctx.t(1usize << 18, 1 << 22);
        let bytes: Vec<u8> = (0..n as u32).flat_map(|i| (i.wrapping_mul(0x9e3779b1)).to_be_bytes().to_vec()).collect();
        let (r, after) = with(Source { bytes, ..Default::default() }, || {
            let mut g = OsRng::new();
            (0..n).map(|_| g.next_u32()).collect::<Vec<_>>()
        });
        let r = r?;
        ctx.point(n as u64);
        if after.pos == 4 * n {
            let d: std::collections::HashSet<u32> = r.iter().copied().collect();
            ensure!(d.len() == n, "{} draws of distinct source words gave only {} different values", n, d.len());
        }
        Ok(())
    });
}

/// a draw is a bijection of its four source bytes
fn bijection(ctx: &Ctx) {
    let draw = |b: [u8; 4]| with(Source { bytes: b.to_vec(), ..Default::default() }, || OsRng::new().next_u32());
    let mut pairs = vec![];
    for i in 0..4 {
        for j in i + 1..4 {
            for base in vec![[0u8; 4], [255; 4], [0x12, 0x9a, 0xc3, 0x5e]] {
                pairs.push((format!("generator/bytes {} and {} of {:x?}", i, j, base), (i, j, base)));
            }
        }
    }
    ctx.par(pairs, |&(i, j, base)| {
        let mut seen = HashMap::new();
        for v in 0..65536u32 {
            let mut b = base;
            b[i] = v as u8;
            b[j] = (v >> 8) as u8;
            let (r, after) = draw(b);
            let r = r?;
            ensure!(after.pos >= 4, "a word was drawn from {} bytes of the source", after.pos);
            ctx.point(1);
            if let Some(o) = seen.insert(r, b) {
                return Err(format!("source bytes {:x?} and {:x?} give the same word {:x}", o, b, r));
            }
        }
        Ok(())
    });
    if ctx.thorough() {
        let map: Vec<AtomicU64> = (0..1usize << 26).map(|_| AtomicU64::new(0)).collect();
        let hits = AtomicU64::new(0);
        ctx.par((0..256u32).map(|h| (format!("generator/all words starting with byte {}", h), h)).collect(), |h| {
            let src = Source { bytes: vec![0; 4], ..Default::default() };
            SRC.with(|s| *s.borrow_mut() = Some(src));
            let mut g = OsRng::new();
            let r: Res = (|| {
                for v in 0..1u32 << 24 {
                    let b = (v << 8 | h).to_le_bytes();
                    SRC.with(|s| {
                        let mut s = s.borrow_mut();
                        let s = s.as_mut().unwrap();
                        s.pos = 0;
                        s.bytes.copy_from_slice(&b);
                    });
                    let w = g.next_u32();
                    if SRC.with(|s| s.borrow().as_ref().unwrap().pos) != 4 {
                        return Ok(()); // not a draw of exactly these bytes: decided by the histories
                    }
                    let m = 1u64 << (w % 64);
                    ensure!(map[w as usize / 64].fetch_or(m, Relaxed) & m == 0, "two source words give the word {:x}", w);
                    hits.fetch_add(1, Relaxed);
                }
                Ok(())
            })();
            SRC.with(|s| *s.borrow_mut() = None);
            ctx.point(1 << 24);
            r
        });
        ctx.note(format!("{} of 2^32 words were reached exactly once", hits.load(Relaxed)));
    }
}

const RESPS: [Resp; 8] = [Resp::Full, Resp::Short(0), Resp::Short(1), Resp::Short(2), Resp::Short(3), Resp::Intr, Resp::Fatal(EIO), Resp::Fatal(EPERM)];
/// all schedules of partial, interrupted and failing answers of the source
fn faults(ctx: &Ctx, depth: usize) {
    let progs = vec![vec![Op::U32(0)], vec![Op::U64(0)], vec![Op::Fill(0, 7)], vec![Op::U32(0), Op::U32(0)], vec![Op::U32(0), Op::New(0), Op::U32(1)], vec![Op::Bool(0), Op::U32(1)]];
    let items = progs.iter().flat_map(|p| RESPS.iter().map(move |r| (format!("generator/{:?} with the source first answering {:?}", p, r), (p.clone(), *r)))).collect();
    ctx.par(items, |(p, first)| {
        let plain = with(Source { seed: 9, ..Default::default() }, || perform(p)).0?;
        let mut stack = vec![vec![*first]];
        while let Some(s) = stack.pop() {
            let script = s.iter().copied().enumerate().collect();
            let (r, after) = with(Source { seed: 9, script, ..Default::default() }, || perform(p));
            ctx.point(1);
            if after.fatal && r.is_err() {
                ctx.outcome("failing source reported");
                continue;
            }
            // whoever asks again after a failure must end up with the bytes of the source, too
            let r = r.map_err(|e| format!("the source answered {:?}, all recoverable: {}", s, e))?;
            if after.fatal {
                // (a partial answer before the failure may have been thrown away)
                let mut left: Vec<u8> = (0..after.pos).map(|i| after.byte(i)).collect();
                for (k, o) in p.iter().enumerate().filter(|x| !matches!(x.1, Op::Bool(_))) {
                    for b in &r[k] {
                        match left.iter().position(|x| x == b) {
                            Some(i) => left.swap_remove(i),
                            None => return Err(format!("the source answered {:?}: {:?} gave {:x?}, which is not from the source", s, o, r[k])),
                        };
                    }
                }
            }
            ensure!(after.fatal || r == plain, "the source answered {:?}: {:?} gave {:x?}, not {:x?}", s, p, r, plain);
            ctx.outcome("partial answers completed");
            if after.calls > s.len() && s.len() < depth {
                for x in RESPS.iter() {
                    let mut s = s.clone();
                    s.push(*x);
                    stack.push(s);
                }
            }
        }
        Ok(())
    });
    // a source that fails for good, from each call on
    ctx.case("generator/no source", || {
        for e in [ENOSYS, EIO, EPERM].iter() {
            for from in 0..8 {
                let script = (from..100).map(|i| (i, Resp::Fatal(*e))).collect();
                let (r, after) = with(Source { script, ..Default::default() }, || perform(&[Op::U32(0), Op::U32(1), Op::U64(0), Op::Fill(0, 40)]));
                ensure!(!after.fatal || r.is_err(), "the source fails with error {} from call {} on, but the draws returned {:x?}", e, from, r);
                ctx.point(1);
            }
        }
        Ok(())
    });
}

// ---- field elements -----------------------------------------------------------------------------

/// bytes of the source used per drawn 64-bit word, 8 when it cannot be told
fn width() -> usize {
    let (_, s) = with(Source::default(), || OsRng::new().next_u64());
    if (8..=16).contains(&s.pos) {
        s.pos
    } else {
        8
    }
}
/// a source whose k-th 64-bit word consists of the byte v[k]
fn words(v: &[u8]) -> Source {
    let w = width();
    Source { bytes: v.iter().flat_map(|x| vec![*x; w]).collect(), seed: 1, ..Default::default() }
}
fn elements<const P: u64>(ctx: &Ctx) {
    ctx.case(&format!("F{}/random elements", P), || {
        let mut count = vec![0u64; P as usize];
        let bits = 64 - (P as u64).leading_zeros();
        for v in 0..=255u8 {
            let (r, _) = with(words(&[v]), || OsRng::new().gen::<Num<Fp<P>>>());
            let m = v as u64 & ((1 << bits) - 1);
            ctx.point(1);
            if m < P {
                count[r?.0 .0 as usize] += 1;
            }
        }
        ensure!(count.iter().all(|c| *c == 256 >> bits), "the elements are drawn {:?} times", count);
        Ok(())
    });
}
fn real_elements<F: Field>(ctx: &Ctx, tag: &str) {
    ctx.par((0..ctx.t(4u64, 40)).map(|s| (format!("{}/random elements of source {}", tag, s), s)).collect(), |s| {
        let src = Source { seed: *s, ..Default::default() };
        let draw = |src: Source| with(src, || { let mut g = OsRng::new(); [g.gen::<Num<F>>(), g.gen::<Num<F>>()] });
        let (base, after) = draw(src.clone());
        let base = base?;
        let mut own = [0, 0];
        for bit in 0..after.pos * 8 {
            let (r, _) = draw(Source { flip: Some(bit), ..src.clone() });
            let r = r?;
            ctx.point(1);
            for k in 0..2 {
                own[k] += (r[k] != base[k] && r[1 - k] == base[1 - k]) as usize;
            }
        }
        // a first element that was refused and redrawn shifts the second
        ensure!(own[0] >= 230 && own[1] >= 245, "only {:?} bits of the source go into the elements", own);
        Ok(())
    });
}

// ---- keys and proofs ----------------------------------------------------------------------------

thread_local! { static KIND: Cell<usize> = Cell::new(0); }
#[derive(Clone)]
struct Cir<F: Field> {
    kind: usize,
    w: Vec<Option<Num<F>>>,
}
const KINDS: [(&str, usize); 5] = [("square", 1), ("product", 2), ("product and sum", 3), ("secret bit", 1), ("inequality", 2)];
impl<F: Field> Default for Cir<F> {
    fn default() -> Self {
        let kind = KIND.with(|k| k.get());
        Cir { kind, w: vec![None; KINDS[kind].1] }
    }
}
impl<F: Field> Circuit for Cir<F> {
    type F = F;
    fn synthesize<CS: ConstraintSystem<F = F>>(&self, cs: &CS) {
        let v: Vec<CNum<CS>> = self.w.iter().map(|x| Signal::alloc(cs, x.as_ref())).collect();
        match self.kind {
            0 => (&v[0] * &v[0]).inputize(),
            1 => (&v[0] * &v[1]).inputize(),
            2 => {
                // the sum alone would be a variable of one linear row
                (&v[0] * &v[1]).inputize();
                (&v[1] + &v[2]).square().inputize();
            }
            3 => (&v[0] * (&v[0] - Num::<F>::one())).assert_zero(),
            _ => {
                (&v[0] - &v[1]).square().inputize();
                (&v[0] + &v[1]).assert_nonzero();
            }
        }
    }
    fn get_inputs(&self) -> Option<Vec<Num<F>>> {
        None
    }
}
impl<F: Field> Cir<F> {
    /// the statement proved, when the witness satisfies the circuit
    fn statement(&self) -> Option<Vec<Num<F>>> {
        let w: Vec<Num<F>> = self.w.iter().map(|x| x.unwrap()).collect();
        let one = Num::<F>::one();
        let zero = Num::<F>::zero();
        match self.kind {
            0 => Some(vec![w[0] * w[0]]),
            1 => Some(vec![w[0] * w[1]]),
            2 => Some(vec![w[0] * w[1], (w[1] + w[2]) * (w[1] + w[2])]),
            3 if w[0] == zero || w[0] == one => Some(vec![]),
            3 => None,
            _ if w[0] + w[1] == zero => None,
            _ => Some(vec![(w[0] - w[1]) * (w[0] - w[1])]),
        }
    }
}
fn keys<E: Engine>(kind: usize, src: Source) -> (Result<Parameters<E>, String>, Source)
where
    E::Fr: Field,
{
    KIND.with(|k| k.set(kind));
    with(src, || generate_keys::<E, Cir<E::Fr>>())
}
fn show<E: Engine>(p: &Parameters<E>) -> String {
    format!("{:?} {:?} {:?} {:?} {:?} {:?} {:?} {:?} {:?} {:?} {:?} {:?} {:?}", p.vk.alpha_g1, p.vk.beta_g1, p.vk.beta_g2, p.vk.gamma_g2, p.vk.delta_g1, p.vk.delta_g2, p.vk.ic, p.h, p.l, p.a, p.b_g1, p.b_g2, 0)
}
/// base words for which key generation works, as many as it draws (two generators and five secrets,
/// in any order; or the secrets alone)
fn key_words<const P: u64>(kind: usize) -> Result<Vec<u8>, String> {
    for a in 1..P as u8 {
        for b in 0..P as u8 {
            let mut v: Vec<u8> = (0..12u64).map(|i| ((a as u64 * (i * i + i + 1) + b as u64) % (P - 1) + 1) as u8).collect();
            if let (Ok(_), s) = keys::<Toy<P>>(kind, words(&v)) {
                v.truncate(s.pos / width());
                ensure!(v.len() >= 5, "key generation draws only {} words", v.len());
                return Ok(v);
            }
        }
    }
    Err("no choice of secrets gives a key".into())
}

/// key generation: every pair of secrets takes all pairs of values and all keys differ
fn toy_keys<const P: u64>(ctx: &Ctx) {
    let mut items = vec![];
    for kind in 0..KINDS.len() {
        match key_words::<P>(kind) {
            Ok(v) => {
                for i in 0..v.len() {
                    for j in i + 1..v.len() {
                        items.push((format!("F{}/keys of the {} circuit, all values of draws {} and {}", P, KINDS[kind].0, i, j), (kind, v.clone(), i, j)));
                    }
                }
            }
            Err(e) => ctx.fail(&format!("F{}/keys of the {} circuit", P, KINDS[kind].0), e),
        }
    }
    ctx.par(items, |(kind, v, i, j)| {
        let (kind, i, j) = (*kind, *i, *j);
        let mut seen: HashMap<String, (u8, u8)> = HashMap::new();
        let mut good = 0;
        for a in 1..P as u8 {
            for b in 1..P as u8 {
                let mut v = v.clone();
                v[i] = a;
                v[j] = b;
                let src = words(&v);
                let (r, _) = keys::<Toy<P>>(kind, src);
                ctx.point(1);
                // roots of unity are refused
                if let Ok(p) = r {
                    good += 1;
                    if let Some(o) = seen.insert(show(&p), (a, b)) {
                        return Err(format!("secrets {:?} and {:?} give the same key", o, (a, b)));
                    }
                }
            }
        }
        ensure!(good * 6 > P * P, "only {} of {} choices of secrets give a key", good, P * P);
        Ok(())
    });
}

/// over all random choices the proofs of all witnesses of a statement are identically distributed,
/// and take as many values as there are choices
fn hiding<const P: u64>(ctx: &Ctx, kinds: &[usize], nkeys: usize, stride: usize) {
    let mut items = vec![];
    for kind in kinds.iter().copied() {
        for k in 0..nkeys {
            items.push((format!("F{}/proofs of the {} circuit with key {}", P, KINDS[kind].0, k), (kind, k)));
        }
    }
    ctx.par(items, |&(kind, k)| {
        // the k-th trapdoor that gives a key
        let mut found = 0;
        let mut params = None;
        let base = key_words::<P>(kind)?;
        'search: for delta in 1..P as u8 {
            for tau in 2..P as u8 {
                let mut v = base.clone();
                v[base.len() - 2] = delta;
                v[base.len() - 1] = tau;
                if let (Ok(p), _) = keys::<Toy<P>>(kind, words(&v)) {
                    // a polynomial that is zero at a point of so small a field makes the proving
                    // library drop an element of the key it later asks for
                    let any = Cir::<Fp<P>> { kind, w: (0..KINDS[kind].1).map(|i| Some(Num(Fp(if kind == 3 { 1 } else { 3 + i as u64 })))).collect() };
                    if with(words(&[1, 1]), || prove::<Toy<P>, _>(&any, &p)).0.is_err() {
                        continue;
                    }
                    if found == k * 7 {
                        params = Some(p);
                        break 'search;
                    }
                    found += 1;
                }
            }
        }
        let params = match params {
            Some(p) => p,
            None => return Err("no choice of secrets gives a key that proves".into()),
        };
        let n = KINDS[kind].1;
        let mut dist: BTreeMap<Vec<u64>, (Vec<u64>, Vec<(u64, u64, u64)>)> = BTreeMap::new();
        let mut t = vec![0u64; n];
        let mut number = 0usize;
        loop {
            let c = Cir::<Fp<P>> { kind, w: t.iter().map(|x| Some(Num(Fp(*x)))).collect() };
            if let Some(st) = c.statement() {
                number += 1;
                // all witnesses of a few statements
                let st: Vec<u64> = st.iter().map(|x| x.0 .0).collect();
                if st.iter().sum::<u64>() as usize % stride <= 1 {
                    let mut all = vec![];
                    for r in 0..P as u8 {
                        for s in 0..P as u8 {
                            let p = with(words(&[r, s]), || prove::<Toy<P>, _>(&c, &params)).0?;
                            all.push(((p.0.a).0, (p.0.b).0, (p.0.c).0));
                            ctx.point(1);
                        }
                    }
                    all.sort();
                    let ab: BTreeSet<(u64, u64)> = all.iter().map(|x| (x.0, x.1)).collect();
                    ensure!(ab.len() as u64 == P * P, "witness {:?}: {} random choices give only {} different proofs", t, P * P, ab.len());
                    match dist.get(&st) {
                        None => {
                            dist.insert(st, (t.clone(), all));
                        }
                        Some((o, d)) => {
                            ensure!(*d == all, "the proofs of the statement {:?} tell the witness {:?} from {:?}", st, t, o);
                            ctx.outcome("two witnesses, one distribution");
                        }
                    }
                    ctx.beat();
                }
            }
            let mut i = 0;
            while i < n {
                t[i] += 1;
                if t[i] < P {
                    break;
                }
                t[i] = 0;
                i += 1;
            }
            if i == n {
                break;
            }
        }
        ctx.sample(format!("F{} {}: {} witnesses, {} statements compared", P, KINDS[kind].0, number, dist.len()));
        Ok(())
    });
}

/// faults of the source at every call of key generation and proving
fn faulty_runs<E: Engine>(ctx: &Ctx, tag: &str)
where
    E::Fr: Field,
{
    let wit = |kind: usize| Cir::<E::Fr> { kind, w: (0..KINDS[kind].1).map(|i| Some(Num::from(if kind == 3 { 1u64 } else { 3 + i as u64 }))).collect() };
    ctx.par((0..KINDS.len()).map(|k| (format!("{}/faults while keys and proofs of the {} circuit are made", tag, KINDS[k].0), k)).collect(), |&kind| {
        // a source for which the key exists
        let (src, plain, after) = match (0..40).map(|s| Source { seed: s, ..Default::default() }).find_map(|s| match keys::<E>(kind, s.clone()) {
            (Ok(p), a) => Some((s, p, a)),
            _ => None,
        }) {
            Some(x) => x,
            None => return Err("key generation fails".into()),
        };
        let plain_s = show(&plain);
        ensure!(after.calls > 0, "key generation does not use the random source");
        let c = wit(kind);
        let (pr, pa) = with(src.clone(), || prove::<E, _>(&c, &plain));
        let text = |p: Proof<E>| format!("{:?} {:?} {:?}", p.0.a, p.0.b, p.0.c);
        let pr = text(pr?);
        ensure!(pa.calls > 0, "proving does not use the random source");
        for at in 0..after.calls.max(pa.calls) {
            for r in vec![Resp::Short(0), Resp::Short(1), Resp::Short(3), Resp::Intr, Resp::Fatal(EIO)] {
                // a failure lasts
                let last = if let Resp::Fatal(_) = r { at + 200 } else { at };
                let f = |s: &Source| Source { script: (at..=last).map(|i| (i, r)).collect(), ..s.clone() };
                if at < after.calls {
                    let (k, a) = keys::<E>(kind, f(&src));
                    ctx.point(1);
                    if a.fatal {
                        ensure!(k.is_err(), "the source failed at call {} of key generation and a key was made", at);
                    } else {
                        ensure!(show(&k?) == plain_s, "key generation with answer {:?} at call {} gives another key", r, at);
                    }
                }
                if at < pa.calls {
                    let (k, a) = with(f(&src), || prove::<E, _>(&c, &plain));
                    ctx.point(1);
                    if a.fatal {
                        ensure!(k.is_err(), "the source failed at call {} of proving and a proof was made", at);
                    } else {
                        ensure!(text(k?) == pr, "proving with answer {:?} at call {} gives another proof", r, at);
                    }
                }
            }
        }
        Ok(())
    });
}

/// which bits of the source each part of a key and of a proof depends on
fn influence<E: Engine>(ctx: &Ctx, tag: &str, kinds: &[usize])
where
    E::Fr: Field,
{
    for kind in kinds.iter().copied() {
        let src = Source { seed: 11 + kind as u64, ..Default::default() };
        let parts = |p: &Parameters<E>| vec![format!("{:?}", p.vk.alpha_g1), format!("{:?}", p.vk.beta_g2), format!("{:?}", p.vk.gamma_g2), format!("{:?}", p.vk.delta_g2), format!("{:?}", p.a), format!("{:?}", p.h)];
        let (k, after) = keys::<E>(kind, src.clone());
        let key = match k {
            Ok(k) => k,
            Err(e) => {
                ctx.fail(&format!("{}/key of the {} circuit", tag, KINDS[kind].0), e);
                continue;
            }
        };
        let base = parts(&key);
        let sets: Vec<std::sync::Mutex<BTreeSet<usize>>> = base.iter().map(|_| Default::default()).collect();
        ctx.par((0..after.pos).map(|b| (format!("{}/key of the {} circuit with byte {} of the source changed", tag, KINDS[kind].0, b), b)).collect(), |b| {
            for bit in 8 * b..8 * b + 8 {
                let (k, _) = keys::<E>(kind, Source { flip: Some(bit), ..src.clone() });
                ctx.point(1);
                if let Ok(k) = k {
                    for (i, p) in parts(&k).iter().enumerate() {
                        if *p != base[i] {
                            sets[i].lock().unwrap().insert(bit);
                        }
                    }
                }
            }
            Ok(())
        });
        let sets: Vec<BTreeSet<usize>> = sets.into_iter().map(|s| s.into_inner().unwrap()).collect();
        ctx.case(&format!("{}/secrets of the key of the {} circuit", tag, KINDS[kind].0), || {
            let own = |i: usize, others: &[usize]| sets[i].iter().filter(|b| others.iter().all(|o| !sets[*o].contains(b))).count();
            let names = ["alpha", "beta", "gamma", "delta"];
            for i in 0..4 {
                let others: Vec<usize> = (0..4).filter(|j| *j != i).collect();
                let n = own(i, &others);
                ensure!(n >= 225, "{} depends on only {} bits of the source of its own", names[i], n);
            }
            let n = own(4, &[0, 1, 2, 3]);
            ensure!(n >= 225, "the evaluation point depends on only {} bits of the source of its own", n);
            Ok(())
        });
        // proofs
        let c = Cir::<E::Fr> { kind, w: (0..KINDS[kind].1).map(|i| Some(Num::from(if kind == 3 { 1u64 } else { 3 + i as u64 }))).collect() };
        ctx.case(&format!("{}/proof of the {} circuit", tag, KINDS[kind].0), || {
            let parts = |p: &Proof<E>| vec![format!("{:?}", p.0.a), format!("{:?}", p.0.b), format!("{:?}", p.0.c)];
            let (p, after) = with(src.clone(), || prove::<E, _>(&c, &key));
            let base = parts(&p?);
            let (mut a, mut b, mut both) = (0, 0, 0);
            for bit in 0..after.pos * 8 {
                let q = parts(&with(Source { flip: Some(bit), ..src.clone() }, || prove::<E, _>(&c, &key)).0?);
                ctx.point(1);
                match (q[0] != base[0], q[1] != base[1]) {
                    (true, false) => a += 1,
                    (false, true) => b += 1,
                    (true, true) => both += 1,
                    _ => {}
                }
                ensure!((q[0] == base[0] && q[1] == base[1]) || q[2] != base[2], "C does not follow the random choices");
                ctx.beat();
            }
            ctx.sample(format!("{} {}: A depends on {} bits alone, B on {}, both on {}", tag, KINDS[kind].0, a, b, both));
            ensure!(a >= 230 && b >= 245, "A depends on only {} bits of the source of its own, B on {}", a, b);
            Ok(())
        });
    }
}

/// keys and proofs of one process, in every order, share no random choice
fn runs(ctx: &Ctx) {
    const P: u64 = 257;
    let n = ctx.t(5usize, 8);
    ctx.par((0..1usize << n).map(|m| (format!("F{}/sequence {:b} of keys and proofs", P, m), m)).collect(), |m| {
        let key = (0..20).find_map(|s| keys::<Toy<P>>(1, Source { seed: s, ..Default::default() }).0.ok()).ok_or("no key")?;
        let c = Cir::<Fp<P>> { kind: 1, w: vec![Some(Num(Fp(5))), Some(Num(Fp(9)))] };
        let go = |src: Source| with(src, || -> Vec<(usize, String)> {
            (0..n).map(|i| {
                let at = SRC.with(|s| s.borrow().as_ref().unwrap().pos);
                let out = if m >> i & 1 == 1 {
                    KIND.with(|k| k.set(1));
                    match guard(|| generate_keys::<Toy<P>, Cir<Fp<P>>>()) { Ok(k) => show(&k), Err(_) => "refused".into() }
                } else {
                    format!("{:?}", prove::<Toy<P>, _>(&c, &key).0)
                };
                (at, out)
            }).collect()
        });
        let src = Source { seed: 100 + *m as u64, ..Default::default() };
        let (base, after) = go(src.clone());
        let base = base?;
        let ends: Vec<usize> = (0..n).map(|i| if i + 1 < n { base[i + 1].0 } else { after.pos }).collect();
        for i in 0..n {
            ensure!(ends[i] >= base[i].0 + 16, "operation {} of {:b} drew only {} bytes", i, m, ends[i] - base[i].0);
            // the later runs do not depend on the bytes of this one
            for bit in (base[i].0 * 8..ends[i] * 8).step_by(ctx.t(7, 1)) {
                let (r, a) = go(Source { flip: Some(bit), ..src.clone() });
                let r = r?;
                ctx.point(1);
                if a.pos != after.pos || (0..n).any(|k| r[k].0 != base[k].0) {
                    continue; // a value was refused and redrawn
                }
                for k in 0..n {
                    ensure!(k == i || r[k] == base[k], "a random bit of run {} of {:b} is used by run {}", i, m, k);
                }
            }
        }
        Ok(())
    });
}

fn main() {
    run(
        "C24",
        &[
            "the operating system's source is the getrandom system call, answered by the check; that its real answers are unpredictable is the kernel's promise",
            "the draw is a bijection of its source bytes over all 2^32 words (thorough; all pairs of bytes in quick); longer results are decided by the rank of their dependence on single source bits",
            "identical distribution of proofs is complete over all random choices for primes 17 and 97 in the exponent; on the production engines the dependence on every source bit is measured",
        ],
        true,
        |ctx| {
            let (r, s) = with(Source::default(), || OsRng::new().next_u32());
            if r.is_ok() && s.calls == 0 {
                ctx.fail("generator/source", "a word was drawn without asking the operating system".into());
            }
            histories(ctx, ctx.t(3, 4));
            bijection(ctx);
            faults(ctx, ctx.t(5, 7));
            elements::<17>(ctx);
            elements::<13>(ctx);
            elements::<3>(ctx);
            elements::<251>(ctx);
            real_elements::<fawkes_crypto::native::bn256::Fr>(ctx, "bn256");
            real_elements::<fawkes_crypto::native::bls12_381::Fr>(ctx, "bls12_381");
            toy_keys::<17>(ctx);
            hiding::<17>(ctx, &[0, 1, 2, 3, 4], ctx.t(2, 8), ctx.t(9, 2));
            hiding::<97>(ctx, &[0, 3], ctx.t(1, 3), ctx.t(60, 20));
            runs(ctx);
            faulty_runs::<Toy<257>>(ctx, "toy");
            faulty_runs::<Bn256>(ctx, "bn256");
            faulty_runs::<Bls12>(ctx, "bls12_381");
            influence::<Bn256>(ctx, "bn256", if ctx.quick() { &[1] } else { &[0, 1, 2, 3, 4] });
            influence::<Bls12>(ctx, "bls12_381", if ctx.quick() { &[0] } else { &[0, 1, 2, 3, 4] });
        },
    );
}
