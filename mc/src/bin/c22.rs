//! C22: derived parameters are deterministic and equal their published derivation.
use fawkes_crypto::core::field::Field;
use fawkes_crypto::core::seedbox::SeedboxBlake2;
use fawkes_crypto::native::ecc::JubJubParams;
use fawkes_crypto::native::num::Num;
use fawkes_crypto::native::poseidon::PoseidonParams;
use fawkes_crypto::native::{bls12_381, bls12_381::JubJubBLS12_381, bn256, bn256::JubJubBN256};
use mc::big::*;
use mc::blake::*;
use mc::curve::*;
use mc::ensure;
use mc::fp::Fp;
use mc::psd::seed_elem;
use mc::report::{run, Ctx, Res};
use num::bigint::BigUint;
use rand::Rng;

fn boxes(salt: &Option<Vec<u8>>) -> (SeedboxBlake2, RefBox) {
    match salt {
        None => (SeedboxBlake2::new(), RefBox::new(None)),
        Some(s) => (SeedboxBlake2::new_with_salt(s), RefBox::new(Some(s))),
    }
}
fn salts(dense: bool) -> Vec<Option<Vec<u8>>> {
    let mut v = vec![None];
    for l in 0..=if dense { 300 } else { 140 } {
        v.push(Some((0..l).map(|i| (i * 37 + l * 11 + 5) as u8).collect()));
        v.push(Some(vec![0; l]));
        v.push(Some(vec![255; l]));
    }
    for l in [254usize, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537, 1 << 20] {
        // two salts that differ in their last byte only, so that no prefix decides
        let long: Vec<u8> = (0..l).map(|i| (i * 37 + l * 11 + 5) as u8).collect();
        let mut other = long.clone();
        *other.last_mut().unwrap() ^= 1;
        v.push(Some(long));
        v.push(Some(other));
    }
    for b in 0..=255u8 {
        v.push(Some(vec![b]));
        v.push(Some(vec![b, 0]));
        v.push(Some(vec![0, b]));
    }
    for s in [&b"__fawkes"[..], b"edwards_g", b"eddsaposeidon", b"fawkes_poseidon(t=3,f=8,p=53)", b"test"].iter() {
        v.push(Some(s.to_vec()));
        // the digest of a salt is a salt of its own
        v.push(Some(blake2s(32, &[0; 8], s)));
    }
    v
}
#[derive(Clone, Copy, Debug)]
enum Draw {
    W,
    D,
    Fill(usize),
    Bool,
}
fn draw(d: Draw, a: &mut SeedboxBlake2, b: &mut RefBox) -> Res {
    match d {
        Draw::W => {
            let (x, y) = (a.next_u32(), b.next_u32());
            ensure!(x == y, "word {:08x}, specified {:08x}", x, y)
        }
        Draw::D => {
            let (x, y) = (a.next_u64(), b.next_u64());
            ensure!(x == y, "double word {:016x}, specified {:016x}", x, y)
        }
        Draw::Fill(n) => {
            let mut v = vec![0xa5u8; n];
            a.fill_bytes(&mut v);
            let mut w = vec![];
            while w.len() < n {
                let x = b.next_u64();
                w.extend_from_slice(&x.to_le_bytes()[..(n - w.len()).min(8)]);
            }
            ensure!(v == w, "bytes {:?}, specified {:?}", v, w)
        }
        Draw::Bool => {
            let (x, y) = (a.gen::<bool>(), b.next_u32() & 1 == 1);
            ensure!(x == y, "bool {}, specified {}", x, y)
        }
    }
    Ok(())
}

fn seedbox(ctx: &Ctx) {
    let n = ctx.t(400usize, 4000);
    let all: Vec<(String, Option<Vec<u8>>)> = salts(ctx.thorough())
        .into_iter()
        .enumerate()
        .map(|(i, s)| (format!("stream/salt#{}(len {})", i, s.as_ref().map(|s| s.len() as i64).unwrap_or(-1)), s))
        .collect();
    ctx.par(all, |s| {
        let (mut a, mut b) = boxes(s);
        for i in 0..n {
            draw(Draw::W, &mut a, &mut b).map_err(|e| format!("draw {}: {}", i, e))?;
        }
        ctx.point(n as u64);
        Ok(())
    });
    // long runs: every counter carry within reach
    let long = ctx.t((1u64 << 26) + 64, (1 << 27) + 64);
    let l: Vec<_> = vec![None, Some(b"long".to_vec())].into_iter().enumerate().map(|(i, s)| (format!("long stream/{}", i), s)).collect();
    ctx.par(l, |s| {
        let (mut a, mut b) = boxes(s);
        for i in 0..long {
            draw(Draw::W, &mut a, &mut b).map_err(|e| format!("draw {}: {}", i, e))?;
            if i & 0xfffff == 0 {
                ctx.beat();
            }
        }
        ctx.point(long);
        Ok(())
    });
    if ctx.thorough() {
        // the counter passes 2^32 blocks: the stream is drawn in full and compared around every power of two
        ctx.case("counter past 2^32 blocks", || {
            let mut a = SeedboxBlake2::new();
            let mut compared = 0;
            for n in 0..(1u64 << 32) + 16 {
                let near = (0..33).any(|k| (n + 2).wrapping_sub(1 << k) < 5);
                let mut w = [0u32; 8];
                for x in w.iter_mut() {
                    *x = a.next_u32();
                }
                if near || n >= 1 << 32 {
                    let mut r = RefBox::at(None, n);
                    for (i, x) in w.iter().enumerate() {
                        let y = r.next_u32();
                        ensure!(*x == y, "block {} word {}: {:08x}, specified {:08x}", n, i, x, y);
                    }
                    compared += 8;
                }
                if n & 0xfffff == 0 {
                    ctx.beat();
                }
            }
            ctx.point(compared);
            Ok(())
        });
    }
    // every history of draws of different sizes up to a depth
    let kinds = [Draw::W, Draw::D, Draw::Fill(3), Draw::Fill(8), Draw::Fill(13), Draw::Bool, Draw::Fill(64)];
    let depth = ctx.t(5u32, 7);
    let firsts: Vec<(String, (usize, Option<Vec<u8>>))> = (0..kinds.len())
        .flat_map(|k| {
            vec![None, Some(vec![]), Some(b"mix".to_vec())]
                .into_iter()
                .enumerate()
                .map(move |(i, s)| (format!("draw histories from {:?} salt {}", kinds[k], i), (k, s)))
        })
        .collect();
    ctx.par(firsts, |(k, s)| {
        for code in 0..kinds.len().pow(depth) {
            let (mut a, mut b) = boxes(s);
            draw(kinds[*k], &mut a, &mut b)?;
            let mut c = code;
            for _ in 0..depth {
                draw(kinds[c % kinds.len()], &mut a, &mut b).map_err(|e| format!("history {:?} then code {}: {}", kinds[*k], code, e))?;
                c /= kinds.len();
            }
            draw(Draw::W, &mut a, &mut b)?;
        }
        let n = kinds.len().pow(depth) as u64;
        ctx.st(n);
        ctx.tr(n * depth as u64);
        ctx.trace(n);
        Ok(())
    });
    // generators do not influence each other: all interleavings of three of them
    let inter = ctx.t(9u32, 11);
    ctx.case("interleaved generators", || {
        for code in 0..3u32.pow(inter) {
            let mut v = vec![boxes(&None), boxes(&Some(b"a".to_vec())), boxes(&Some(b"a".to_vec()))];
            let mut c = code;
            for _ in 0..inter {
                let (a, b) = &mut v[(c % 3) as usize];
                draw(Draw::D, a, b).map_err(|e| format!("interleaving {}: {}", code, e))?;
                c /= 3;
            }
        }
        ctx.point(3u64.pow(inter));
        Ok(())
    });
}

fn from_seed<F: Field>(ctx: &Ctx, name: &str) {
    let q = modulus::<F>();
    let nb = num_bytes::<F>();
    let mut seeds: Vec<Vec<u8>> = salts(ctx.thorough()).into_iter().flatten().collect();
    for a in 0..=255u8 {
        for b in (0..=255u8).step_by(ctx.t(5, 1)) {
            seeds.push(vec![a, b]);
        }
    }
    // seeds whose digest is not below the modulus
    let n = seeds.len();
    ctx.case(&format!("from_seed/{}", name), || {
        let mut over = 0;
        for s in seeds {
            let want = seed_elem(&q, nb, &s);
            if BigUint::from_bytes_be(&blake2s(nb, PERSON, &s)) >= q {
                over += 1;
            }
            let got: Num<F> = Num::from_seed(&s);
            ensure!(nbig(&got) == want, "from_seed({:?}) = {}, specified {}", s, nbig(&got), want);
            ensure!(nbig(&Num::<F>::from_seed(&s)) == want, "from_seed({:?}) differs the second time", s);
        }
        ctx.point(n as u64);
        ctx.outcome(&format!("{}: {} of {} digests reduced", name, (over > 0) as u32, "some"));
        Ok(())
    });
}

/// Montgomery radix of a field with n limbs; 1 for the machine-word fields
fn sample(r: &mut RefBox, q: &BigUint, nlimb: usize, rinv: &BigUint) -> BigUint {
    let mask = pow2(q.bits() as usize) - big(1);
    loop {
        let l: Vec<u64> = (0..nlimb).map(|_| r.next_u64()).collect();
        let v = limbs(&l) & &mask;
        if v < *q {
            return v * rinv % q;
        }
    }
}
fn poseidon<F: Field>(ctx: &Ctx, name: &str, shapes: &[(usize, usize, usize)], mont: bool) {
    let q = modulus::<F>();
    let nlimb = if mont { (q.bits() as usize + 63) / 64 } else { 1 };
    let rinv = if mont { inv_mod(&(pow2(64 * nlimb) % &q), &q) } else { big(1) };
    let check = |&(t, f, p): &(usize, usize, usize)| -> Res {
        let par = PoseidonParams::<F>::new(t, f, p);
        let mut r = RefBox::new(Some(format!("fawkes_poseidon(t={},f={},p={})", t, f, p).as_bytes()));
        ensure!((par.t, par.f, par.p) == (t, f, p), "shape {:?}", (par.t, par.f, par.p));
        ensure!(par.c.len() == f + p, "{} round constants", par.c.len());
        ensure!(par.m.len() == t && par.m.iter().all(|r| r.len() == t), "matrix is not {} x {}", t, t);
        for (i, c) in par.c.iter().enumerate() {
            let w = sample(&mut r, &q, nlimb, &rinv);
            ensure!(nbig(c) == w, "round constant {}: {}, specified {}", i, nbig(c), w);
        }
        for i in 0..t {
            for j in 0..t {
                let w = sample(&mut r, &q, nlimb, &rinv);
                ensure!(nbig(&par.m[i][j]) == w, "matrix entry {},{}: {}, specified {}", i, j, nbig(&par.m[i][j]), w);
            }
        }
        ctx.point((f + p + t * t) as u64);
        Ok(())
    };
    let fwd: Vec<_> = shapes.iter().map(|s| (format!("poseidon/{}/{:?}", name, s), *s)).collect();
    let bwd: Vec<_> = shapes.iter().rev().map(|s| (format!("poseidon again/{}/{:?}", name, s), *s)).collect();
    ctx.par(fwd, check);
    ctx.par(bwd, check);
}

struct Spec {
    p: &'static str,
    q: &'static str,
    dn: u64,
    dd: u64,
    u: u64,
}
fn dec(s: &str) -> BigUint {
    s.parse().unwrap()
}
fn curve<J: JubJubParams>(ctx: &Ctx, name: &str, new: impl Fn() -> J, s: Spec) {
    ctx.case(&format!("curve/{}", name), || {
        let j = new();
        let c = BigCurve::of(&j);
        let (p, q) = (dec(s.p), dec(s.q));
        ensure!(c.p == p, "base field modulus {}", c.p);
        ensure!(c.q == q, "scalar field modulus {}", c.q);
        let one = big(1);
        let d = (&p - big(s.dn)) * inv_mod(&big(s.dd), &p) % &p;
        ensure!(c.d == d, "Edwards coefficient {}, specified {}", c.d, d);
        let i = inv_mod(&((&one + &d) % &p), &p);
        let ma = big(2) * sub_mod(&one, &d, &p) % &p * &i % &p;
        let mb = (&p - big(4)) * &i % &p;
        ensure!(c.ma == ma, "Montgomery A {}", c.ma);
        ensure!(c.mb == mb, "Montgomery B {}", c.mb);
        ensure!(c.u == big(s.u), "Montgomery non-residue {}", c.u);
        // consistency
        ensure!(!is_square(&c.u, &p), "the non-residue {} is a square", c.u);
        ensure!(!is_square(&c.d, &p), "d is a square: the addition law is not complete");
        ensure!(is_square(&(&p - &one), &p), "-1 is not a square: the addition law is not complete");
        let disc = sub_mod(&(&ma * &ma % &p), &big(4), &p);
        ensure!(disc != big(0) && !is_square(&disc, &p), "the Montgomery curve has full 2-torsion");
        ensure!(c.on_curve(&c.g), "generator {:?} not on the curve", c.g);
        ensure!(c.g != c.zero(), "generator is the identity");
        ensure!(c.mul(&c.g, &q) == c.zero(), "generator is not of order {}", q);
        // q is prime by C01's field checks; 8q is the only multiple of q in the Hasse interval
        let low = &p + &one - big(2) * p.sqrt() - big(2);
        let high = &p + &one + big(2) * p.sqrt() + big(2);
        let n = &q * big(8);
        ensure!(low <= n && n <= high, "cofactor is not 8");
        ensure!(&n - &q < low && &n + &q > high, "the group order is not determined");
        // derivation of the generator
        let t = seed_elem(&p, num_bytes::<J::Fr>(), b"edwards_g");
        let g = c.from_scalar(&t);
        ensure!(c.g == g, "generator {:?}, specified {:?}", c.g, g);
        // the same at every construction
        for _ in 0..ctx.t(20, 200) {
            let k = BigCurve::of(&new());
            ensure!(k.g == c.g && k.d == c.d && k.ma == c.ma && k.mb == c.mb && k.u == c.u, "parameters differ between constructions");
        }
        let k = BigCurve::of(&j.clone());
        ensure!(k.g == c.g && k.d == c.d && k.ma == c.ma && k.mb == c.mb && k.u == c.u, "a clone has other parameters");
        ctx.point(20);
        ctx.sample(format!("{}: g=({}, {})", name, c.g.0, c.g.1));
        Ok(())
    });
    // the public message key of the signature scheme is the seed's field element
    ctx.case(&format!("seeds/{}", name), || {
        for s in [&b"edwards_g"[..], b"eddsaposeidon"].iter() {
            let got: Num<J::Fr> = Num::from_seed(s);
            ensure!(nbig(&got) == seed_elem(&modulus::<J::Fr>(), num_bytes::<J::Fr>(), s), "from_seed of {:?}", s);
            let got: Num<J::Fs> = Num::from_seed(s);
            ensure!(nbig(&got) == seed_elem(&modulus::<J::Fs>(), num_bytes::<J::Fs>(), s), "from_seed of {:?}", s);
        }
        ctx.point(4);
        Ok(())
    });
}

fn main() {
    run(
        "C22",
        &[
            "the specification of Blake2s is RFC 7693, rewritten in the harness and compared with the RFC's test vector",
            "field sampling follows ff_ce: limbs low first, shaved to the modulus' bit length, rejected when not below it, taken as the Montgomery representation",
        ],
        true,
        |ctx| {
            ctx.case("own Blake2s matches the RFC test vector", || {
                let h: String = blake2s(32, &[0; 8], b"abc").iter().map(|b| format!("{:02x}", b)).collect();
                ensure!(h == "508c5e8c327c14e2e1a72ba34eeb452f37458b209ed63a294d999b4c86675982", "{}", h);
                Ok(())
            });
            seedbox(ctx);
            from_seed::<bn256::Fr>(ctx, "bn256 Fr");
            from_seed::<bn256::Fs>(ctx, "bn256 Fs");
            from_seed::<bls12_381::Fr>(ctx, "bls12_381 Fr");
            from_seed::<bls12_381::Fs>(ctx, "bls12_381 Fs");
            from_seed::<Fp<13>>(ctx, "F13");
            from_seed::<Fp<257>>(ctx, "F257");
            from_seed::<Fp<65521>>(ctx, "F65521");
            let mut small = vec![];
            let (tm, fm, pm) = ctx.t((6, 9, 7), (9, 13, 13));
            for t in 0..tm {
                for f in 0..fm {
                    for p in 0..pm {
                        small.push((t, f, p));
                    }
                }
            }
            let mut prod = vec![
                (2, 8, 52), (3, 8, 53), (4, 8, 54), (5, 8, 60), (6, 8, 60), (7, 8, 61), (9, 8, 63), (11, 8, 64), (12, 8, 65), (10, 100, 110), (17, 8, 68),
                // shapes whose decimal digits coincide when run together
                (1, 11, 1), (11, 1, 1), (1, 1, 11), (1, 12, 3), (11, 2, 3), (1, 2, 13),
                // numbers that do not fit a byte
                (2, 8, 255), (2, 8, 256), (2, 8, 257), (3, 256, 1), (2, 300, 1000), (1, 65536, 1), (1, 1, 65537), (33, 8, 56), (65, 2, 1),
            ];
            poseidon::<bn256::Fr>(ctx, "bn256 Fr", &small, true);
            poseidon::<bls12_381::Fr>(ctx, "bls12_381 Fr", &small, true);
            prod.extend((1..ctx.t(9, 20)).map(|t| (t, 8, 56)));
            poseidon::<bn256::Fr>(ctx, "bn256 Fr ", &prod, true);
            poseidon::<bls12_381::Fr>(ctx, "bls12_381 Fr ", &prod, true);
            poseidon::<bn256::Fs>(ctx, "bn256 Fs", &prod, true);
            poseidon::<bls12_381::Fs>(ctx, "bls12_381 Fs", &prod, true);
            poseidon::<Fp<13>>(ctx, "F13", &small, false);
            poseidon::<Fp<65521>>(ctx, "F65521", &prod, false);
            curve(ctx, "bn256", JubJubBN256::new, Spec {
                p: "21888242871839275222246405745257275088548364400416034343698204186575808495617",
                q: "2736030358979909402780800718157159386076813972158567259200215660948447373041",
                dn: 168696,
                dd: 168700,
                u: 337401,
            });
            curve(ctx, "bls12_381", JubJubBLS12_381::new, Spec {
                p: "52435875175126190479447740508185965837690552500527637822603658699938581184513",
                q: "6554484396890773809930967563523245729705921265872317281365359162392183254199",
                dn: 10240,
                dd: 10241,
                u: 81929,
            });
        },
    )
}
