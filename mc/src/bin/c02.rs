//! C02: every conversion into and out of the native field wrapper against integer arithmetic.
use fawkes_crypto::core::field::Field;
use fawkes_crypto::native::num::Num;
use mc::big::*;
use mc::ensure;
use mc::fp::Fp;
use mc::report::{guard, panics, run, Ctx, Res};
use num::bigint::Sign;

type B = BigUint;
fn mag(n: &BigInt) -> B {
    if n.sign() == Sign::Minus { (-n.clone()).to_biguint().unwrap() } else { n.to_biguint().unwrap() }
}
fn md(n: &BigInt, p: &B) -> B {
    let (s, m) = (n.sign(), mag(n) % p);
    if s == Sign::Minus { sub_mod(&big(0), &m, p) } else { m }
}
fn bi(b: &B) -> BigInt {
    BigInt::from_biguint(Sign::Plus, b.clone())
}
fn lim(p: &B, b: &B) -> bool {
    b < p
}

/// machine integers; a field below the integer's range may refuse (panic) but never be wrong
fn ints<F: Field>(ctx: &Ctx, name: &str) {
    let p = modulus::<F>();
    let mut v: Vec<i128> = vec![];
    for k in 0..65 {
        for d in -2i128..=2 {
            v.push((1i128 << k) + d);
            v.push(-(1i128 << k) + d);
        }
    }
    v.extend(-300..300);
    v.sort();
    v.dedup();
    ctx.case(&format!("{}/machine integers", name), || -> Res {
        let one = |n: i128, ty: &str, f: &dyn Fn() -> Num<F>| -> Res {
            let w = md(&BigInt::from(n), &p);
            ctx.point(1);
            match guard(|| f()) {
                Ok(r) => ensure!(nbig(&r) == w, "Num::from({}{}) = {}, want {}", n, ty, nbig(&r), w),
                Err(m) => {
                    ensure!(!lim(&p, &mag(&BigInt::from(n))), "Num::from({}{}) panics: {}", n, ty, m);
                    ctx.outcome("integer beyond a tiny field refused");
                }
            }
            Ok(())
        };
        for &n in &v {
            if n >= i32::min_value() as i128 && n <= i32::max_value() as i128 {
                one(n, "i32", &|| Num::from(n as i32))?;
            }
            if n >= 0 && n <= u32::max_value() as i128 {
                one(n, "u32", &|| Num::from(n as u32))?;
            }
            if n >= i64::min_value() as i128 && n <= i64::max_value() as i128 {
                one(n, "i64", &|| Num::from(n as i64))?;
            }
            if n >= 0 && n <= u64::max_value() as i128 {
                one(n, "u64", &|| Num::from(n as u64))?;
            }
        }
        ensure!(nbig(&Num::<F>::from(true)) == big(1) && nbig(&Num::<F>::from(false)) == big(0), "from bool");
        ensure!(nbig(&Num::<F>::one()) == big(1) && nbig(&Num::<F>::zero()) == big(0), "one/zero");
        ensure!(nbig(&Num::<F>::minusone()) == &p - big(1), "minusone");
        Ok(())
    });
}

/// integers of any size around the multiples of the prime and the limb/byte boundaries
fn wide<F: Field>(dense: bool) -> Vec<B> {
    let p = modulus::<F>();
    let nb = F::NUM_BITS as usize;
    let mut v = alphabet::<F>(dense);
    let ks: Vec<B> = vec![big(1), big(2), big(3), big(7), big(255), big(256), pow2(32), pow2(64), pow2(nb), &p - big(1), p.clone(), &p + big(1), pow2(3 * nb)];
    for k in &ks {
        for d in 0..3u64 {
            v.push(&p * k + big(d));
            v.push(&p * k - big(d + 1));
        }
        v.push(&p * k + (&p >> 1));
    }
    for k in (0..2 * nb + 20).step_by(if dense { 1 } else { 7 }) {
        v.push(pow2(k));
        v.push(pow2(k) - big(1));
    }
    for k in (8..1200).step_by(8) {
        v.push(pow2(k) - big(1));
    }
    v.sort();
    v.dedup();
    v
}

fn bigs<F: Field>(ctx: &Ctx, name: &str) {
    let p = modulus::<F>();
    let w = wide::<F>(ctx.thorough());
    ctx.note(format!("{}: {} wide integers", name, w.len()));
    let items: Vec<_> = w.chunks(64).enumerate().map(|(i, c)| (format!("{}/wide integers {}", name, i), c.to_vec())).collect();
    ctx.par(items, |c| {
        for x in c {
            let m = x % &p;
            ensure!(nbig(&Num::<F>::from(x.clone())) == m, "from BigUint {}", x);
            ensure!(nbig(&Num::<F>::from(bi(x))) == m, "from BigInt {}", x);
            ensure!(nbig(&Num::<F>::from(-bi(x))) == sub_mod(&big(0), &m, &p), "from BigInt -{}", x);
            let s = x.to_string();
            ensure!(nbig(&Num::<F>::from(&s[..])) == m, "from decimal {}", x);
            let by = if *x == big(0) { vec![] } else { x.to_bytes_be() };
            for z in [0usize, 1, 5, 40].iter() {
                let mut b = vec![0u8; *z];
                b.extend(&by);
                ensure!(nbig(&Num::<F>::from_binary_be(&b)) == m, "from bytes of {} with {} leading zeros", x, z);
            }
            ctx.point(8);
        }
        Ok(())
    });
}

fn bytes<F: Field>(ctx: &Ctx, name: &str) {
    let p = modulus::<F>();
    ctx.case(&format!("{}/byte strings", name), || -> Res {
        let mut all: Vec<Vec<u8>> = vec![vec![]];
        for a in 0..=255u8 {
            all.push(vec![a]);
            for b in 0..=255u8 {
                if ctx.thorough() || b % 5 == 0 || b > 250 {
                    all.push(vec![a, b]);
                }
            }
        }
        // one distinguishing byte at every position of every length
        let top = num_bytes::<F>() * 2 + 3;
        for len in 1..=top {
            for i in 0..len {
                for base in [0u8, 0xff].iter() {
                    let mut v = vec![*base; len];
                    v[i] = 0xa7;
                    all.push(v);
                }
            }
        }
        for b in &all {
            let x = BigUint::from_bytes_be(b);
            ensure!(nbig(&Num::<F>::from_binary_be(b)) == x % &p, "from_binary_be({:?})", b);
        }
        ctx.point(all.len() as u64);
        Ok(())
    });
    ctx.case(&format!("{}/malformed text", name), || -> Res {
        for s in ["", "x", "-1", "1a", " 1", "1 ", "0x10", "1.0", "1e3", "a1", "12 3", "\u{661}", "+-1", "--1", "1\n"].iter() {
            ensure!(panics(|| Num::<F>::from(*s)), "Num::from({:?}) returned a value", s);
        }
        ensure!(nbig(&Num::<F>::from("0")) == big(0), "\"0\"");
        ctx.point(16);
        Ok(())
    });
}

fn read_one<F: Field>(x: &B) -> Res {
    let a = num_of::<F>(x);
    let r: BigUint = a.into();
    ensure!(r == *x, "into BigUint {}: {}", x, r);
    ensure!(a.to_string() == x.to_string(), "to_string {}: {}", x, a.to_string());
    let by = a.into_binary_be();
    ensure!(by == be_bytes(x, num_bytes::<F>()), "into_binary_be {}: {:?}", x, by);
    ensure!(nbig(&Num::<F>::from_binary_be(&by)) == *x, "bytes round trip {}", x);
    let le: Vec<bool> = a.iterbit_le().collect();
    let be: Vec<bool> = a.iterbit_be().collect();
    let mut y = big(0);
    for (i, b) in le.iter().enumerate() {
        if *b {
            y += pow2(i);
        }
    }
    ensure!(y == *x && le.len() >= F::NUM_BITS as usize, "iterbit_le {}: {:?}", x, le);
    let mut y = big(0);
    for b in &be {
        y = (y << 1) + big(*b as u64);
    }
    ensure!(y == *x && be.len() == le.len(), "iterbit_be {}: {:?}", x, be);
    match guard(|| Into::<u64>::into(a)) {
        Ok(v) => ensure!(big(v) == *x, "into u64 of {} returned {}", x, v),
        Err(m) => ensure!(*x >= pow2(64), "into u64 of {} panics: {}", x, m),
    }
    match guard(|| a.into_bool()) {
        Ok(b) => ensure!(big(b as u64) == *x, "into_bool({}) = {}", x, b),
        Err(m) => ensure!(*x > big(1), "into_bool({}) panics: {}", x, m),
    }
    ensure!(nbig(&Num::<F>::from(&a.to_string()[..])) == *x, "decimal round trip {}", x);
    Ok(())
}

fn cross<F: Field, G: Field>(x: &B) -> Res {
    let a = num_of::<F>(x);
    let w = x % modulus::<G>();
    let r = nbig(&Num::<G>::from_other(a));
    ensure!(r == w, "from_other({}) = {}, want {}", x, r, w);
    let r = nbig(&a.into_other::<G>());
    ensure!(r == w, "into_other({}) = {}, want {}", x, r, w);
    Ok(())
}

fn all_reads<F: Field>(ctx: &Ctx, name: &str, elems: Vec<B>) {
    use fawkes_crypto::native::{bls12_381 as bl, bn256 as bn};
    use pairing::{bls12_381 as pbl, bn256 as pbn};
    let items: Vec<_> = elems.chunks(32).enumerate().map(|(i, c)| (format!("{}/reads {}", name, i), c.to_vec())).collect();
    ctx.par(items, |c| {
        for x in c {
            read_one::<F>(x)?;
            cross::<F, bn::Fr>(x)?;
            cross::<F, bn::Fs>(x)?;
            cross::<F, bl::Fr>(x)?;
            cross::<F, bl::Fs>(x)?;
            cross::<F, pbn::Fq>(x)?;
            cross::<F, pbl::Fq>(x)?;
            cross::<F, Fp<251>>(x)?;
            cross::<F, Fp<257>>(x)?;
            cross::<F, Fp<3>>(x)?;
            ctx.point(17);
        }
        ctx.outcome("canonical representative read back");
        Ok(())
    });
}

/// pairs of elements around the other fields' moduli
fn reads_alpha<F: Field>(dense: bool) -> Vec<B> {
    use fawkes_crypto::native::{bls12_381 as bl, bn256 as bn};
    use pairing::{bls12_381 as pbl, bn256 as pbn};
    let p = modulus::<F>();
    let mut v = alphabet::<F>(dense);
    for m in [modulus::<bn::Fr>(), modulus::<bn::Fs>(), modulus::<bl::Fr>(), modulus::<bl::Fs>(), modulus::<pbn::Fq>(), modulus::<pbl::Fq>(), big(251), big(257)].iter() {
        let mut k = 1u64;
        while k <= 8 {
            for d in 0..3u64 {
                v.push(m * big(k) + big(d));
                v.push(m * big(k) - big(d + 1));
            }
            k += 1;
        }
    }
    for k in 1..F::NUM_BITS as usize {
        v.push(pow2(k));
        if dense {
            v.push(pow2(k) + big(1));
            v.push(&p - pow2(k) % &p);
        }
    }
    v.retain(|x| *x < p);
    v.sort();
    v.dedup();
    v
}

fn field<F: Field>(ctx: &Ctx, name: &str) {
    ints::<F>(ctx, name);
    bigs::<F>(ctx, name);
    bytes::<F>(ctx, name);
    all_reads::<F>(ctx, name, reads_alpha::<F>(ctx.thorough()));
}
fn tiny<const P: u64>(ctx: &Ctx) {
    let n = format!("F{}", P);
    ints::<Fp<P>>(ctx, &n);
    bytes::<Fp<P>>(ctx, &n);
    all_reads::<Fp<P>>(ctx, &n, (0..P).map(big).collect());
    // every integer up to 3p^2 and its negative
    let top = 3 * P * P;
    ctx.par((0..top).collect::<Vec<_>>().chunks(4096).map(|c| (format!("{}/integers {}", n, c[0]), c.to_vec())).collect(), |c| {
        for &x in c {
            ensure!(nbig(&Num::<Fp<P>>::from(big(x))) == big(x % P), "from BigUint {}", x);
            ensure!(nbig(&Num::<Fp<P>>::from(-BigInt::from(x))) == big((P - x % P) % P), "from BigInt -{}", x);
        }
        ctx.point(2 * c.len() as u64);
        Ok(())
    });
    ctx.sample(format!("{}: all integers |n| < {} through BigUint and BigInt", n, top));
}

fn main() {
    run(
        "C02",
        &["production fields: boundary alphabets (limb and byte boundaries, neighbourhoods of multiples of every prime, every power of two), not all elements",
          "conversion of a machine integer not below a tiny test field's prime may panic; no supported field is that small"],
        true,
        |ctx| {
            use fawkes_crypto::native::{bls12_381 as bl, bn256 as bn};
            use pairing::{bls12_381 as pbl, bn256 as pbn};
            tiny::<13>(ctx);
            tiny::<251>(ctx);
            tiny::<257>(ctx);
            field::<bn::Fr>(ctx, "bn256.Fr");
            field::<bn::Fs>(ctx, "bn256.Fs");
            field::<pbn::Fq>(ctx, "bn256.Fq");
            field::<bl::Fr>(ctx, "bls12_381.Fr");
            field::<bl::Fs>(ctx, "bls12_381.Fs");
            field::<pbl::Fq>(ctx, "bls12_381.Fq");
        },
    );
}
