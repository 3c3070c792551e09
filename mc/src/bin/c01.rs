//! C01: every operator form of the native field wrapper against integer arithmetic.
use fawkes_crypto::core::field::Field;
use fawkes_crypto::native::num::Num;
use mc::big::*;
use mc::ensure;
use mc::fp::Fp;
use mc::report::{guard, panics, run, Ctx, Res};

macro_rules! forms {
    ($op:tt, $opa:tt, $a:expr, $b:expr) => {{
        let (a, b) = ($a, $b);
        let mut c = a;
        c $opa b;
        let mut d = a;
        d $opa &b;
        [("val op val", a $op b), ("val op ref", a $op &b), ("ref op val", &a $op b), ("ref op ref", &a $op &b), ("assign val", c), ("assign ref", d)]
    }};
}

fn pair<F: Field>(xa: &BigUint, xb: &BigUint, p: &BigUint) -> Res {
    let (a, b) = (num_of::<F>(xa), num_of::<F>(xb));
    let chk = |opn: &str, rs: [(&str, Num<F>); 6], want: BigUint| -> Res {
        for (n, r) in rs.iter() {
            ensure!(nbig(r) == want, "{} {} {} ({}) = {}, want {}", xa, opn, xb, n, nbig(r), want);
        }
        Ok(())
    };
    chk("+", forms!(+, +=, a, b), (xa + xb) % p)?;
    chk("-", forms!(-, -=, a, b), sub_mod(xa, xb, p))?;
    chk("*", forms!(*, *=, a, b), xa * xb % p)?;
    if xb != &big(0) {
        let q = xa * inv_mod(xb, p) % p;
        ensure!(&q * xb % p == *xa, "reference");
        chk("/", forms!(/, /=, a, b), q)?;
    }
    ensure!((a == b) == (xa == xb), "{} == {} wrong", xa, xb);
    ensure!((a != b) == (xa != xb), "{} != {} wrong", xa, xb);
    // operands are not modified by the by-reference forms
    ensure!(nbig(&a) == *xa && nbig(&b) == *xb, "operand changed");
    Ok(())
}

fn single<F: Field>(x: &BigUint, p: &BigUint) -> Res {
    let a = num_of::<F>(x);
    let eq = |n: &str, r: Num<F>, w: BigUint| -> Res {
        ensure!(nbig(&r) == w, "{}({}) = {}, want {}", n, x, nbig(&r), w);
        Ok(())
    };
    eq("neg", -a, sub_mod(&big(0), x, p))?;
    eq("neg ref", -&a, sub_mod(&big(0), x, p))?;
    eq("double", a.double(), (x + x) % p)?;
    eq("square", a.square(), x * x % p)?;
    ensure!(a.is_zero() == (x == &big(0)), "is_zero({})", x);
    let odd = x % big(2) == big(1);
    ensure!(a.is_odd() == odd && a.is_even() == !odd, "parity of {}", x);
    eq("new", Num::new(felt::<F>(x)), x.clone())?;
    eq("into_inner", Num(a.into_inner()), x.clone())?;
    if x == &big(0) {
        ensure!(panics(|| a.inverse()), "inverse of zero returned a value");
        let one = Num::<F>::one();
        ensure!(panics(|| one / a), "1/0 returned a value");
        ensure!(panics(|| &one / &a), "&1/&0 returned a value");
        ensure!(panics(|| one / &a), "1/&0 returned a value");
        ensure!(panics(|| &one / a), "&1/0 returned a value");
        ensure!(panics(|| a / a), "0/0 returned a value");
        ensure!(panics(|| { let mut o = one; o /= a; o }), "1/=0 returned a value");
        ensure!(panics(|| { let mut o = one; o /= &a; o }), "1/=&0 returned a value");
    } else {
        eq("inverse", guard(|| a.inverse())?, inv_mod(x, p))?;
    }
    match a.sqrt() {
        Some(r) => {
            ensure!(nbig(&r) < *p && (nbig(&r) * nbig(&r)) % p == *x, "sqrt({}) = {}", x, nbig(&r));
        }
        None => ensure!(!is_square(x, p), "sqrt({}) is None for a square", x),
    }
    ensure!(a.sqrt().is_some() == is_square(x, p), "sqrt({}) existence", x);
    Ok(())
}

fn field<F: Field>(ctx: &Ctx, name: &str, elems: Vec<BigUint>, squares: bool) {
    let p = modulus::<F>();
    ctx.case(&format!("{}/constants", name), || {
        ensure!(nbig(&Num::<F>::zero()) == big(0), "zero");
        ensure!(nbig(&Num::<F>::one()) == big(1), "one");
        ensure!(nbig(&Num::<F>::minusone()) == &p - big(1), "minusone");
        ctx.point(3);
        Ok(())
    });
    let _ = squares;
    let mut ext = elems.clone();
    // squares of the alphabet as well, so both sqrt branches are met
    ext.extend(elems.iter().map(|x| x * x % &p));
    ext.sort();
    ext.dedup();
    ctx.par(
        ext.chunks(16).enumerate().map(|(i, c)| (format!("{}/unary/{}", name, i), c.to_vec())).collect(),
        |c: &Vec<BigUint>| {
            for x in c {
                single::<F>(x, &p)?;
            }
            ctx.st(c.len() as u64);
            ctx.tr(12 * c.len() as u64);
            ctx.trace(12 * c.len() as u64);
            Ok(())
        },
    );
    ctx.par(
        elems.iter().map(|a| (format!("{}/pair/{}", name, a), a.clone())).collect(),
        |a| {
            for b in &elems {
                pair::<F>(a, b, &p)?;
            }
            ctx.st(elems.len() as u64);
            ctx.tr(26 * elems.len() as u64);
            ctx.trace(26 * elems.len() as u64);
            Ok(())
        },
    );
    ctx.note(format!("{}: {} elements, all ordered pairs", name, elems.len()));
    if let Some(x) = elems.last() {
        ctx.sample(format!("{}: {} op every element, 6 forms of + - * /", name, x));
    }
}

fn all(p: u64) -> Vec<BigUint> {
    (0..p).map(big).collect()
}

fn main() {
    run(
        "C01",
        &["production fields: complete over the listed boundary alphabet, not all 2^254 elements", "num-bigint is the reference integer arithmetic"],
        true,
        |ctx| {
            field::<Fp<3>>(ctx, "F3", all(3), true);
            field::<Fp<5>>(ctx, "F5", all(5), true);
            field::<Fp<7>>(ctx, "F7", all(7), true);
            field::<Fp<13>>(ctx, "F13", all(13), true);
            field::<Fp<61>>(ctx, "F61", all(61), true);
            if ctx.thorough() {
                field::<Fp<251>>(ctx, "F251", all(251), true);
            }
            let d = ctx.thorough();
            field::<Fp<18446744073709551557>>(ctx, "F2^64-59", alphabet::<Fp<18446744073709551557>>(d), true);
            use fawkes_crypto::native::{bls12_381 as bl, bn256 as bn};
            field::<bn::Fr>(ctx, "bn256.Fr", alphabet::<bn::Fr>(d), true);
            field::<bn::Fs>(ctx, "bn256.Fs", alphabet::<bn::Fs>(d), true);
            field::<bl::Fr>(ctx, "bls12_381.Fr", alphabet::<bl::Fr>(d), true);
            field::<bl::Fs>(ctx, "bls12_381.Fs", alphabet::<bl::Fs>(d), true);
            field::<pairing::bn256::Fq>(ctx, "bn256.Fq", alphabet::<pairing::bn256::Fq>(d), true);
            field::<pairing::bls12_381::Fq>(ctx, "bls12_381.Fq", alphabet::<pairing::bls12_381::Fq>(d), true);
        },
    );
}
