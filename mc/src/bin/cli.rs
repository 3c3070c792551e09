//! The command-line modules under check: every macro expanded for each of four circuits.
//! usage: cli <macro>_<circuit> <the module's own arguments>
#[macro_use]
extern crate fawkes_crypto_derive;
#[macro_use]
extern crate fawkes_crypto;

macro_rules! circuits {
    ($name:ident, $curve:ident; $($mac:ident => $m0:ident $m1:ident $m2:ident $m3:ident),*) => {
        mod $name {
            use fawkes_crypto::circuit::bool::CBool;
            use fawkes_crypto::circuit::num::CNum;
            use fawkes_crypto::core::cs::ConstraintSystem;
            use fawkes_crypto::core::field::Field;
            use fawkes_crypto::core::signal::Signal;
            use fawkes_crypto::core::sizedvec::SizedVec;
            use fawkes_crypto::native::num::Num;
            use pairing::$curve::Fr;
            use serde::{Deserialize, Serialize};
            use typenum::{U0, U2, U260};

            static PAR: u64 = 3;

            // a = x * y
            #[derive(Clone, Serialize, Deserialize)]
            #[serde(bound(serialize = "", deserialize = ""))]
            pub struct Pair<F: Field> {
                x: Num<F>,
                y: Num<F>,
            }
            #[derive(Clone, Signal)]
            #[Value = "Pair<CS::F>"]
            pub struct CPair<'a, CS: ConstraintSystem> {
                x: CNum<'a, CS>,
                y: CNum<'a, CS>,
            }
            fn main0<'a, CS: ConstraintSystem<F = Fr>>(p: &CNum<'a, CS>, s: &CPair<'a, CS>, _: &u64) {
                (&s.x * &s.y).assert_eq(p)
            }
            fn data0() -> (Num<Fr>, Pair<Fr>) {
                (Num::from(35u64), Pair { x: Num::from(5u64), y: Num::from(7u64) })
            }

            // a = x * y, e = (pick ? x : y, x + PAR)
            #[derive(Clone, Serialize, Deserialize)]
            #[serde(bound(serialize = "", deserialize = ""))]
            pub struct Public<F: Field> {
                a: Num<F>,
                pick: bool,
                e: SizedVec<Num<F>, U2>,
            }
            #[derive(Clone, Signal)]
            #[Value = "Public<CS::F>"]
            pub struct CPublic<'a, CS: ConstraintSystem> {
                a: CNum<'a, CS>,
                pick: CBool<'a, CS>,
                e: SizedVec<CNum<'a, CS>, U2>,
            }
            fn main1<'a, CS: ConstraintSystem<F = Fr>>(p: &CPublic<'a, CS>, s: &CPair<'a, CS>, c: &u64) {
                (&s.x * &s.y).assert_eq(&p.a);
                s.x.switch(&p.pick, &s.y).assert_eq(&p.e[0]);
                let k: CNum<_> = s.x.derive_const(&Num::from(*c));
                (&s.x + &k).assert_eq(&p.e[1]);
            }
            fn data1() -> (Public<Fr>, Pair<Fr>) {
                let (x, y) = (-Num::from(1u64), Num::from(2u64));
                (Public { a: x * y, pick: true, e: [x, x + Num::from(3u64)].iter().cloned().collect() }, Pair { x, y })
            }

            // x * x = PAR * PAR, nothing public
            type CNone<'a, CS> = SizedVec<CNum<'a, CS>, U0>;
            fn main2<'a, CS: ConstraintSystem<F = Fr>>(_: &CNone<'a, CS>, s: &CNum<'a, CS>, c: &u64) {
                (s * s).assert_const(&Num::from(*c * *c))
            }
            fn data2() -> (SizedVec<Num<Fr>, U0>, Num<Fr>) {
                (std::iter::empty().collect(), Num::from(3u64))
            }

            // p[i] = x + i, many public inputs
            type CWide<'a, CS> = SizedVec<CNum<'a, CS>, U260>;
            fn main3<'a, CS: ConstraintSystem<F = Fr>>(p: &CWide<'a, CS>, s: &CNum<'a, CS>, _: &u64) {
                for (i, x) in p.iter().enumerate() {
                    (s + Num::from(i as u64)).assert_eq(x);
                }
            }
            fn data3() -> (SizedVec<Num<Fr>, U260>, Num<Fr>) {
                ((0..260u64).map(|i| Num::from(1000 + i)).collect(), Num::from(1000u64))
            }

            $(
                $mac!($m0, Num<Fr>, CNum, Pair<Fr>, CPair, PAR, main0, data0);
                $mac!($m1, Public<Fr>, CPublic, Pair<Fr>, CPair, PAR, main1, data1);
                $mac!($m2, SizedVec<Num<Fr>, U0>, CNone, Num<Fr>, CNum, PAR, main2, data2);
                $mac!($m3, SizedVec<Num<Fr>, U260>, CWide, Num<Fr>, CNum, PAR, main3, data3);
            )*
            pub fn go(m: &str) -> bool {
                $(
                    if m == stringify!($m0) { $m0::cli_main(); return true; }
                    if m == stringify!($m1) { $m1::cli_main(); return true; }
                    if m == stringify!($m2) { $m2::cli_main(); return true; }
                    if m == stringify!($m3) { $m3::cli_main(); return true; }
                )*
                false
            }
        }
    };
}
circuits!(bn, bn256; groth16_ethereum_bindings => eth0 eth1 eth2 eth3, groth16_waves_bindings_bn256 => wbn0 wbn1 wbn2 wbn3, groth16_near_bindings => near0 near1 near2 near3);
circuits!(bls, bls12_381; groth16_waves_bindings => wav0 wav1 wav2 wav3);

fn main() {
    let m = std::env::args().nth(1).unwrap_or_default();
    if !bn::go(&m) && !bls::go(&m) {
        eprintln!("unknown module {}", m);
        std::process::exit(65);
    }
}
