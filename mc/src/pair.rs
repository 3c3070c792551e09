//! Coordinates of pairing points, read from the pairing library's own uncompressed encoding.
use crate::big::*;
use pairing::{CurveAffine, EncodedPoint};

fn chunks<G: CurveAffine>(g: &G, n: usize) -> Vec<BigUint> {
    let u = g.into_uncompressed();
    let b = u.as_ref();
    let w = b.len() / n;
    if g.is_zero() {
        return vec![big(0); n];
    }
    b.chunks(w).map(BigUint::from_bytes_be).collect()
}
/// x, y
pub fn xy1<G: CurveAffine>(g: &G) -> Vec<BigUint> {
    chunks(g, 2)
}
/// x.c0, x.c1, y.c0, y.c1
pub fn xy2<G: CurveAffine>(g: &G) -> Vec<BigUint> {
    let c = chunks(g, 4);
    vec![c[1].clone(), c[0].clone(), c[3].clone(), c[2].clone()]
}
#[allow(unused)]
fn _t<T: EncodedPoint>() {}
