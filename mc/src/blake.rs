//! Blake2s (RFC 7693) written from the specification, unkeyed, with personalization.
const IV: [u32; 8] = [
    0x6A09E667, 0xBB67AE85, 0x3C6EF372, 0xA54FF53A, 0x510E527F, 0x9B05688C, 0x1F83D9AB, 0x5BE0CD19,
];
const SIGMA: [[usize; 16]; 10] = [
    [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15],
    [14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3],
    [11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4],
    [7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8],
    [9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13],
    [2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9],
    [12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11],
    [13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10],
    [6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5],
    [10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0],
];

pub fn blake2s(outlen: usize, person: &[u8; 8], data: &[u8]) -> Vec<u8> {
    let w = |b: &[u8]| u32::from_le_bytes([b[0], b[1], b[2], b[3]]);
    let mut h = IV;
    h[0] ^= 0x0101_0000 ^ outlen as u32;
    h[6] ^= w(&person[0..4]);
    h[7] ^= w(&person[4..8]);
    let nblocks = if data.is_empty() { 1 } else { (data.len() + 63) / 64 };
    for b in 0..nblocks {
        let chunk = &data[b * 64..((b + 1) * 64).min(data.len())];
        let mut blk = [0u8; 64];
        blk[..chunk.len()].copy_from_slice(chunk);
        let m: Vec<u32> = (0..16).map(|i| w(&blk[4 * i..])).collect();
        let t = (b * 64 + chunk.len()) as u64;
        let mut v = [0u32; 16];
        v[..8].copy_from_slice(&h);
        v[8..].copy_from_slice(&IV);
        v[12] ^= t as u32;
        v[13] ^= (t >> 32) as u32;
        if b + 1 == nblocks {
            v[14] = !v[14];
        }
        let mut g = |a: usize, bb: usize, c: usize, d: usize, x: u32, y: u32| {
            v[a] = v[a].wrapping_add(v[bb]).wrapping_add(x);
            v[d] = (v[d] ^ v[a]).rotate_right(16);
            v[c] = v[c].wrapping_add(v[d]);
            v[bb] = (v[bb] ^ v[c]).rotate_right(12);
            v[a] = v[a].wrapping_add(v[bb]).wrapping_add(y);
            v[d] = (v[d] ^ v[a]).rotate_right(8);
            v[c] = v[c].wrapping_add(v[d]);
            v[bb] = (v[bb] ^ v[c]).rotate_right(7);
        };
        for s in SIGMA.iter() {
            g(0, 4, 8, 12, m[s[0]], m[s[1]]);
            g(1, 5, 9, 13, m[s[2]], m[s[3]]);
            g(2, 6, 10, 14, m[s[4]], m[s[5]]);
            g(3, 7, 11, 15, m[s[6]], m[s[7]]);
            g(0, 5, 10, 15, m[s[8]], m[s[9]]);
            g(1, 6, 11, 12, m[s[10]], m[s[11]]);
            g(2, 7, 8, 13, m[s[12]], m[s[13]]);
            g(3, 4, 9, 14, m[s[14]], m[s[15]]);
        }
        for i in 0..8 {
            h[i] ^= v[i] ^ v[i + 8];
        }
    }
    let mut out: Vec<u8> = h.iter().flat_map(|x| x.to_le_bytes().to_vec()).collect();
    out.truncate(outlen);
    out
}

pub const PERSON: &[u8; 8] = b"__fawkes";

/// The seeded generator: 32-bit words of block i = Blake2s(LE64(i) || Blake2s(salt)).
pub struct RefBox {
    salt: Vec<u8>,
    n: u64,
    buf: Vec<u32>,
}
impl RefBox {
    pub fn new(salt: Option<&[u8]>) -> Self {
        RefBox { salt: salt.map(|s| blake2s(32, &[0; 8], s)).unwrap_or_default(), n: 0, buf: vec![] }
    }
    /// the stream from block n on
    pub fn at(salt: Option<&[u8]>, n: u64) -> Self {
        RefBox { n, ..Self::new(salt) }
    }
    pub fn next_u32(&mut self) -> u32 {
        if self.buf.is_empty() {
            let mut d = self.n.to_le_bytes().to_vec();
            d.extend_from_slice(&self.salt);
            self.n += 1;
            let b = blake2s(32, PERSON, &d);
            self.buf = b.chunks(4).map(|c| u32::from_le_bytes([c[0], c[1], c[2], c[3]])).collect();
            self.buf.reverse();
        }
        self.buf.pop().unwrap()
    }
    /// rand 0.4's default: high word first
    pub fn next_u64(&mut self) -> u64 {
        ((self.next_u32() as u64) << 32) | self.next_u32() as u64
    }
}
