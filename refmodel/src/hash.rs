//! SHA-256, SHA-512, HMAC, HKDF straight from FIPS 180-4, RFC 2104, RFC 5869.
//! Round constants are computed (fractional parts of roots of primes), not copied.
use crate::nat::Nat;

fn primes(n: usize) -> Vec<u64> {
    let mut v: Vec<u64> = vec![];
    let mut c = 2u64;
    while v.len() < n {
        if v.iter().all(|p| c % p != 0) {
            v.push(c);
        }
        c += 1;
    }
    v
}
/// floor(frac(p^(1/k)) * 2^bits)
fn root_frac(p: u64, k: u32, bits: u32) -> u64 {
    // find floor( (p * 2^(k*bits))^(1/k) ), then drop the integer part
    let target = Nat::from_u64(p).shl((k * bits) as usize);
    let mut lo = Nat::from_u64(0);
    let mut hi = Nat::from_u64(p).shl(bits as usize);
    // invariant lo^k <= target < hi^k (p >= 2 so p^k > p)
    let one = Nat::from_u64(1);
    loop {
        let d = hi.sub(&lo);
        if d.cmp(&one) != std::cmp::Ordering::Greater {
            break;
        }
        let mid = lo.add(&hi).shr(1);
        let mut pow = mid.clone();
        for _ in 1..k {
            pow = pow.mul(&mid);
        }
        if pow.cmp(&target) == std::cmp::Ordering::Greater {
            hi = mid;
        } else {
            lo = mid;
        }
    }
    let m = lo.low_u128();
    if bits == 64 {
        m as u64
    } else {
        (m & ((1u128 << bits) - 1)) as u64
    }
}

struct Tables {
    k256: Vec<u32>,
    h256: Vec<u32>,
    k512: Vec<u64>,
    h512: Vec<u64>,
}
fn tables() -> &'static Tables {
    static T: std::sync::OnceLock<Tables> = std::sync::OnceLock::new();
    T.get_or_init(|| {
        let p = primes(80);
        Tables {
            k256: p[..64].iter().map(|&x| root_frac(x, 3, 32) as u32).collect(),
            h256: p[..8].iter().map(|&x| root_frac(x, 2, 32) as u32).collect(),
            k512: p.iter().map(|&x| root_frac(x, 3, 64)).collect(),
            h512: p[..8].iter().map(|&x| root_frac(x, 2, 64)).collect(),
        }
    })
}

pub fn sha256(msg: &[u8]) -> [u8; 32] {
    let t = tables();
    let mut h: [u32; 8] = t.h256.clone().try_into().unwrap();
    let mut m = msg.to_vec();
    m.push(0x80);
    while m.len() % 64 != 56 {
        m.push(0);
    }
    m.extend_from_slice(&((msg.len() as u64) * 8).to_be_bytes());
    for blk in m.chunks(64) {
        let mut w = [0u32; 64];
        for i in 0..16 {
            w[i] = u32::from_be_bytes(blk[4 * i..4 * i + 4].try_into().unwrap());
        }
        for i in 16..64 {
            let s0 = w[i - 15].rotate_right(7) ^ w[i - 15].rotate_right(18) ^ (w[i - 15] >> 3);
            let s1 = w[i - 2].rotate_right(17) ^ w[i - 2].rotate_right(19) ^ (w[i - 2] >> 10);
            w[i] = w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1);
        }
        let [mut a, mut b, mut c, mut d, mut e, mut f, mut g, mut hh] = h;
        for i in 0..64 {
            let s1 = e.rotate_right(6) ^ e.rotate_right(11) ^ e.rotate_right(25);
            let ch = (e & f) ^ (!e & g);
            let t1 = hh
                .wrapping_add(s1)
                .wrapping_add(ch)
                .wrapping_add(t.k256[i])
                .wrapping_add(w[i]);
            let s0 = a.rotate_right(2) ^ a.rotate_right(13) ^ a.rotate_right(22);
            let maj = (a & b) ^ (a & c) ^ (b & c);
            let t2 = s0.wrapping_add(maj);
            hh = g;
            g = f;
            f = e;
            e = d.wrapping_add(t1);
            d = c;
            c = b;
            b = a;
            a = t1.wrapping_add(t2);
        }
        for (x, y) in h.iter_mut().zip([a, b, c, d, e, f, g, hh]) {
            *x = x.wrapping_add(y);
        }
    }
    let mut out = [0; 32];
    for i in 0..8 {
        out[4 * i..4 * i + 4].copy_from_slice(&h[i].to_be_bytes());
    }
    out
}

pub fn sha512(msg: &[u8]) -> [u8; 64] {
    let t = tables();
    let mut h: [u64; 8] = t.h512.clone().try_into().unwrap();
    let mut m = msg.to_vec();
    m.push(0x80);
    while m.len() % 128 != 112 {
        m.push(0);
    }
    m.extend_from_slice(&((msg.len() as u128) * 8).to_be_bytes());
    for blk in m.chunks(128) {
        let mut w = [0u64; 80];
        for i in 0..16 {
            w[i] = u64::from_be_bytes(blk[8 * i..8 * i + 8].try_into().unwrap());
        }
        for i in 16..80 {
            let s0 = w[i - 15].rotate_right(1) ^ w[i - 15].rotate_right(8) ^ (w[i - 15] >> 7);
            let s1 = w[i - 2].rotate_right(19) ^ w[i - 2].rotate_right(61) ^ (w[i - 2] >> 6);
            w[i] = w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1);
        }
        let [mut a, mut b, mut c, mut d, mut e, mut f, mut g, mut hh] = h;
        for i in 0..80 {
            let s1 = e.rotate_right(14) ^ e.rotate_right(18) ^ e.rotate_right(41);
            let ch = (e & f) ^ (!e & g);
            let t1 = hh
                .wrapping_add(s1)
                .wrapping_add(ch)
                .wrapping_add(t.k512[i])
                .wrapping_add(w[i]);
            let s0 = a.rotate_right(28) ^ a.rotate_right(34) ^ a.rotate_right(39);
            let maj = (a & b) ^ (a & c) ^ (b & c);
            let t2 = s0.wrapping_add(maj);
            hh = g;
            g = f;
            f = e;
            e = d.wrapping_add(t1);
            d = c;
            c = b;
            b = a;
            a = t1.wrapping_add(t2);
        }
        for (x, y) in h.iter_mut().zip([a, b, c, d, e, f, g, hh]) {
            *x = x.wrapping_add(y);
        }
    }
    let mut out = [0; 64];
    for i in 0..8 {
        out[8 * i..8 * i + 8].copy_from_slice(&h[i].to_be_bytes());
    }
    out
}

/// Which hash an HMAC or HKDF is over.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum H {
    Sha256,
    Sha512,
}
impl H {
    pub fn block(self) -> usize {
        match self {
            H::Sha256 => 64,
            H::Sha512 => 128,
        }
    }
    pub fn size(self) -> usize {
        match self {
            H::Sha256 => 32,
            H::Sha512 => 64,
        }
    }
    pub fn hash(self, m: &[u8]) -> Vec<u8> {
        match self {
            H::Sha256 => sha256(m).to_vec(),
            H::Sha512 => sha512(m).to_vec(),
        }
    }
}

pub fn hmac(h: H, key: &[u8], msg: &[u8]) -> Vec<u8> {
    let mut k = if key.len() > h.block() { h.hash(key) } else { key.to_vec() };
    k.resize(h.block(), 0);
    let mut inner: Vec<u8> = k.iter().map(|b| b ^ 0x36).collect();
    inner.extend_from_slice(msg);
    let mut outer: Vec<u8> = k.iter().map(|b| b ^ 0x5c).collect();
    outer.extend_from_slice(&h.hash(&inner));
    h.hash(&outer)
}

pub fn hkdf_extract(h: H, salt: &[u8], ikm: &[u8]) -> Vec<u8> {
    hmac(h, salt, ikm)
}

pub fn hkdf_expand(h: H, prk: &[u8], info: &[u8], len: usize) -> Vec<u8> {
    assert!(len <= 255 * h.size());
    let mut out = vec![];
    let mut t: Vec<u8> = vec![];
    let mut i = 1u8;
    while out.len() < len {
        let mut m = t.clone();
        m.extend_from_slice(info);
        m.push(i);
        t = hmac(h, prk, &m);
        out.extend_from_slice(&t);
        i = i.wrapping_add(1);
    }
    out.truncate(len);
    out
}

#[cfg(test)]
mod tests {
    use super::*;
    use crate::{hex, unhex};
    #[test]
    fn vectors() {
        assert_eq!(hex(&sha256(b"abc")), "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad");
        assert_eq!(hex(&sha256(b"")), "e3b0c44298fc1c149afbf4c8996fb92427ae41e4649b934ca495991b7852b855");
        assert_eq!(hex(&sha512(b"abc")), "ddaf35a193617abacc417349ae20413112e6fa4e89a97ea20a9eeee64b55d39a2192992a274fc1a836ba3c23a3feebbd454d4423643ce80e2a9ac94fa54ca49f");
        // RFC 4231 case 2 and 6 (key longer than a block)
        assert_eq!(hex(&hmac(H::Sha256, b"Jefe", b"what do ya want for nothing?")), "5bdcc146bf60754e6a042426089575c75a003f089d2739839dec58b964ec3843");
        assert_eq!(hex(&hmac(H::Sha256, &[0xaa; 131], b"Test Using Larger Than Block-Size Key - Hash Key First")), "60e431591ee0b67f0d8a26aacbf5b77f8e0bc6213728c5140546040f0ee37f54");
        assert_eq!(hex(&hmac(H::Sha512, &[0xaa; 131], b"Test Using Larger Than Block-Size Key - Hash Key First")), "80b24263c7c1a3ebb71493c1dd7be8b49b46d1f41b4aeec1121b013783f8f3526b56d037e05f2598bd0fd2215d6a1e5295e64f73f63f0aec8b915a985d786598");
        // RFC 5869 case 1
        let prk = hkdf_extract(H::Sha256, &unhex("000102030405060708090a0b0c"), &[0x0b; 22]);
        assert_eq!(hex(&prk), "077709362c2e32df0ddc3f0dc47bba6390b6c73bb50f9c3122ec844ad7c2b3e5");
        assert_eq!(hex(&hkdf_expand(H::Sha256, &prk, &unhex("f0f1f2f3f4f5f6f7f8f9"), 42)), "3cb25f25faacd57a90434f64d0362f2a2d2d0a90cf1a5a4c5db02d56ecc4c5bf34007208d5b887185865");
    }
}
