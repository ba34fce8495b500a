//! ChaCha20, Poly1305 and the AEAD from RFC 8439; Poly1305 uses big naturals.
use crate::nat::Nat;

pub fn chacha20_block(key: &[u8; 32], counter: u32, nonce: &[u8; 12]) -> [u8; 64] {
    let mut s = [0u32; 16];
    let le = |b: &[u8]| u32::from_le_bytes(b.try_into().unwrap());
    for (i, c) in b"expand 32-byte k".chunks(4).enumerate() {
        s[i] = le(c);
    }
    for i in 0..8 {
        s[4 + i] = le(&key[4 * i..4 * i + 4]);
    }
    s[12] = counter;
    for i in 0..3 {
        s[13 + i] = le(&nonce[4 * i..4 * i + 4]);
    }
    let mut w = s;
    let mut qr = |a: usize, b: usize, c: usize, d: usize| {
        w[a] = w[a].wrapping_add(w[b]);
        w[d] = (w[d] ^ w[a]).rotate_left(16);
        w[c] = w[c].wrapping_add(w[d]);
        w[b] = (w[b] ^ w[c]).rotate_left(12);
        w[a] = w[a].wrapping_add(w[b]);
        w[d] = (w[d] ^ w[a]).rotate_left(8);
        w[c] = w[c].wrapping_add(w[d]);
        w[b] = (w[b] ^ w[c]).rotate_left(7);
    };
    for _ in 0..10 {
        qr(0, 4, 8, 12);
        qr(1, 5, 9, 13);
        qr(2, 6, 10, 14);
        qr(3, 7, 11, 15);
        qr(0, 5, 10, 15);
        qr(1, 6, 11, 12);
        qr(2, 7, 8, 13);
        qr(3, 4, 9, 14);
    }
    let mut out = [0; 64];
    for i in 0..16 {
        out[4 * i..4 * i + 4].copy_from_slice(&w[i].wrapping_add(s[i]).to_le_bytes());
    }
    out
}
pub fn chacha20(key: &[u8; 32], counter: u32, nonce: &[u8; 12], data: &[u8]) -> Vec<u8> {
    let mut out = vec![];
    for (i, c) in data.chunks(64).enumerate() {
        let k = chacha20_block(key, counter.wrapping_add(i as u32), nonce);
        out.extend(c.iter().zip(k).map(|(a, b)| a ^ b));
    }
    out
}
pub fn poly1305(key: &[u8; 32], msg: &[u8]) -> [u8; 16] {
    poly1305_zeros(key, 0, msg)
}
/// Poly1305 of `zeros` blocks of zeros followed by `msg`; the sum 2^128 * (r + r^2 + ...) that the
/// zero blocks amount to is found by doubling.
pub fn poly1305_zeros(key: &[u8; 32], zeros: u64, msg: &[u8]) -> [u8; 16] {
    let r = u128::from_le_bytes(key[..16].try_into().unwrap()) & 0x0ffffffc0ffffffc0ffffffc0fffffff;
    let r = Nat::from_u128(r);
    let s = Nat::from_le(&key[16..]);
    let p = Nat::pow2(130).sub(&Nat::from_u64(5));
    let five = Nat::from_u64(5);
    let reduce = |mut a: Nat| {
        // fold 2^130 = 5
        while a.bits() > 130 {
            let hi = a.shr(130);
            let lo = a.sub(&hi.shl(130));
            a = lo.add(&hi.mul(&five));
        }
        if !a.lt(&p) {
            a = a.sub(&p);
        }
        a
    };
    // (r + ... + r^n, r^n), from the highest bit of `zeros` down
    let (mut sum, mut pow) = (Nat::zero(), Nat::from_u64(1));
    for i in (0..64).rev() {
        sum = reduce(sum.add(&sum.mul(&pow)));
        pow = reduce(pow.mul(&pow));
        if zeros >> i & 1 == 1 {
            pow = reduce(pow.mul(&r));
            sum = reduce(sum.add(&pow));
        }
    }
    let mut a = reduce(sum.mul(&Nat::pow2(128)));
    for c in msg.chunks(16) {
        let mut b = c.to_vec();
        b.push(1);
        a = reduce(a.add(&Nat::from_le(&b)).mul(&r));
    }
    a.add(&s).low_u128().to_le_bytes()
}
fn mac_data(aad: &[u8], ct: &[u8]) -> Vec<u8> {
    let mut m = aad.to_vec();
    m.resize(m.len().div_ceil(16) * 16, 0);
    m.extend_from_slice(ct);
    m.resize(m.len().div_ceil(16) * 16, 0);
    m.extend_from_slice(&(aad.len() as u64).to_le_bytes());
    m.extend_from_slice(&(ct.len() as u64).to_le_bytes());
    m
}
pub fn seal(key: &[u8; 32], nonce: &[u8; 12], aad: &[u8], pt: &[u8]) -> (Vec<u8>, [u8; 16]) {
    let otk: [u8; 32] = chacha20_block(key, 0, nonce)[..32].try_into().unwrap();
    let ct = chacha20(key, 1, nonce, pt);
    let t = poly1305(&otk, &mac_data(aad, &ct));
    (ct, t)
}
/// The tag for `aad` zero bytes of associated data and `ct` zero bytes of ciphertext.
pub fn tag_zeros(key: &[u8; 32], nonce: &[u8; 12], aad: u64, ct: u64) -> [u8; 16] {
    let otk: [u8; 32] = chacha20_block(key, 0, nonce)[..32].try_into().unwrap();
    poly1305_zeros(&otk, aad.div_ceil(16) + ct.div_ceil(16), &[aad.to_le_bytes(), ct.to_le_bytes()].concat())
}
pub fn open(key: &[u8; 32], nonce: &[u8; 12], aad: &[u8], ct: &[u8], tag: &[u8]) -> Option<Vec<u8>> {
    let otk: [u8; 32] = chacha20_block(key, 0, nonce)[..32].try_into().unwrap();
    (poly1305(&otk, &mac_data(aad, ct))[..] == *tag).then(|| chacha20(key, 1, nonce, ct))
}

#[cfg(test)]
mod tests {
    use super::*;
    use crate::{hex, unhex};
    #[test]
    fn vectors() {
        // RFC 8439 2.5.2, 2.8.2 and appendix A.3 #7..#11
        let k: [u8; 32] = unhex("85d6be7857556d337f4452fe42d506a80103808afb0db2fd4abff6af4149f51b").try_into().unwrap();
        assert_eq!(hex(&poly1305(&k, b"Cryptographic Forum Research Group")), "a8061dc1305136c6c22b8baf0c0127a9");
        let mut k = [0u8; 32];
        k[0] = 2;
        assert_eq!(hex(&poly1305(&k, &[0xff; 16])), "03000000000000000000000000000000");
        let mut k = [0u8; 32];
        k[0] = 1;
        let m = [[0xff; 16].as_slice(), &unhex("f0ffffffffffffffffffffffffffffff"), &unhex("11000000000000000000000000000000")].concat();
        assert_eq!(hex(&poly1305(&k, &m)), "05000000000000000000000000000000");
        for n in 0..70 {
            let k: [u8; 32] = unhex("85d6be7857556d337f4452fe42d506a80103808afb0db2fd4abff6af4149f51b").try_into().unwrap();
            assert_eq!(poly1305_zeros(&k, n, b"tail of it"), poly1305(&k, &[vec![0; 16 * n as usize].as_slice(), b"tail of it"].concat()));
            assert_eq!(tag_zeros(&k, &[9; 12], n, 0), seal(&k, &[9; 12], &vec![0; n as usize], &[]).1);
        }
        let key: [u8; 32] = (0x80..0xa0).collect::<Vec<u8>>().try_into().unwrap();
        let nonce: [u8; 12] = unhex("070000004041424344454647").try_into().unwrap();
        let aad = unhex("50515253c0c1c2c3c4c5c6c7");
        let pt = b"Ladies and Gentlemen of the class of '99: If I could offer you only one tip for the future, sunscreen would be it.";
        let (c, t) = seal(&key, &nonce, &aad, pt);
        assert_eq!(hex(&t), "1ae10b594f09e26a7e902ecbd0600691");
        assert_eq!(&hex(&c)[..32], "d31a8d34648e60db7b86afbc53ef7ec2");
        assert_eq!(open(&key, &nonce, &aad, &c, &t).unwrap(), pt);
    }
}
