//! ECDSA over P-256 from FIPS 186-4.
use crate::nat::Nat;
use crate::p256::*;

fn to_n(l: &L) -> L {
    Nat::from_limbs(l).rem(&Nat::from_limbs(&curve().n.m)).to_limbs(4).try_into().unwrap()
}
/// `e` is the 32-byte digest. None when (r, s) is unusable with this nonce.
pub fn sign(d: &L, e: &[u8; 32], k: &L) -> Option<(L, L)> {
    let c = curve();
    let (x, _) = c.mul_g(k)?;
    let r = to_n(&x);
    let z = to_n(&from_be(e));
    let s = c.n.mul(&c.n.inv(&to_n(k)), &c.n.add(&z, &c.n.mul(&r, d)));
    (r != [0; 4] && s != [0; 4]).then_some((r, s))
}
pub fn verify(q: &(L, L), e: &[u8; 32], r: &L, s: &L) -> bool {
    let c = curve();
    for v in [r, s] {
        if *v == [0; 4] || cmp(v, &c.n.m).is_ge() {
            return false;
        }
    }
    let z = to_n(&from_be(e));
    let w = c.n.inv(s);
    let u = c.n.mul(&z, &w);
    let v = c.n.mul(r, &w);
    match c.add(&c.mul_g(&u), &c.mul(&v, &Some(*q))) {
        None => false,
        Some((x, _)) => to_n(&x) == *r,
    }
}
#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn rfc6979_a25() {
        let d = limbs("c9afa9d845ba75166b5c215767b1d6934e50c3db36e89b127b8a622b120f6721");
        let k = limbs("a6e3c57dd01abe90086538398355dd4c3b17aa873382b0f24d6129493d8aad60");
        let e = crate::hash::sha256(b"sample");
        let (r, s) = sign(&d, &e, &k).unwrap();
        assert_eq!(r, limbs("efd48b2aacb6a8fd1140dd9cd45e81d69d2c877b56aaf991c34d0ea84eaf3716"));
        assert_eq!(s, limbs("f7cb1c942d657c41d436c7a1b6e29f65f3e900dbb9aff4064dc4ab2f843acda8"));
        let q = curve().mul_g(&d).unwrap();
        assert!(verify(&q, &e, &r, &s));
        assert!(!verify(&q, &crate::hash::sha256(b"test"), &r, &s));
    }
}
