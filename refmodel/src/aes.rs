//! AES and AES-GCM from FIPS 197 and SP 800-38D; the S-box is computed, GHASH is bit-serial.
fn xt(a: u8) -> u8 {
    (a << 1) ^ if a & 0x80 != 0 { 0x1b } else { 0 }
}
fn gmul(mut a: u8, mut b: u8) -> u8 {
    let mut r = 0;
    while b != 0 {
        if b & 1 == 1 {
            r ^= a;
        }
        a = xt(a);
        b >>= 1;
    }
    r
}
fn sbox() -> &'static [u8; 256] {
    static T: std::sync::OnceLock<[u8; 256]> = std::sync::OnceLock::new();
    T.get_or_init(|| {
        let mut t = [0u8; 256];
        for x in 0..256usize {
            let inv = if x == 0 { 0 } else { (1..=255u8).find(|&y| gmul(x as u8, y) == 1).unwrap() };
            let r = |n: u32| inv.rotate_left(n);
            t[x] = inv ^ r(1) ^ r(2) ^ r(3) ^ r(4) ^ 0x63;
        }
        t
    })
}

#[derive(Clone)]
pub struct Aes {
    rk: Vec<[u8; 16]>,
}
impl Aes {
    /// Key of 16, 24 or 32 bytes.
    pub fn new(key: &[u8]) -> Aes {
        let nk = key.len() / 4;
        let nr = nk + 6;
        let s = sbox();
        let mut w: Vec<[u8; 4]> = key.chunks(4).map(|c| c.try_into().unwrap()).collect();
        let mut rc = 1u8;
        for i in nk..4 * (nr + 1) {
            let mut t = w[i - 1];
            if i % nk == 0 {
                t = [s[t[1] as usize] ^ rc, s[t[2] as usize], s[t[3] as usize], s[t[0] as usize]];
                rc = xt(rc);
            } else if nk > 6 && i % nk == 4 {
                t = t.map(|b| s[b as usize]);
            }
            let p = w[i - nk];
            w.push([p[0] ^ t[0], p[1] ^ t[1], p[2] ^ t[2], p[3] ^ t[3]]);
        }
        Aes {
            rk: w.chunks(4).map(|c| c.concat().try_into().unwrap()).collect(),
        }
    }
    pub fn encrypt(&self, blk: [u8; 16]) -> [u8; 16] {
        let s = sbox();
        let mut st = blk;
        let add = |st: &mut [u8; 16], k: &[u8; 16]| {
            for i in 0..16 {
                st[i] ^= k[i];
            }
        };
        add(&mut st, &self.rk[0]);
        let n = self.rk.len() - 1;
        for r in 1..=n {
            st = st.map(|b| s[b as usize]);
            let o = st;
            for c in 0..4 {
                for row in 0..4 {
                    st[4 * c + row] = o[4 * ((c + row) % 4) + row];
                }
            }
            if r != n {
                for c in 0..4 {
                    let a: [u8; 4] = st[4 * c..4 * c + 4].try_into().unwrap();
                    for row in 0..4 {
                        st[4 * c + row] = xt(a[row])
                            ^ (xt(a[(row + 1) % 4]) ^ a[(row + 1) % 4])
                            ^ a[(row + 2) % 4]
                            ^ a[(row + 3) % 4];
                    }
                }
            }
            add(&mut st, &self.rk[r]);
        }
        st
    }
}

fn gf_mul(x: u128, y: u128) -> u128 {
    // the product with zero, which long runs of zeros need often
    if x == 0 {
        return 0;
    }
    let mut z = 0u128;
    let mut v = y;
    for i in 0..128 {
        if x >> (127 - i) & 1 == 1 {
            z ^= v;
        }
        v = if v & 1 == 1 { (v >> 1) ^ (0xe1u128 << 120) } else { v >> 1 };
    }
    z
}
fn ghash(h: u128, aad: &[u8], ct: &[u8]) -> u128 {
    let mut y = 0u128;
    let mut feed = |d: &[u8]| {
        for c in d.chunks(16) {
            let mut b = [0u8; 16];
            b[..c.len()].copy_from_slice(c);
            y = gf_mul(y ^ u128::from_be_bytes(b), h);
        }
    };
    feed(aad);
    feed(ct);
    feed(&((aad.len() as u128 * 8) << 64 | (ct.len() as u128 * 8)).to_be_bytes());
    y
}
fn ctr(aes: &Aes, j0: [u8; 16], data: &[u8]) -> Vec<u8> {
    let mut cb = j0;
    let mut out = vec![];
    for c in data.chunks(16) {
        let n = u32::from_be_bytes(cb[12..].try_into().unwrap()).wrapping_add(1);
        cb[12..].copy_from_slice(&n.to_be_bytes());
        let k = aes.encrypt(cb);
        out.extend(c.iter().zip(k).map(|(a, b)| a ^ b));
    }
    out
}
/// (ciphertext, tag) with a 96-bit IV.
pub fn gcm_seal(key: &[u8], iv: &[u8; 12], aad: &[u8], pt: &[u8]) -> (Vec<u8>, [u8; 16]) {
    let aes = Aes::new(key);
    let h = u128::from_be_bytes(aes.encrypt([0; 16]));
    let mut j0 = [0u8; 16];
    j0[..12].copy_from_slice(iv);
    j0[15] = 1;
    let ct = ctr(&aes, j0, pt);
    let tag = ghash(h, aad, &ct) ^ u128::from_be_bytes(aes.encrypt(j0));
    (ct, tag.to_be_bytes())
}
/// The tag alone, for a ciphertext.
pub fn gcm_tag(key: &[u8], iv: &[u8; 12], aad: &[u8], ct: &[u8]) -> [u8; 16] {
    let aes = Aes::new(key);
    let h = u128::from_be_bytes(aes.encrypt([0; 16]));
    let mut j0 = [0u8; 16];
    j0[..12].copy_from_slice(iv);
    j0[15] = 1;
    (ghash(h, aad, ct) ^ u128::from_be_bytes(aes.encrypt(j0))).to_be_bytes()
}
pub fn gcm_open(key: &[u8], iv: &[u8; 12], aad: &[u8], ct: &[u8], tag: &[u8]) -> Option<Vec<u8>> {
    let aes = Aes::new(key);
    let h = u128::from_be_bytes(aes.encrypt([0; 16]));
    let mut j0 = [0u8; 16];
    j0[..12].copy_from_slice(iv);
    j0[15] = 1;
    let t = ghash(h, aad, ct) ^ u128::from_be_bytes(aes.encrypt(j0));
    (t.to_be_bytes()[..] == *tag).then(|| ctr(&aes, j0, ct))
}

#[cfg(test)]
mod tests {
    use super::*;
    use crate::{hex, unhex};
    #[test]
    fn vectors() {
        let pt: [u8; 16] = unhex("00112233445566778899aabbccddeeff").try_into().unwrap();
        let k: Vec<u8> = (0..32).collect();
        assert_eq!(hex(&Aes::new(&k[..16]).encrypt(pt)), "69c4e0d86a7b0430d8cdb78070b4c55a");
        assert_eq!(hex(&Aes::new(&k[..24]).encrypt(pt)), "dda97ca4864cdfe06eaf70a0ec0d7191");
        assert_eq!(hex(&Aes::new(&k).encrypt(pt)), "8ea2b7ca516745bfeafc49904b496089");
        // GCM spec test cases 3 and 4 (McGrew & Viega)
        let key = unhex("feffe9928665731c6d6a8f9467308308");
        let iv: [u8; 12] = unhex("cafebabefacedbaddecaf888").try_into().unwrap();
        let p = unhex("d9313225f88406e5a55909c5aff5269a86a7a9531534f7da2e4c303d8a318a721c3c0c95956809532fcf0e2449a6b525b16aedf5aa0de657ba637b391aafd255");
        let (_, t) = gcm_seal(&key, &iv, &[], &p);
        assert_eq!(hex(&t), "4d5c2af327cd64a62cf35abd2ba6fab4");
        let aad = unhex("feedfacedeadbeeffeedfacedeadbeefabaddad2");
        let (c, t) = gcm_seal(&key, &iv, &aad, &p[..60]);
        assert_eq!(hex(&t), "5bc94fbc3221a5db94fae95ae7121a47");
        assert_eq!(&hex(&c)[..32], "42831ec2217774244b7221b784d0d49c");
        assert_eq!(gcm_open(&key, &iv, &aad, &c, &t).unwrap(), &p[..60]);
        let (_, t) = gcm_seal(&[0; 16], &[0; 12], &[], &[]);
        assert_eq!(hex(&t), "58e2fccefa7e3061367f1d57a4e7455a");
    }
}
