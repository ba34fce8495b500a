//! Boring reference implementations used as oracles. Nothing here depends on /repo.
#![allow(clippy::all)]

pub mod aes;
pub mod chacha;
pub mod ecdsa;
pub mod hash;
pub mod cert;
pub mod model;
pub mod nat;
pub mod p256;
pub mod tls;

/// Hex of a byte slice.
pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
/// Bytes of a hex string (whitespace ignored).
pub fn unhex(s: &str) -> Vec<u8> {
    let d: Vec<u8> = s.bytes().filter(|c| !c.is_ascii_whitespace()).collect();
    d.chunks(2)
        .map(|p| u8::from_str_radix(std::str::from_utf8(p).unwrap(), 16).unwrap())
        .collect()
}
/// A deterministic byte stream, distinct per seed.
pub fn det_bytes(seed: u64, len: usize) -> Vec<u8> {
    let mut x = seed.wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ 0xd1b5_4a32_d192_ed03;
    (0..len)
        .map(|_| {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            (x >> 29) as u8
        })
        .collect()
}
