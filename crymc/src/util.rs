//! Small helpers shared by all spaces.
pub use mcrt::{hash as h64, mix, Check, Probe};
pub use refmodel::{det_bytes, hex};

pub fn short(b: &[u8]) -> String {
    if b.len() <= 80 {
        hex(b)
    } else {
        format!("{}.. ({} bytes)", hex(&b[..64]), b.len())
    }
}

pub fn same(what: &str, got: &[u8], want: &[u8]) -> Result<(), String> {
    if got == want {
        return Ok(());
    }
    let at = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
    Err(format!("{what}: differs at byte {at}\n  library   {}\n  reference {}", short(got), short(want)))
}

/// Message contents that are used for every length.
pub const FILLS: [&str; 3] = ["zeros", "ones", "mixed"];
pub fn fill(kind: usize, len: usize) -> Vec<u8> {
    match kind {
        0 => vec![0; len],
        1 => vec![0xff; len],
        _ => det_bytes(77, len),
    }
}

/// Splits a case number into digits of the given radices (first digit varies slowest).
pub fn digits<const N: usize>(mut i: u64, radix: [u64; N]) -> [usize; N] {
    let mut o = [0; N];
    for k in (0..N).rev() {
        o[k] = (i % radix[k]) as usize;
        i /= radix[k];
    }
    assert_eq!(i, 0);
    o
}
pub fn product(radix: &[u64]) -> u64 {
    radix.iter().product()
}
