//! Arbitrary-precision naturals, base 2^32, schoolbook.
use std::cmp::Ordering;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Nat(Vec<u32>); // little endian, no trailing zero limbs

impl Nat {
    fn trim(mut v: Vec<u32>) -> Nat {
        while v.last() == Some(&0) {
            v.pop();
        }
        Nat(v)
    }
    pub fn zero() -> Nat {
        Nat(vec![])
    }
    pub fn from_u64(x: u64) -> Nat {
        Self::trim(vec![x as u32, (x >> 32) as u32])
    }
    pub fn from_u128(x: u128) -> Nat {
        Self::trim((0..4).map(|i| (x >> (32 * i)) as u32).collect())
    }
    /// From little-endian 64-bit limbs.
    pub fn from_limbs(l: &[u64]) -> Nat {
        let mut v = vec![];
        for x in l {
            v.push(*x as u32);
            v.push((*x >> 32) as u32);
        }
        Self::trim(v)
    }
    /// To exactly `n` little-endian 64-bit limbs, dropping anything above (i.e. mod 2^(64n)).
    pub fn to_limbs(&self, n: usize) -> Vec<u64> {
        (0..n)
            .map(|i| {
                let g = |j: usize| self.0.get(j).copied().unwrap_or(0) as u64;
                g(2 * i) | g(2 * i + 1) << 32
            })
            .collect()
    }
    pub fn from_be(b: &[u8]) -> Nat {
        let mut v = vec![0u32; b.len() / 4 + 1];
        for (i, x) in b.iter().rev().enumerate() {
            v[i / 4] |= (*x as u32) << (8 * (i % 4));
        }
        Self::trim(v)
    }
    pub fn from_le(b: &[u8]) -> Nat {
        let mut c = b.to_vec();
        c.reverse();
        Self::from_be(&c)
    }
    /// Exactly `n` big-endian bytes (panics if it does not fit).
    pub fn to_be(&self, n: usize) -> Vec<u8> {
        assert!(self.bits() <= 8 * n);
        (0..n)
            .rev()
            .map(|i| (self.0.get(i / 4).copied().unwrap_or(0) >> (8 * (i % 4))) as u8)
            .collect()
    }
    pub fn from_hex(s: &str) -> Nat {
        let s = if s.len() % 2 == 1 { format!("0{s}") } else { s.to_string() };
        Self::from_be(&crate::unhex(&s))
    }
    pub fn is_zero(&self) -> bool {
        self.0.is_empty()
    }
    pub fn bits(&self) -> usize {
        match self.0.last() {
            None => 0,
            Some(t) => 32 * self.0.len() - t.leading_zeros() as usize,
        }
    }
    pub fn bit(&self, i: usize) -> bool {
        self.0.get(i / 32).map_or(false, |w| w >> (i % 32) & 1 == 1)
    }
    pub fn low_u128(&self) -> u128 {
        (0..4).map(|i| (self.0.get(i).copied().unwrap_or(0) as u128) << (32 * i)).sum()
    }
    pub fn cmp(&self, o: &Nat) -> Ordering {
        self.0
            .len()
            .cmp(&o.0.len())
            .then_with(|| self.0.iter().rev().cmp(o.0.iter().rev()))
    }
    pub fn lt(&self, o: &Nat) -> bool {
        self.cmp(o) == Ordering::Less
    }
    pub fn add(&self, o: &Nat) -> Nat {
        let n = self.0.len().max(o.0.len()) + 1;
        let mut v = vec![];
        let mut c = 0u64;
        for i in 0..n {
            c += self.0.get(i).copied().unwrap_or(0) as u64 + o.0.get(i).copied().unwrap_or(0) as u64;
            v.push(c as u32);
            c >>= 32;
        }
        Self::trim(v)
    }
    /// self - o; panics when negative.
    pub fn sub(&self, o: &Nat) -> Nat {
        assert!(!self.lt(o));
        let mut v = vec![];
        let mut b = 0i64;
        for i in 0..self.0.len() {
            let mut d = self.0[i] as i64 - o.0.get(i).copied().unwrap_or(0) as i64 + b;
            b = 0;
            if d < 0 {
                d += 1 << 32;
                b = -1;
            }
            v.push(d as u32);
        }
        assert_eq!(b, 0);
        Self::trim(v)
    }
    pub fn mul(&self, o: &Nat) -> Nat {
        let mut v = vec![0u32; self.0.len() + o.0.len() + 1];
        for (i, a) in self.0.iter().enumerate() {
            let mut c = 0u64;
            for (j, b) in o.0.iter().enumerate() {
                c += v[i + j] as u64 + *a as u64 * *b as u64;
                v[i + j] = c as u32;
                c >>= 32;
            }
            v[i + o.0.len()] = c as u32;
        }
        Self::trim(v)
    }
    pub fn shl(&self, n: usize) -> Nat {
        let mut v = vec![0u32; n / 32];
        let s = n % 32;
        let mut c = 0u64;
        for w in &self.0 {
            c |= (*w as u64) << s;
            v.push(c as u32);
            c >>= 32;
        }
        v.push(c as u32);
        Self::trim(v)
    }
    pub fn shr(&self, n: usize) -> Nat {
        let s = n % 32;
        let k = n / 32;
        let mut v = vec![];
        for i in k..self.0.len() {
            let lo = self.0[i] as u64;
            let hi = self.0.get(i + 1).copied().unwrap_or(0) as u64;
            v.push(((lo | hi << 32) >> s) as u32);
        }
        Self::trim(v)
    }
    /// (quotient, remainder), bit-serial long division.
    pub fn divrem(&self, d: &Nat) -> (Nat, Nat) {
        assert!(!d.is_zero());
        let mut q = vec![0u32; self.0.len()];
        let mut r = Nat::zero();
        for i in (0..self.bits()).rev() {
            r = r.shl(1);
            if self.bit(i) {
                r = r.add(&Nat::from_u64(1));
            }
            if !r.lt(d) {
                r = r.sub(d);
                q[i / 32] |= 1 << (i % 32);
            }
        }
        (Self::trim(q), r)
    }
    pub fn rem(&self, d: &Nat) -> Nat {
        self.divrem(d).1
    }
    pub fn pow2(n: usize) -> Nat {
        Nat::from_u64(1).shl(n)
    }
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn against_u128() {
        let xs: Vec<u128> = (0..60u64)
            .map(|i| {
                let b = crate::det_bytes(i, 16);
                u128::from_le_bytes(b.try_into().unwrap()) >> (i * 2)
            })
            .chain([0, 1, u64::MAX as u128, u32::MAX as u128, 1 << 32, 1 << 64])
            .collect();
        for &a in &xs {
            for &b in &xs {
                let (na, nb) = (Nat::from_u128(a), Nat::from_u128(b));
                if let Some(s) = a.checked_add(b) {
                    assert_eq!(na.add(&nb), Nat::from_u128(s));
                }
                if a >= b {
                    assert_eq!(na.sub(&nb), Nat::from_u128(a - b));
                }
                if let Some(s) = a.checked_mul(b) {
                    assert_eq!(na.mul(&nb), Nat::from_u128(s));
                }
                if b != 0 {
                    let (q, r) = na.divrem(&nb);
                    assert_eq!((q, r), (Nat::from_u128(a / b), Nat::from_u128(a % b)));
                }
                assert_eq!(na.cmp(&nb), a.cmp(&b));
                // division identity on products wider than 128 bits
                if b != 0 {
                    let p = na.mul(&nb).add(&Nat::from_u64(0));
                    assert_eq!(p.divrem(&nb), (na.clone(), Nat::zero()));
                }
            }
            for s in [0, 1, 31, 32, 33, 64, 100] {
                assert_eq!(Nat::from_u128(a).shr(s), Nat::from_u128(a >> s));
                assert_eq!(Nat::from_u128(a).shl(s).shr(s), Nat::from_u128(a));
            }
        }
    }
}
