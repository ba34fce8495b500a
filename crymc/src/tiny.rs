//! Prime fields and prime-order curves small enough to enumerate completely, as instances of the
//! library's public traits, with arithmetic by table and by the textbook definition.
use crylib::big_int::UBigInt;
use crylib::ec::{AffinePoint, EllipticCurve, ProjectivePoint};
use crylib::finite_field::{FieldElement, FiniteField};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Fp<const P: u64>;
// SAFETY: only instantiated with primes (checked by k08).
unsafe impl<const P: u64> FiniteField<4> for Fp<P> {
    const MODULUS: UBigInt<4> = UBigInt([P, 0, 0, 0]);
}
unsafe impl<const P: u64> FiniteField<3> for Fp<P> {
    const MODULUS: UBigInt<3> = UBigInt([P, 0, 0]);
}

/// y^2 = x^3 + A x + B over GF(P), of prime order N, with generator (GX, GY).
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Ec<const P: u64, const A: u64, const B: u64, const N: u64, const GX: u64, const GY: u64>;
unsafe impl<const P: u64, const A: u64, const B: u64, const N: u64, const GX: u64, const GY: u64> FiniteField<4> for Ec<P, A, B, N, GX, GY> {
    const MODULUS: UBigInt<4> = UBigInt([P, 0, 0, 0]);
}
impl<const P: u64, const A: u64, const B: u64, const N: u64, const GX: u64, const GY: u64> EllipticCurve for Ec<P, A, B, N, GX, GY> {
    const BASE_POINT: ProjectivePoint<Self> = unsafe { AffinePoint::new_unchecked(felt(GX), felt(GY)).as_projective() };
    const A: FieldElement<4, Self> = unsafe { felt(A) };
    const B: FieldElement<4, Self> = unsafe { felt(B) };
    type Order = Fp<N>;
}

pub const unsafe fn felt<F: FiniteField<4>>(x: u64) -> FieldElement<4, F> {
    FieldElement::new_unchecked(UBigInt([x, 0, 0, 0]))
}

/// The same curve for the oracle.
#[derive(Clone, Copy)]
pub struct Ref {
    pub p: i64,
    pub a: i64,
    pub b: i64,
    pub n: i64,
    pub g: (i64, i64),
}
pub type Pt = Option<(i64, i64)>;

pub fn is_prime(n: i64) -> bool {
    n > 1 && (2..n).take_while(|d| d * d <= n).all(|d| n % d != 0)
}
pub fn inv(x: i64, p: i64) -> i64 {
    (1..p).find(|y| x.rem_euclid(p) * y % p == 1).unwrap()
}

impl Ref {
    pub fn on(&self, x: i64, y: i64) -> bool {
        (y * y - x * x * x - self.a * x - self.b).rem_euclid(self.p) == 0
    }
    pub fn points(&self) -> Vec<Pt> {
        let mut v = vec![None];
        for x in 0..self.p {
            for y in 0..self.p {
                if self.on(x, y) {
                    v.push(Some((x, y)));
                }
            }
        }
        assert!(is_prime(self.p) && is_prime(self.n) && v.len() as i64 == self.n && self.on(self.g.0, self.g.1));
        v
    }
    pub fn neg(&self, a: Pt) -> Pt {
        a.map(|(x, y)| (x, (-y).rem_euclid(self.p)))
    }
    pub fn add(&self, a: Pt, b: Pt) -> Pt {
        let p = self.p;
        let (Some((x1, y1)), Some((x2, y2))) = (a, b) else {
            return a.or(b);
        };
        let s = if x1 != x2 {
            (y2 - y1) * inv(x2 - x1, p)
        } else if y1 == y2 && y1 != 0 {
            (3 * x1 * x1 + self.a) * inv(2 * y1, p)
        } else {
            return None;
        }
        .rem_euclid(p);
        let x = (s * s - x1 - x2).rem_euclid(p);
        Some((x, (s * (x1 - x) - y1).rem_euclid(p)))
    }
    pub fn mul(&self, k: i64, a: Pt) -> Pt {
        (0..k).fold(None, |r, _| self.add(r, a))
    }
    pub fn sign(&self, d: i64, e: i64, k: i64) -> Option<(i64, i64)> {
        let (x, _) = self.mul(k % self.n, Some(self.g))?;
        let r = x % self.n;
        let s = inv(k, self.n) * (e + r * d) % self.n;
        (r != 0 && s != 0).then_some((r, s))
    }
    pub fn verify(&self, q: Pt, e: i64, r: i64, s: i64) -> bool {
        if r == 0 || s == 0 || q.is_none() {
            return false;
        }
        let w = inv(s, self.n);
        match self.add(self.mul(e * w % self.n, Some(self.g)), self.mul(r * w % self.n, q)) {
            None => false,
            Some((x, _)) => x % self.n == r,
        }
    }
}

/// Calls `$m!(Type, Ref)` for every tiny curve: order above and below the field size, with and
/// without points at x = 0, A = 0, A = -3 and others.
#[macro_export]
macro_rules! tiny_curves {
    ($m:ident) => {
        $m!(5, 2, 1, 7, 1, 3);
        $m!(7, 0, 3, 13, 4, 2);
        $m!(7, 1, 1, 5, 2, 2);
        $m!(11, 2, 4, 17, 7, 3);
        $m!(11, 2, 7, 7, 7, 10);
        $m!(13, 0, 2, 19, 5, 7);
        $m!(13, 2, 4, 17, 8, 5);
        $m!(17, 6, 8, 13, 7, 6);
    };
}
