//! P-256: arithmetic modulo a 256-bit modulus by folding, and the group law by the textbook
//! Jacobian formulas with every special case spelled out.
use crate::nat::Nat;

pub type L = [u64; 4];

/// A modulus between 2^255 and 2^256.
#[derive(Clone, Copy)]
pub struct Modulus {
    pub m: L,
    c: L, // 2^256 - m
}

pub fn cmp(a: &L, b: &L) -> std::cmp::Ordering {
    a.iter().rev().cmp(b.iter().rev())
}
fn addc(a: &L, b: &L) -> (L, bool) {
    let mut r = [0; 4];
    let mut c = 0u128;
    for i in 0..4 {
        c += a[i] as u128 + b[i] as u128;
        r[i] = c as u64;
        c >>= 64;
    }
    (r, c != 0)
}
fn subb(a: &L, b: &L) -> (L, bool) {
    let mut r = [0; 4];
    let mut bo = false;
    for i in 0..4 {
        let (x, b1) = a[i].overflowing_sub(b[i]);
        let (y, b2) = x.overflowing_sub(bo as u64);
        r[i] = y;
        bo = b1 | b2;
    }
    (r, bo)
}
fn mul_wide(a: &L, b: &L) -> [u64; 8] {
    let mut r = [0u64; 8];
    for i in 0..4 {
        let mut c = 0u128;
        for j in 0..4 {
            c += r[i + j] as u128 + a[i] as u128 * b[j] as u128;
            r[i + j] = c as u64;
            c >>= 64;
        }
        r[i + 4] = c as u64;
    }
    r
}
impl Modulus {
    pub fn new(m: L) -> Modulus {
        let (c, _) = subb(&[0; 4], &m);
        Modulus { m, c }
    }
    pub fn reduce(&self, a: &L) -> L {
        let mut a = *a;
        while cmp(&a, &self.m) != std::cmp::Ordering::Less {
            a = subb(&a, &self.m).0;
        }
        a
    }
    pub fn add(&self, a: &L, b: &L) -> L {
        let (r, c) = addc(a, b);
        if c {
            self.reduce(&addc(&r, &self.c).0)
        } else {
            self.reduce(&r)
        }
    }
    pub fn sub(&self, a: &L, b: &L) -> L {
        self.add(a, &self.neg(b))
    }
    pub fn neg(&self, a: &L) -> L {
        if *a == [0; 4] {
            *a
        } else {
            subb(&self.m, a).0
        }
    }
    pub fn reduce_wide(&self, mut x: [u64; 8]) -> L {
        loop {
            let hi: L = x[4..].try_into().unwrap();
            let lo: L = x[..4].try_into().unwrap();
            if hi == [0; 4] {
                return self.reduce(&lo);
            }
            let mut y = mul_wide(&hi, &self.c);
            let mut c = 0u128;
            for i in 0..8 {
                c += y[i] as u128 + if i < 4 { lo[i] as u128 } else { 0 };
                y[i] = c as u64;
                c >>= 64;
            }
            x = y;
        }
    }
    pub fn mul(&self, a: &L, b: &L) -> L {
        self.reduce_wide(mul_wide(a, b))
    }
    pub fn pow(&self, a: &L, e: &L) -> L {
        let mut r = [1, 0, 0, 0];
        for i in (0..256).rev() {
            r = self.mul(&r, &r);
            if e[i / 64] >> (i % 64) & 1 == 1 {
                r = self.mul(&r, a);
            }
        }
        r
    }
    /// Inverse by Fermat (the modulus must be prime); inverse of 0 is 0.
    pub fn inv(&self, a: &L) -> L {
        self.pow(a, &subb(&self.m, &[2, 0, 0, 0]).0)
    }
}

pub fn limbs(s: &str) -> L {
    Nat::from_hex(s).to_limbs(4).try_into().unwrap()
}
pub fn from_be(b: &[u8]) -> L {
    Nat::from_be(b).to_limbs(4).try_into().unwrap()
}
pub fn to_be(l: &L) -> [u8; 32] {
    let mut o = [0; 32];
    for i in 0..4 {
        o[8 * i..8 * i + 8].copy_from_slice(&l[3 - i].to_be_bytes());
    }
    o
}

pub struct Curve {
    pub p: Modulus,
    pub n: Modulus,
    pub b: L,
    pub g: (L, L),
}
pub fn curve() -> &'static Curve {
    static C: std::sync::OnceLock<Curve> = std::sync::OnceLock::new();
    C.get_or_init(|| Curve {
        p: Modulus::new(limbs("ffffffff00000001000000000000000000000000ffffffffffffffffffffffff")),
        n: Modulus::new(limbs("ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551")),
        b: limbs("5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b"),
        g: (
            limbs("6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296"),
            limbs("4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5"),
        ),
    })
}

/// None is the point at infinity.
pub type Pt = Option<(L, L)>;

#[derive(Clone, Copy)]
struct Jac(L, L, L); // z = 0: infinity

impl Curve {
    pub fn on_curve(&self, x: &L, y: &L) -> bool {
        let p = &self.p;
        if cmp(x, &p.m).is_ge() || cmp(y, &p.m).is_ge() {
            return false;
        }
        let x3 = p.mul(&p.mul(x, x), x);
        let t = p.add(x, &p.add(x, x));
        let r = p.add(&p.sub(&x3, &t), &self.b);
        p.mul(y, y) == r
    }
    pub fn neg(&self, a: &Pt) -> Pt {
        a.map(|(x, y)| (x, self.p.neg(&y)))
    }
    fn jdbl(&self, a: &Jac) -> Jac {
        let p = &self.p;
        if a.2 == [0; 4] || a.1 == [0; 4] {
            return Jac([1, 0, 0, 0], [1, 0, 0, 0], [0; 4]);
        }
        let Jac(x, y, z) = a;
        let yy = p.mul(y, y);
        let s = p.mul(x, &yy);
        let s = p.add(&s, &s);
        let s = p.add(&s, &s);
        let z2 = p.mul(z, z);
        let t = p.mul(&p.sub(x, &z2), &p.add(x, &z2)); // a = -3
        let m = p.add(&t, &p.add(&t, &t));
        let x3 = p.sub(&p.mul(&m, &m), &p.add(&s, &s));
        let y4 = p.mul(&yy, &yy);
        let y4 = p.add(&y4, &y4);
        let y4 = p.add(&y4, &y4);
        let y4 = p.add(&y4, &y4);
        let y3 = p.sub(&p.mul(&m, &p.sub(&s, &x3)), &y4);
        let z3 = p.mul(y, z);
        Jac(x3, y3, p.add(&z3, &z3))
    }
    fn jadd(&self, a: &Jac, b: &Jac) -> Jac {
        let p = &self.p;
        if a.2 == [0; 4] {
            return *b;
        }
        if b.2 == [0; 4] {
            return *a;
        }
        let z1 = p.mul(&a.2, &a.2);
        let z2 = p.mul(&b.2, &b.2);
        let u1 = p.mul(&a.0, &z2);
        let u2 = p.mul(&b.0, &z1);
        let s1 = p.mul(&a.1, &p.mul(&z2, &b.2));
        let s2 = p.mul(&b.1, &p.mul(&z1, &a.2));
        if u1 == u2 {
            if s1 == s2 {
                return self.jdbl(a);
            }
            return Jac([1, 0, 0, 0], [1, 0, 0, 0], [0; 4]);
        }
        let h = p.sub(&u2, &u1);
        let r = p.sub(&s2, &s1);
        let h2 = p.mul(&h, &h);
        let h3 = p.mul(&h2, &h);
        let v = p.mul(&u1, &h2);
        let x3 = p.sub(&p.sub(&p.mul(&r, &r), &h3), &p.add(&v, &v));
        let y3 = p.sub(&p.mul(&r, &p.sub(&v, &x3)), &p.mul(&s1, &h3));
        Jac(x3, y3, p.mul(&h, &p.mul(&a.2, &b.2)))
    }
    fn jac(&self, a: &Pt) -> Jac {
        match a {
            None => Jac([1, 0, 0, 0], [1, 0, 0, 0], [0; 4]),
            Some((x, y)) => Jac(*x, *y, [1, 0, 0, 0]),
        }
    }
    fn aff(&self, j: &Jac) -> Pt {
        if j.2 == [0; 4] {
            return None;
        }
        let p = &self.p;
        let zi = p.inv(&j.2);
        let z2 = p.mul(&zi, &zi);
        Some((p.mul(&j.0, &z2), p.mul(&j.1, &p.mul(&z2, &zi))))
    }
    pub fn add(&self, a: &Pt, b: &Pt) -> Pt {
        self.aff(&self.jadd(&self.jac(a), &self.jac(b)))
    }
    pub fn dbl(&self, a: &Pt) -> Pt {
        self.aff(&self.jdbl(&self.jac(a)))
    }
    pub fn mul(&self, k: &L, a: &Pt) -> Pt {
        let mut r = self.jac(&None);
        let b = self.jac(a);
        for i in (0..256).rev() {
            r = self.jdbl(&r);
            if k[i / 64] >> (i % 64) & 1 == 1 {
                r = self.jadd(&r, &b);
            }
        }
        self.aff(&r)
    }
    pub fn mul_g(&self, k: &L) -> Pt {
        self.mul(k, &Some(self.g))
    }
    /// A point with this x, if there is one (p = 3 mod 4).
    pub fn lift_x(&self, x: &L) -> Pt {
        let p = &self.p;
        if cmp(x, &p.m).is_ge() {
            return None;
        }
        let x3 = p.mul(&p.mul(x, x), x);
        let t = p.add(x, &p.add(x, x));
        let r = p.add(&p.sub(&x3, &t), &self.b);
        let e = Nat::from_limbs(&p.m).add(&Nat::from_u64(1)).shr(2).to_limbs(4);
        let y = p.pow(&r, &e.try_into().unwrap());
        (p.mul(&y, &y) == r).then_some((*x, y))
    }
}

#[cfg(test)]
mod tests {
    use super::*;
    use crate::hex;
    #[test]
    fn arithmetic_against_nat() {
        let c = curve();
        for m in [&c.p, &c.n] {
            let nm = Nat::from_limbs(&m.m);
            for i in 0..200 {
                let a: L = Nat::from_be(&crate::det_bytes(i, 32)).rem(&nm).to_limbs(4).try_into().unwrap();
                let b: L = if i % 3 == 0 { subb(&m.m, &[i as u64 + 1, 0, 0, 0]).0 } else { Nat::from_be(&crate::det_bytes(i + 1000, 32)).rem(&nm).to_limbs(4).try_into().unwrap() };
                let (na, nb) = (Nat::from_limbs(&a), Nat::from_limbs(&b));
                assert_eq!(Nat::from_limbs(&m.mul(&a, &b)), na.mul(&nb).rem(&nm));
                assert_eq!(Nat::from_limbs(&m.add(&a, &b)), na.add(&nb).rem(&nm));
                assert_eq!(Nat::from_limbs(&m.sub(&a, &b)), na.add(&nm).sub(&nb).rem(&nm));
                assert_eq!(m.mul(&a, &m.inv(&a)), [1, 0, 0, 0]);
            }
        }
    }
    #[test]
    fn group() {
        let c = curve();
        assert!(c.on_curve(&c.g.0, &c.g.1));
        // RFC 6979 A.2.5 key pair
        let k = limbs("c9afa9d845ba75166b5c215767b1d6934e50c3db36e89b127b8a622b120f6721");
        let q = c.mul_g(&k).unwrap();
        assert_eq!(hex(&to_be(&q.0)), "60fed4ba255a9d31c961eb74c6356d68c049b8923b61fa6ce669622e60f29fb6");
        assert_eq!(hex(&to_be(&q.1)), "7903fe1008b8bc99a41ae9e95628bc64f2f1b20c2d7e9f5177a3c294d4462299");
        assert_eq!(c.mul_g(&c.n.m), None);
        let g = Some(c.g);
        assert_eq!(c.add(&g, &g), c.dbl(&g));
        assert_eq!(c.add(&g, &c.neg(&g)), None);
        assert_eq!(c.mul_g(&subb(&c.n.m, &[1, 0, 0, 0]).0), c.neg(&g));
        let mut acc = None;
        for i in 0..30u64 {
            assert_eq!(c.mul_g(&[i, 0, 0, 0]), acc);
            acc = c.add(&acc, &g);
        }
        assert_eq!(c.lift_x(&q.0).map(|t| t.0), Some(q.0));
    }
}
