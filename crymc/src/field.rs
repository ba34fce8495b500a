//! K08: prime fields. Small primes completely, the curve's primes and other full-width ones over
//! boundary values, against arbitrary-precision arithmetic.
use crate::tiny::{is_prime, Fp};
use crate::util::*;
use crylib::big_int::UBigInt;
use crylib::ec::{EllipticCurve, Secp256r1};
use crylib::finite_field::{FieldElement, FiniteField};
use refmodel::nat::Nat;

type Order = <Secp256r1 as EllipticCurve>::Order;

fn eq<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> Result<(), String> {
    if got == want {
        Ok(())
    } else {
        Err(format!("{what}: library {got:x?}, mathematics {want:x?}"))
    }
}
fn inv(a: &Nat, m: &Nat) -> Nat {
    // Fermat
    let e = m.sub(&Nat::from_u64(2));
    (0..e.bits()).rev().fold(Nat::from_u64(1), |r, i| {
        let r = r.mul(&r).rem(m);
        if e.bit(i) {
            r.mul(a).rem(m)
        } else {
            r
        }
    })
}

macro_rules! primes {
    ($($name:ident: $n:literal = $limbs:expr;)*) => {$(
        #[derive(Clone, Copy, PartialEq, Eq, Debug)]
        struct $name;
        // SAFETY: prime (standard constants)
        unsafe impl FiniteField<$n> for $name {
            const MODULUS: UBigInt<$n> = UBigInt($limbs);
        }
    )*};
}
primes! {
    P192: 3 = [u64::MAX, u64::MAX - 1, u64::MAX];
    Poly130: 3 = [u64::MAX - 4, u64::MAX, 3];
    Near256: 4 = [u64::MAX - 188, u64::MAX, u64::MAX, u64::MAX];
    C25519: 4 = [u64::MAX - 18, u64::MAX, u64::MAX, u64::MAX >> 1];
    K1: 4 = [0xfffffffefffffc2f, u64::MAX, u64::MAX, u64::MAX];
    Max64: 4 = [u64::MAX - 58, 0, 0, 0];
}

macro_rules! field_checks {
    ($pair:ident, $one:ident, $make:ident, $small:ident, $large:ident, $n:literal) => {
        fn $pair<F: FiniteField<$n>>(a: &UBigInt<$n>, b: &UBigInt<$n>, p: &mut Probe) -> Result<(), String> {
            let m = Nat::from_limbs(&F::MODULUS.0);
            let (x, y) = (Nat::from_limbs(&a.0), Nat::from_limbs(&b.0));
            let w = |v: Nat| UBigInt::<$n>(v.rem(&m).to_limbs($n).try_into().unwrap());
            let (f, g) = unsafe { (FieldElement::<$n, F>::new_unchecked(*a), FieldElement::<$n, F>::new_unchecked(*b)) };
            p.trace();
            p.steps(10);
            macro_rules! op {
                ($op:ident, $assign:ident, $want:expr) => {
                    let want = $want;
                    eq(stringify!($op), f.$op(&g).into_inner(), want)?;
                    let mut t = f;
                    t.$assign(&g);
                    eq(stringify!($assign), t.into_inner(), want)?;
                };
            }
            op!(add, add_assign, w(x.add(&y)));
            op!(sub, sub_assign, w(x.add(&m).sub(&y)));
            let prod = w(x.mul(&y));
            op!(mul, mul_assign, prod);
            p.state(mix(h64(&refmodel_bytes(&F::MODULUS.0)), mix(h64(&refmodel_bytes(&a.0)), h64(&refmodel_bytes(&b.0)))));
            eq("equality", f == g, x == y)?;
            eq("order", f.cmp(&g), x.cmp(&y))?;
            if !y.is_zero() {
                let q = f.div(&g);
                eq("div (times the divisor)", Nat::from_limbs(&q.0).mul(&y).rem(&m), x.clone())?;
                eq("div is reduced", Nat::from_limbs(&q.0).lt(&m), true)?;
            }
            p.outcome("ok");
            Ok(())
        }
        fn $one<F: FiniteField<$n>>(a: &UBigInt<$n>, p: &mut Probe) -> Result<(), String> {
            let m = Nat::from_limbs(&F::MODULUS.0);
            let x = Nat::from_limbs(&a.0);
            let w = |v: Nat| UBigInt::<$n>(v.rem(&m).to_limbs($n).try_into().unwrap());
            let f = unsafe { FieldElement::<$n, F>::new_unchecked(*a) };
            p.trace();
            p.steps(20);
            p.state(mix(mix(104, h64(&refmodel_bytes(&F::MODULUS.0))), h64(&refmodel_bytes(&a.0))));
            macro_rules! op {
                ($op:ident, $assign:ident, $want:expr) => {
                    let want = $want;
                    eq(stringify!($op), f.$op().into_inner(), want)?;
                    let mut t = f;
                    t.$assign();
                    eq(stringify!($assign), t.into_inner(), want)?;
                };
            }
            eq("Display", format!("{f}"), format!("0x{}", a.0.iter().rev().map(|d| format!("{d:016x}")).collect::<String>()))?;
            op!(double, double_assign, w(x.add(&x)));
            op!(sqr, sqr_assign, w(x.mul(&x)));
            op!(neg, neg_assign, w(m.sub(&x)));
            if !x.is_zero() {
                let want = w(m.sub(&x));
                eq("neg_unchecked", unsafe { f.neg_unchecked() }.into_inner(), want)?;
                let mut t = f;
                unsafe { t.neg_assign_unchecked() };
                eq("neg_assign_unchecked", t.into_inner(), want)?;
                eq("inverse", f.inverse().into_inner(), w(inv(&x, &m)))?;
            }
            for d in [0, 1, 2, 3, 4, 7, 8, 0xff, 1 << 32, 1 << 63, u64::MAX >> 1, u64::MAX - 1, u64::MAX] {
                let want = w(x.mul(&Nat::from_u64(d)));
                eq(&format!("mul_digit by {d:#x}"), f.mul_digit(d).into_inner(), want)?;
                let mut t = f;
                t.mul_digit_assign(d);
                eq(&format!("mul_digit_assign by {d:#x}"), t.into_inner(), want)?;
            }
            eq("inner", *f.inner(), *a)?;
            eq("deref", *f, *a)?;
            eq("count_digits", f.count_digits(), x.bits().div_ceil(64))?;
            p.outcome("ok");
            Ok(())
        }
        /// Construction from an arbitrary number, in or out of the field.
        fn $make<F: FiniteField<$n>, G: FiniteField<$n>>(v: &UBigInt<$n>, p: &mut Probe) -> Result<(), String> {
            let m = Nat::from_limbs(&F::MODULUS.0);
            let x = Nat::from_limbs(&v.0);
            let w = |v: &Nat, m: &Nat| UBigInt::<$n>(v.rem(m).to_limbs($n).try_into().unwrap());
            p.trace();
            p.steps(4);
            p.state(mix(mix(125, h64(&refmodel_bytes(&F::MODULUS.0))), h64(&refmodel_bytes(&v.0))));
            let inside = x.lt(&m);
            p.outcome(if inside { "in the field" } else { "not in the field" });
            eq("new", FieldElement::<$n, F>::new(*v).into_inner(), w(&x, &m))?;
            eq("try_new", FieldElement::<$n, F>::try_new(*v).map(|e| e.into_inner()), inside.then_some(*v))?;
            eq("try_from", FieldElement::<$n, F>::try_from(*v).ok().map(|e| e.into_inner()), inside.then_some(*v))?;
            if let Some(e) = FieldElement::<$n, F>::try_new(*v) {
                eq("convert", e.convert::<G>().into_inner(), w(&x, &Nat::from_limbs(&G::MODULUS.0)))?;
            }
            eq("MIN", F::MIN.into_inner(), UBigInt::ZERO)?;
            eq("ZERO", FieldElement::<$n, F>::ZERO.into_inner(), UBigInt::ZERO)?;
            eq("ONE", FieldElement::<$n, F>::ONE.into_inner(), UBigInt::<$n>::ONE)
        }
        fn $small<F: FiniteField<$n>>(c: &mut Check) {
            let p = F::MODULUS.0[0];
            assert!(is_prime(p as i64));
            let nm = format!("{}-digit field of {p}", $n);
            let e = |i: u64| {
                let mut l = [0; $n];
                l[0] = i;
                UBigInt(l)
            };
            c.space(&format!("{nm}, all elements"), p, |i| format!("element {i}"), |i, pr| $one::<F>(&e(i), pr));
            c.space(&format!("{nm}, all pairs"), p * p, |i| format!("elements {} and {}", i / p, i % p), |i, pr| $pair::<F>(&e(i / p), &e(i % p), pr));
            c.space(&format!("{nm}, construction"), 4 * p + 20, |i| format!("from {i}"), |i, pr| $make::<F, Fp<13>>(&e(i), pr));
        }
        fn $large<F: FiniteField<$n>, G: FiniteField<$n>>(c: &mut Check, nm: &str) {
            let m = Nat::from_limbs(&F::MODULUS.0);
            let full = Nat::pow2(64 * $n);
            let l = |v: &Nat| UBigInt::<$n>(v.to_limbs($n).try_into().unwrap());
            // boundary values of the whole width
            let mut wide: Vec<Nat> = vec![];
            for k in 0..5u64 {
                wide.push(Nat::from_u64(k));
                wide.push(m.add(&Nat::from_u64(k)));
                wide.push(m.sub(&Nat::from_u64(k + 1)));
                wide.push(full.sub(&Nat::from_u64(k + 1)));
                wide.push(m.shr(1).add(&Nat::from_u64(k)));
                wide.push(m.shr(1).sub(&Nat::from_u64(k + 1)));
            }
            for j in 0..64 * $n {
                if c.tier(j % 64 % 16 == 0 || j % 64 == 63, true) {
                    wide.push(Nat::pow2(j));
                    wide.push(Nat::pow2(j).sub(&Nat::from_u64(1)));
                    wide.push(full.sub(&Nat::pow2(j)));
                }
                if j < m.bits() && c.tier(j % 32 == 0, true) {
                    wide.push(m.sub(&Nat::pow2(j).rem(&m)));
                    wide.push(m.add(&Nat::pow2(j)));
                }
            }
            let digits = [0, 1, u64::MAX, 1 << 63, 0xffff_ffff, 0xffff_ffff_0000_0000];
            let k = c.tier(4, 6);
            let mut idx = [0usize; $n];
            'all: loop {
                let v: [u64; $n] = std::array::from_fn(|i| digits[idx[i]]);
                wide.push(Nat::from_limbs(&v));
                for d in idx.iter_mut() {
                    *d += 1;
                    if *d < k {
                        continue 'all;
                    }
                    *d = 0;
                }
                break;
            }
            for s in 0..c.tier(24, 200) {
                wide.push(Nat::from_be(&det_bytes(9000 + s, 8 * $n)));
            }
            wide.retain(|v| v.lt(&full));
            wide.sort_by(|a, b| a.cmp(b));
            wide.dedup();
            let all: Vec<UBigInt<$n>> = wide.iter().map(|v| l(v)).collect();
            let els: Vec<UBigInt<$n>> = wide.iter().filter(|v| v.lt(&m)).map(|v| l(v)).collect();
            c.items(&format!("{nm}, construction"), &all, |v| format!("from {v:x?}"), |v, pr| $make::<F, G>(v, pr));
            c.items(&format!("{nm}, elements"), &els, |v| format!("{v:x?}"), |v, pr| $one::<F>(v, pr));
            let n = els.len() as u64;
            c.space(&format!("{nm}, pairs"), n * n, |i| format!("{:x?} and {:x?}", els[(i / n) as usize], els[(i % n) as usize]), |i, pr| $pair::<F>(&els[(i / n) as usize], &els[(i % n) as usize], pr));
        }
    };
}
field_checks!(pair3, one3, make3, small3, large3, 3);
field_checks!(pair4, one4, make4, small4, large4, 4);

fn refmodel_bytes(l: &[u64]) -> Vec<u8> {
    l.iter().flat_map(|d| d.to_be_bytes()).collect()
}

pub fn k08(c: &mut Check) {
    c.bound("nine small primes completely in both widths; eight full-width primes (P-256's two among them) over every pair of a boundary set");
    c.assume("the constants written down as primes are prime (P-256's modulus and order, NIST P-192, 2^130-5, 2^256-189, 2^255-19, secp256k1's modulus, 2^64-59)");
    macro_rules! smalls {
        ($($p:literal)*) => {$(
            small3::<Fp<$p>>(c);
            small4::<Fp<$p>>(c);
        )*};
    }
    smalls!(2 3 5 7 13 31 61 127 251);
    large4::<Secp256r1, Order>(c, "P-256 coordinates");
    large4::<Order, Secp256r1>(c, "P-256 scalars");
    large3::<P192, Poly130>(c, "P-192");
    large3::<Poly130, P192>(c, "2^130-5");
    large4::<Near256, C25519>(c, "2^256-189");
    large4::<C25519, Near256>(c, "2^255-19");
    large4::<K1, Max64>(c, "secp256k1 modulus");
    large4::<Max64, K1>(c, "2^64-59 in four digits");
    // the constants of the curve
    let p = refmodel::p256::curve();
    let fixed = [
        ("modulus", Secp256r1::MODULUS.0, p.p.m),
        ("order", Order::MODULUS.0, p.n.m),
        ("B", Secp256r1::B.into_inner().0, p.b),
        ("A", Secp256r1::A.into_inner().0, p.p.neg(&[3, 0, 0, 0])),
    ];
    c.items("P-256 constants", &fixed, |f| f.0.into(), |f, pr| {
        pr.trace();
        pr.state(h64(&refmodel_bytes(&f.2)));
        pr.outcome("ok");
        eq(f.0, f.1, f.2)
    });
}
