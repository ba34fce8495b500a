//! K09, K10, K11: curve points, scalar multiplication and ECDSA. Complete enumeration on curves of
//! a few points through the same generic code, boundary enumeration on P-256.
use crate::tiny::{felt, Ec, Fp, Pt, Ref};
use crate::tiny_curves;
use crate::util::*;
use crylib::big_int::UBigInt;
use crylib::ec::ecdsa::{sign, verify_signature, Signature};
use crylib::ec::{AffinePoint, EllipticCurve, ProjectivePoint, Secp256r1};
use crylib::finite_field::{FieldElement, FiniteField};
use refmodel::ecdsa as rsig;
use refmodel::p256::{self, curve, limbs, to_be, L};
use std::cell::Cell;

type Order = <Secp256r1 as EllipticCurve>::Order;

fn el<F: FiniteField<4>>(l: &L) -> FieldElement<4, F> {
    unsafe { FieldElement::new_unchecked(UBigInt(*l)) }
}
fn small<F: FiniteField<4>>(x: i64) -> FieldElement<4, F> {
    assert!(x >= 0);
    unsafe { felt(x as u64) }
}
fn lo<F: FiniteField<4>>(x: &FieldElement<4, F>) -> Result<i64, String> {
    let l = x.into_inner().0;
    if l[1..] != [0, 0, 0] || l[0] >= F::MODULUS.0[0] {
        return Err(format!("a coordinate is not below the modulus: {l:x?}"));
    }
    Ok(l[0] as i64)
}
fn eq<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> Result<(), String> {
    if got == want {
        Ok(())
    } else {
        Err(format!("{what}: library {got:x?}, mathematics {want:x?}"))
    }
}

/// A tiny point with projective scale z (for infinity: (0 : z : 0)).
fn proj<C: EllipticCurve>(a: Pt, z: i64, p: i64) -> ProjectivePoint<C> {
    let (x, y, z) = match a {
        None => (0, z, 0),
        Some((x, y)) => (x * z % p, y * z % p, z),
    };
    unsafe { ProjectivePoint::new_unchecked(small(x), small(y), small(z)) }
}
fn aff<C: EllipticCurve>(a: (i64, i64)) -> AffinePoint<C> {
    unsafe { AffinePoint::new_unchecked(small(a.0), small(a.1)) }
}
fn out<C: EllipticCurve>(what: &str, a: &ProjectivePoint<C>, want: Pt) -> Result<(), String> {
    eq(&format!("{what} (is it infinity)"), a.is_infinity(), want.is_none())?;
    let got = match a.as_affine() {
        None => None,
        Some(q) => Some((lo(&q.x())?, lo(&q.y())?)),
    };
    eq(what, got, want)?;
    let t: Option<AffinePoint<C>> = AffinePoint::try_from(*a).ok();
    eq(&format!("{what} (TryFrom)"), t == a.as_affine(), true)?;
    eq(&format!("{what} == itself"), *a == *a, true)
}
fn outa<C: EllipticCurve>(what: &str, a: &AffinePoint<C>, want: Pt) -> Result<(), String> {
    eq(what, Some((lo(a.x_ref())?, lo(a.y_ref())?)), want)
}

fn tiny_group<C: EllipticCurve>(c: &mut Check, rf: Ref, nm: &str) {
    let pts = rf.points();
    let (p, n) = (rf.p as u64, pts.len() as u64);
    c.space(&format!("{nm}: membership"), p * p, |i| format!("({}, {})", i / p, i % p), |i, pr| {
        let (x, y) = ((i / p) as i64, (i % p) as i64);
        let want = rf.on(x, y);
        pr.trace();
        pr.steps(2);
        pr.state(mix(h64(std::any::type_name::<C>().as_bytes()), mix(1, i)));
        pr.outcome(if want { "on the curve" } else { "off the curve" });
        eq("is_on_curve", AffinePoint::<C>::is_on_curve(&small(x), &small(y)), want)?;
        let made = AffinePoint::<C>::new(small(x), small(y));
        eq("new", made.map(|q| (q.x(), q.y())), want.then_some((small(x), small(y))))?;
        if let Some(q) = made {
            out("From", &ProjectivePoint::from(q), Some((x, y)))?;
            out("as_projective", &q.as_projective(), Some((x, y)))?;
            outa("neg", &q.neg(), rf.neg(Some((x, y))))?;
            let mut t = q;
            t.neg_assign();
            outa("neg_assign", &t, rf.neg(Some((x, y))))?;
            outa("double", &q.double(), rf.add(Some((x, y)), Some((x, y))))?;
            let mut t = q;
            t.double_assign();
            outa("double_assign", &t, rf.add(Some((x, y)), Some((x, y))))?;
        }
        Ok(())
    });
    let z = p - 1;
    c.space(
        &format!("{nm}: sums"),
        n * n * z * z,
        |i| {
            let [a, b, s, t] = digits(i, [n, n, z, z]);
            format!("{:?} scaled by {} and {:?} scaled by {}", pts[a], s + 1, pts[b], t + 1)
        },
        |i, pr| {
            let [a, b, s, t] = digits(i, [n, n, z, z]);
            let (a, b) = (pts[a], pts[b]);
            let (u, v) = (proj::<C>(a, s as i64 + 1, rf.p), proj::<C>(b, t as i64 + 1, rf.p));
            let want = rf.add(a, b);
            pr.trace();
            pr.steps(8);
            pr.state(mix(h64(std::any::type_name::<C>().as_bytes()), mix(2, i)));
            pr.outcome(if want.is_none() { "infinity" } else { "finite" });
            out("add", &u.add(&v), want)?;
            let mut w = u;
            w.add_assign(&v);
            out("add_assign", &w, want)?;
            eq("equality", u == v, a == b)?;
            eq("inequality", u != v, a != b)?;
            if a.is_some() && b.is_some() && a != b {
                out("add_fast", &u.add_fast(&v), want)?;
                let mut w = u;
                w.add_assign_fast(&v);
                out("add_assign_fast", &w, want)?;
            }
            if t == 0 && b.is_none() {
                let want = rf.add(a, a);
                out("double", &u.double(), want)?;
                let mut w = u;
                w.double_assign();
                out("double_assign", &w, want)?;
                out("neg", &u.neg(), rf.neg(a))?;
                let mut w = u;
                w.neg_assign();
                out("neg_assign", &w, rf.neg(a))?;
                out("the point", &u, a)?;
            }
            if let (Some(a), Some(b), Some(_), 0, 0) = (a, b, want, s, t) {
                outa("affine add", &aff::<C>(a).add(&aff(b)), want)?;
                eq("affine equality", aff::<C>(a) == aff(b), a == b)?;
            }
            Ok(())
        },
    );
}

fn tiny_mul<C: EllipticCurve>(c: &mut Check, rf: Ref, nm: &str) {
    let pts = rf.points();
    let (p, n) = (rf.p as u64, pts.len() as u64);
    let z = p - 1;
    c.space(
        &format!("{nm}: multiples"),
        n * n * z,
        |i| {
            let [k, a, s] = digits(i, [n, n, z]);
            format!("{k} times {:?} scaled by {}", pts[a], s + 1)
        },
        |i, pr| {
            let [k, a, s] = digits(i, [n, n, z]);
            let u = proj::<C>(pts[a], s as i64 + 1, rf.p);
            let want = rf.mul(k as i64, pts[a]);
            pr.trace();
            pr.steps(2);
            pr.state(mix(h64(std::any::type_name::<C>().as_bytes()), mix(3, i)));
            pr.outcome(if want.is_none() { "infinity" } else { "finite" });
            out("mul_scalar", &u.mul_scalar(&small(k as i64)), want)?;
            let mut w = u;
            w.mul_scalar_assign(&small(k as i64));
            out("mul_scalar_assign", &w, want)
        },
    );
    c.space(&format!("{nm}: agreement"), n * n, |i| format!("keys {} and {}", i / n, i % n), |i, pr| {
        let (a, b) = (small((i / n) as i64), small((i % n) as i64));
        pr.trace();
        pr.steps(4);
        pr.state(mix(h64(std::any::type_name::<C>().as_bytes()), mix(4, i)));
        pr.outcome("ok");
        let g = C::BASE_POINT;
        out("BASE_POINT", &g, Some(rf.g))?;
        eq("both parties' secrets", g.mul_scalar(&a).mul_scalar(&b) == g.mul_scalar(&b).mul_scalar(&a), true)
    });
}

fn digest(e: i64) -> [u8; 32] {
    to_be(&[e as u64, 0, 0, 0])
}

fn tiny_ecdsa<C: EllipticCurve>(c: &mut Check, rf: Ref, nm: &str) {
    let pts = rf.points();
    let n = pts.len() as u64;
    // digests run past the order, so that reduction matters
    let e_all = 2 * n + 3;
    c.space(
        &format!("{nm}: signing"),
        (n - 1) * e_all * n * n,
        |i| {
            let [d, e, k1, k2] = digits(i, [n - 1, e_all, n, n]);
            format!("private key {}, digest {e}, random source answering {k1}, {k2}, then 1, 2, ..", d + 1)
        },
        |i, pr| {
            let [d, e, k1, k2] = digits(i, [n - 1, e_all, n, n]);
            let (d, e) = (d as i64 + 1, e as i64);
            let answer = |j: i64| match j {
                0 => k1 as i64,
                1 => k2 as i64,
                _ => (j - 1) % rf.n,
            };
            let want = (0..2 + rf.n).find_map(|j| rf.sign(d, e % rf.n, answer(j)).map(|s| (j, s)));
            let Some((tries, (r, s))) = want else {
                pr.outcome("no nonce works");
                return Ok(());
            };
            pr.trace();
            pr.steps(2 + tries as u64);
            pr.state(mix(h64(std::any::type_name::<C>().as_bytes()), mix(5, i)));
            pr.outcome(if tries == 0 { "first nonce" } else { "retried" });
            let calls = Cell::new(0);
            let got = sign::<C>(b"message", &small(d), |m| { assert_eq!(m, b"message"); digest(e) }, || {
                calls.set(calls.get() + 1);
                small(answer(calls.get() - 1))
            });
            // a different retry policy would be fine: what counts is that the result is a valid
            // signature that comes from one of the answers
            let mut from_answers = false;
            for j in 0..calls.get() {
                if let Some((r, s)) = rf.sign(d, e % rf.n, answer(j)) {
                    from_answers |= got == Signature::new(small(r), small(s));
                }
            }
            if !from_answers {
                return Err(format!("the signature is {got:x?}; with this key and digest the first usable answer gives r {r}, s {s}"));
            }
            let q = proj::<C>(rf.mul(d, Some(rf.g)), 1, rf.p);
            eq("verification of the signature", verify_signature::<C>(b"message", &q, |_| digest(e), &got).is_ok(), true)
        },
    );
    c.space(
        &format!("{nm}: verification"),
        n * e_all * n * n,
        |i| {
            let [q, e, r, s] = digits(i, [n, e_all, n, n]);
            format!("public key {:?}, digest {e}, r {r}, s {s}", pts[q])
        },
        |i, pr| {
            let [q, e, r, s] = digits(i, [n, e_all, n, n]);
            let want = rf.verify(pts[q], e as i64 % rf.n, r as i64, s as i64);
            pr.trace();
            pr.steps(1);
            pr.state(mix(h64(std::any::type_name::<C>().as_bytes()), mix(6, i)));
            pr.outcome(if want { "valid" } else { "invalid" });
            let z = 1 + (i % (rf.p as u64 - 1)) as i64;
            let key = proj::<C>(pts[q], z, rf.p);
            let sig = Signature::new(small(r as i64), small(s as i64));
            eq("verify_signature", verify_signature::<C>(b"", &key, |_| digest(e as i64), &sig).is_ok(), want)
        },
    );
}

// ---- P-256 ----

fn big(a: &p256::Pt, z: &L) -> ProjectivePoint<Secp256r1> {
    let p = &curve().p;
    let (x, y, z) = match a {
        None => ([0; 4], *z, [0; 4]),
        Some((x, y)) => (p.mul(x, z), p.mul(y, z), *z),
    };
    unsafe { ProjectivePoint::new_unchecked(el(&x), el(&y), el(&z)) }
}
fn bout(what: &str, a: &ProjectivePoint<Secp256r1>, want: &p256::Pt) -> Result<(), String> {
    let got = a.as_affine();
    eq(what, got.map(|q| (q.x().into_inner().0, q.y().into_inner().0)), *want)?;
    let (Some(q), Some((x, y))) = (got, want) else { return Ok(()) };
    let hex = |v: &L| v.iter().rev().map(|d| format!("{d:016x}")).collect::<String>();
    eq("Display", format!("{q}"), format!("(0x{}, 0x{})", hex(x), hex(y)))
}
fn sub1(a: &L, k: u64) -> L {
    let n = refmodel::nat::Nat::from_limbs(a).sub(&refmodel::nat::Nat::from_u64(k));
    n.to_limbs(4).try_into().unwrap()
}

fn big_points(n: u64) -> Vec<p256::Pt> {
    let c = curve();
    let g = Some(c.g);
    let mut v = vec![None];
    let mut acc = None;
    for _ in 0..n {
        acc = c.add(&acc, &g);
        v.push(acc);
        v.push(c.neg(&acc));
    }
    // points with extreme x
    let mut x = 0u64;
    let mut found = 0;
    while found < 4 {
        if let Some(q) = c.lift_x(&[x, 0, 0, 0]) {
            v.push(Some(q));
            found += 1;
        }
        x += 1;
    }
    let mut k = 1u64;
    found = 0;
    while found < 3 {
        if let Some(q) = c.lift_x(&sub1(&c.p.m, k)) {
            v.push(Some(q));
            found += 1;
        }
        k += 1;
    }
    for i in 0..4 {
        v.push(c.mul_g(&c.n.reduce(&p256::from_be(&det_bytes(600 + i, 32)))));
    }
    v
}

fn scales() -> Vec<L> {
    let p = curve().p.m;
    vec![[1, 0, 0, 0], [2, 0, 0, 0], sub1(&p, 1), sub1(&p, 2), [0, 0, 0, 1 << 63], [u64::MAX, 0, 0, 0], curve().p.reduce(&p256::from_be(&det_bytes(5, 32)))]
}

fn big_group(c: &mut Check) {
    let pts = big_points(c.tier(8, 40));
    let sc = scales();
    let (n, z) = (pts.len() as u64, sc.len() as u64);
    c.space(
        "P-256: sums",
        n * n * z,
        |i| {
            let [a, b, s] = digits(i, [n, n, z]);
            format!("{:x?} scaled by {:x?} and {:x?}", pts[a], sc[s], pts[b])
        },
        |i, pr| {
            let [a, b, s] = digits(i, [n, n, z]);
            let (a, b) = (&pts[a], &pts[b]);
            let (u, v) = (big(a, &sc[s]), big(b, &sc[sc.len() - 1 - s]));
            let cv = curve();
            let want = cv.add(a, b);
            pr.trace();
            pr.steps(6);
            pr.state(mix(h64("P-256".as_bytes()), mix(7, i)));
            pr.outcome(if want.is_none() { "infinity" } else { "finite" });
            bout("add", &u.add(&v), &want)?;
            let mut w = u;
            w.add_assign(&v);
            bout("add_assign", &w, &want)?;
            eq("equality", u == v, a == b)?;
            if a.is_some() && b.is_some() && a != b {
                bout("add_fast", &u.add_fast(&v), &want)?;
            }
            if b.is_none() {
                bout("double", &u.double(), &cv.dbl(a))?;
                let mut w = u;
                w.double_assign();
                bout("double_assign", &w, &cv.dbl(a))?;
                bout("neg", &u.neg(), &cv.neg(a))?;
                bout("the point", &u, a)?;
            }
            if let (Some(a), Some(b), Some(_), 0) = (a, b, want, s) {
                let (a, b) = (AffinePoint::<Secp256r1>::new(el(&a.0), el(&a.1)), AffinePoint::<Secp256r1>::new(el(&b.0), el(&b.1)));
                let (Some(a), Some(b)) = (a, b) else {
                    return Err("a point on the curve is refused".into());
                };
                bout("affine add", &a.add(&b).as_projective(), &want)?;
                bout("affine double", &a.double().as_projective(), &cv.dbl(&Some((a.x().into_inner().0, a.y().into_inner().0))))?;
                bout("affine neg", &a.neg().as_projective(), &cv.neg(&Some((a.x().into_inner().0, a.y().into_inner().0))))?;
            }
            Ok(())
        },
    );
    // points near the curve: every one-bit change of either coordinate, and swapped coordinates
    let base: Vec<(L, L)> = pts.iter().flatten().copied().step_by(c.tier(4, 1)).collect();
    let m = base.len() as u64;
    c.space(
        "P-256: membership",
        m * 514,
        |i| format!("{:x?} with change {} of 514 (bits of x, bits of y, none, swapped)", base[(i / 514) as usize], i % 514),
        |i, pr| {
            let (mut x, mut y) = base[(i / 514) as usize];
            match (i % 514) as usize {
                b @ 0..=255 => x[b / 64] ^= 1 << (b % 64),
                b @ 256..=511 => y[(b - 256) / 64] ^= 1 << (b % 64),
                512 => (),
                _ => std::mem::swap(&mut x, &mut y),
            }
            let (Some(fx), Some(fy)) = (FieldElement::<4, Secp256r1>::try_new(UBigInt(x)), FieldElement::<4, Secp256r1>::try_new(UBigInt(y))) else {
                pr.outcome("out of the field");
                return eq("try_new", curve().on_curve(&x, &y), false);
            };
            let want = curve().on_curve(&x, &y);
            pr.trace();
            pr.steps(1);
            pr.state(mix(h64("P-256".as_bytes()), mix(8, i)));
            pr.outcome(if want { "on the curve" } else { "off the curve" });
            eq("is_on_curve", AffinePoint::is_on_curve(&fx, &fy), want)?;
            eq("new", AffinePoint::new(fx, fy).is_some(), want)
        },
    );
}

fn big_scalars(quick: bool) -> Vec<L> {
    let n = curve().n.m;
    let mut v: Vec<L> = vec![];
    for k in 0..if quick { 64 } else { 1100u64 } {
        v.push([k, 0, 0, 0]);
        v.push(sub1(&n, k + 1));
    }
    for i in (0..256).filter(|i| !quick || i % 8 == 0 || i % 64 >= 62) {
        let mut b = [0; 4];
        b[i / 64] = 1 << (i % 64);
        v.push(b);
        let mut b1 = b;
        b1[0] |= 1;
        v.push(b1);
        v.push(sub1(&b, 1));
        v.push(p256::curve().n.neg(&curve().n.reduce(&b)));
    }
    for w in [0x5555_5555_5555_5555u64, 0xaaaa_aaaa_aaaa_aaaa, 0x8000_0000_0000_0001, 0xffff_0000_ffff_0000] {
        v.push([w; 4]);
    }
    for s in 0..if quick { 4 } else { 64 } {
        v.push(p256::from_be(&det_bytes(880 + s, 32)));
    }
    for x in v.iter_mut() {
        *x = curve().n.reduce(x);
    }
    v.sort();
    v.dedup();
    v
}

fn big_mul(c: &mut Check) {
    let sc = big_scalars(c.tier(true, false));
    let pts = big_points(2);
    let bases: Vec<p256::Pt> = [1usize, 0, 3, 5, 8, pts.len() - 1][..c.tier(4, 6)].iter().map(|&i| pts[i]).collect();
    let (n, m) = (sc.len() as u64, bases.len() as u64);
    let zs = scales();
    c.space(
        "P-256: multiples",
        n * m,
        |i| format!("{:x?} times {:x?}", sc[(i / m) as usize], bases[(i % m) as usize]),
        |i, pr| {
            let (k, a) = (&sc[(i / m) as usize], &bases[(i % m) as usize]);
            let u = if i % m == 0 { Secp256r1::BASE_POINT } else { big(a, &zs[(i as usize) % zs.len()]) };
            let want = curve().mul(k, a);
            pr.trace();
            pr.steps(2);
            pr.state(mix(h64("P-256".as_bytes()), mix(9, i)));
            pr.outcome(if want.is_none() { "infinity" } else { "finite" });
            bout("mul_scalar", &u.mul_scalar(&el(k)), &want)?;
            let mut w = u;
            w.mul_scalar_assign(&el(k));
            bout("mul_scalar_assign", &w, &want)
        },
    );
    let keys: Vec<&L> = sc.iter().step_by(c.tier(23, 37)).collect();
    let n = keys.len() as u64;
    c.space("P-256: agreement", n * n, |i| format!("keys {:x?} and {:x?}", keys[(i / n) as usize], keys[(i % n) as usize]), |i, pr| {
        let (a, b): (FieldElement<4, Order>, FieldElement<4, Order>) = (el(keys[(i / n) as usize]), el(keys[(i % n) as usize]));
        let g = Secp256r1::BASE_POINT;
        pr.trace();
        pr.steps(4);
        pr.state(mix(h64("P-256".as_bytes()), mix(10, i)));
        pr.outcome("ok");
        eq("both parties' secrets", g.mul_scalar(&a).mul_scalar(&b) == g.mul_scalar(&b).mul_scalar(&a), true)
    });
}

/// RFC 6979, A.2.5: SHA-256 with P-256.
const RFC6979: [(&str, &str, &str, &str); 2] = [
    ("sample", "a6e3c57dd01abe90086538398355dd4c3b17aa873382b0f24d6129493d8aad60", "efd48b2aacb6a8fd1140dd9cd45e81d69d2c877b56aaf991c34d0ea84eaf3716", "f7cb1c942d657c41d436c7a1b6e29f65f3e900dbb9aff4064dc4ab2f843acda8"),
    ("test", "d16b6ae827f17175e040871a1c7ec3500192c4c92677336ec2537acaee0008e0", "f1abb023518351cd71d881567b1ea663ed3efcf6c5132b354f28d3b0b7d38367", "019f4113742a2b14bd25926b49c649155f267e60d3814b4c0cc84250e46f0083"),
];

fn big_ecdsa(c: &mut Check) {
    let cv = curve();
    let n = cv.n.m;
    let d6979 = limbs("c9afa9d845ba75166b5c215767b1d6934e50c3db36e89b127b8a622b120f6721");
    c.items("RFC 6979", &RFC6979, |t| t.0.into(), |t, pr| {
        pr.trace();
        pr.steps(2);
        pr.state(h64(t.0.as_bytes()));
        pr.outcome("ok");
        let sha = |m: &[u8]| refmodel::hash::sha256(m);
        let got = sign::<Secp256r1>(t.0.as_bytes(), &el(&d6979), sha, || el(&limbs(t.1)));
        let want = Signature::new(el(&limbs(t.2)), el(&limbs(t.3)));
        eq("signature", got == want, true)?;
        let q = big(&cv.mul_g(&d6979), &[3, 0, 0, 0]);
        eq("verification", verify_signature::<Secp256r1>(t.0.as_bytes(), &q, sha, &want).is_ok(), true)?;
        eq("verification of another message", verify_signature::<Secp256r1>(b"tesT", &q, sha, &want).is_ok(), false)
    });
    // keys x digests x nonces
    let ds = [[1, 0, 0, 0], [2, 0, 0, 0], sub1(&n, 1), sub1(&n, 2), d6979, [0, 0, 0, 1 << 63]];
    let mut es: Vec<[u8; 32]> = vec![[0; 32], [0xff; 32], to_be(&n), to_be(&sub1(&n, 1)), to_be(&[1, 0, 0, 0]), to_be(&cv.p.m), refmodel::hash::sha256(b"sample")];
    let mut np = n;
    np[0] += 1;
    es.push(to_be(&np));
    let ks = [[1, 0, 0, 0], [2, 0, 0, 0], sub1(&n, 1), limbs(RFC6979[0].1), [0, 0, 1, 0]];
    let (nd, ne, nk) = (ds.len() as u64, es.len() as u64, ks.len() as u64);
    c.space(
        "P-256: signatures",
        nd * ne * nk,
        |i| {
            let [d, e, k] = digits(i, [nd, ne, nk]);
            format!("private key {:x?}, digest {}, nonce {:x?} after a zero", ds[d], hex(&es[e]), ks[k])
        },
        |i, pr| {
            let [d, e, k] = digits(i, [nd, ne, nk]);
            let (d, e, k) = (&ds[d], &es[e], &ks[k]);
            pr.trace();
            pr.steps(3);
            pr.state(mix(h64("P-256".as_bytes()), mix(11, i)));
            let calls = Cell::new(0);
            let first = rsig::sign(d, e, k);
            pr.outcome(if first.is_some() { "signed" } else { "retried" });
            let other = limbs(RFC6979[1].1);
            let want = first.or_else(|| rsig::sign(d, e, &other)).unwrap();
            let got = sign::<Secp256r1>(b"m", &el(d), |_| *e, || {
                calls.set(calls.get() + 1);
                match calls.get() {
                    1 => FieldElement::ZERO,
                    2 => el(k),
                    _ => el(&other),
                }
            });
            eq("signature", got == Signature::new(el(&want.0), el(&want.1)), true)?;
            let q = cv.mul_g(d).unwrap();
            eq("verification", verify_signature::<Secp256r1>(b"m", &big(&Some(q), &[1, 0, 0, 0]), |_| *e, &got).is_ok(), true)
        },
    );
    // u G = v Q: the sum in the verification doubles, and u G = -v Q: it is infinity; both with
    // any r, since s is free
    let q6 = cv.mul_g(&d6979).unwrap();
    let e = refmodel::hash::sha256(b"sample");
    let (r0, s0) = rsig::sign(&d6979, &e, &limbs(RFC6979[0].1)).unwrap();
    let mut cand: Vec<(String, L, [u8; 32], L, L)> = vec![];
    for (dn, d) in [("1", [1, 0, 0, 0]), ("the RFC's", d6979), ("n-1", sub1(&n, 1))] {
        // choose k, r = x(kG): a valid signature in which z = r d mod n, so u = v d and u G = v Q
        for k in [[2, 0, 0, 0], limbs(RFC6979[0].1)] {
            let r = cv.n.reduce(&cv.mul_g(&k).unwrap().0);
            let z = cv.n.mul(&r, &d);
            let (r, s) = rsig::sign(&d, &to_be(&z), &k).unwrap();
            cand.push((format!("private key {dn}, u G = v Q, valid"), d, to_be(&z), r, s));
            cand.push((format!("private key {dn}, u G = -v Q"), d, to_be(&cv.n.neg(&z)), r, s));
        }
    }
    for (nm, v) in [("0", [0; 4]), ("1", [1, 0, 0, 0]), ("n-1", sub1(&n, 1)), ("s", s0), ("r", r0), ("n-s", cv.n.neg(&s0)), ("n-r", cv.n.neg(&r0)), ("r+1", cv.n.add(&r0, &[1, 0, 0, 0])), ("s+1", cv.n.add(&s0, &[1, 0, 0, 0]))] {
        cand.push((format!("r replaced by {nm}"), d6979, e, v, s0));
        cand.push((format!("s replaced by {nm}"), d6979, e, r0, v));
        cand.push((format!("both {nm}"), d6979, e, v, v));
    }
    for b in (0..256).step_by(c.tier(8, 1)) {
        let flip = |l: &L| {
            let mut l = *l;
            l[b / 64] ^= 1 << (b % 64);
            cv.n.reduce(&l)
        };
        cand.push((format!("bit {b} of r flipped"), d6979, e, flip(&r0), s0));
        cand.push((format!("bit {b} of s flipped"), d6979, e, r0, flip(&s0)));
        let mut e2 = e;
        e2[31 - b / 8] ^= 1 << (b % 8);
        cand.push((format!("bit {b} of the digest flipped"), d6979, e2, r0, s0));
    }
    c.items("P-256: verification", &cand, |t| t.0.clone(), |t, pr| {
        let q = cv.mul_g(&t.1).unwrap();
        let want = rsig::verify(&q, &t.2, &t.3, &t.4);
        pr.trace();
        pr.steps(1);
        pr.state(h64(&[&t.2[..], &to_be(&t.3), &to_be(&t.4)].concat()));
        pr.outcome(if want { "valid" } else { "invalid" });
        let sig = Signature::new(el(&t.3), el(&t.4));
        eq("verify_signature", verify_signature::<Secp256r1>(b"m", &big(&Some(q), &[7, 0, 0, 0]), |_| t.2, &sig).is_ok(), want)
    });
    let keys = [("infinity", None), ("G", Some(cv.g)), ("-Q", cv.neg(&Some(q6))), ("2Q", cv.dbl(&Some(q6))), ("Q", Some(q6))];
    c.items("P-256: verification under other keys", &keys, |k| k.0.into(), |k, pr| {
        let want = k.1.is_some_and(|q| rsig::verify(&q, &e, &r0, &s0));
        pr.trace();
        pr.steps(1);
        pr.state(h64(k.0.as_bytes()));
        pr.outcome(if want { "valid" } else { "invalid" });
        let sig = Signature::new(el(&r0), el(&s0));
        eq("verify_signature", verify_signature::<Secp256r1>(b"m", &big(&k.1, &[1, 0, 0, 0]), |_| e, &sig).is_ok(), want)
    });
}

macro_rules! each_tiny {
    ($c:ident, $f:ident) => {{
        macro_rules! go {
            ($p:literal, $a:literal, $b:literal, $n:literal, $gx:literal, $gy:literal) => {
                let _: Option<Fp<$n>> = None;
                $f::<Ec<$p, $a, $b, $n, $gx, $gy>>($c, Ref { p: $p, a: $a, b: $b, n: $n, g: ($gx, $gy) }, concat!("y^2 = x^3 + ", $a, " x + ", $b, " mod ", $p));
            };
        }
        tiny_curves!(go);
    }};
}

const TINY: &str = "eight prime-order curves over fields of 5 to 17 elements, completely (the library is generic in the curve, so the same source decides both)";
pub fn k09(c: &mut Check) {
    c.bound(&format!("{TINY}; on P-256 all pairs of a set of multiples of the generator, extreme-x points and infinity, under seven projective scalings"));
    each_tiny!(c, tiny_group);
    big_group(c);
}
pub fn k10(c: &mut Check) {
    c.bound(&format!("{TINY}; on P-256 small scalars, scalars next to the order, powers of two and their neighbours, for several base points"));
    each_tiny!(c, tiny_mul);
    big_mul(c);
}
pub fn k11(c: &mut Check) {
    c.bound(&format!("{TINY}: every key, digest up to past twice the order, first two answers of the random source, and every public key, digest, r and s; on P-256 the listed boundary combinations"));
    each_tiny!(c, tiny_ecdsa);
    big_ecdsa(c);
}
