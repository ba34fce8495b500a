//! K06 and K07: fixed-width integers against arbitrary-precision ones.
use crate::util::*;
use crylib::big_int::{BigInt, UBigInt};
use refmodel::nat::Nat;
use std::cmp::Ordering;

fn nat<const N: usize>(x: &UBigInt<N>) -> Nat {
    Nat::from_limbs(&x.0)
}
fn limbs<const N: usize>(x: &Nat) -> UBigInt<N> {
    UBigInt(x.to_limbs(N).try_into().unwrap())
}
fn eq<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> Result<(), String> {
    if got == want {
        Ok(())
    } else {
        Err(format!("{what}: library {got:x?}, mathematics {want:x?}"))
    }
}

const EDGE: [u64; 12] = [0, u64::MAX, 1, 1 << 63, u64::MAX - 1, (1 << 63) - 1, 1 << 32, 2, (1 << 63) + 1, u32::MAX as u64, 0xffff_ffff_0000_0001, 3];

/// The `i`-th number of `N` digits over the first `k` edge digits.
fn edge<const N: usize>(mut i: u64, k: u64) -> UBigInt<N> {
    let mut o = [0; N];
    for d in o.iter_mut() {
        *d = EDGE[(i % k) as usize];
        i /= k;
    }
    UBigInt(o)
}

fn pair_generic<const N: usize>(a: &UBigInt<N>, b: &UBigInt<N>) -> Result<(), String> {
    let (x, y) = (nat(a), nat(b));
    let m = Nat::pow2(64 * N);
    let sum = x.add(&y);
    let carry = !sum.lt(&m);
    let sum: UBigInt<N> = limbs(&sum);
    eq("overflowing_add", a.overflowing_add(b), (sum, carry))?;
    eq("add", a.add(b), sum)?;
    let mut t = *a;
    eq("overflowing_add_assign", t.overflowing_add_assign(b), carry)?;
    eq("overflowing_add_assign", t, sum)?;
    let mut t = *a;
    t.add_assign(b);
    eq("add_assign", t, sum)?;
    let borrow = x.lt(&y);
    let dif: UBigInt<N> = limbs(&x.add(&m).sub(&y));
    eq("overflowing_sub", a.overflowing_sub(b), (dif, borrow))?;
    eq("sub", a.sub(b), dif)?;
    let mut t = *a;
    eq("overflowing_sub_assign", t.overflowing_sub_assign(b), borrow)?;
    eq("overflowing_sub_assign", t, dif)?;
    let mut t = *a;
    t.sub_assign(b);
    eq("sub_assign", t, dif)?;
    let bits = |f: fn(u64, u64) -> u64| UBigInt::<N>(std::array::from_fn(|i| f(a.0[i], b.0[i])));
    macro_rules! bitop {
        ($op:ident, $assign:ident, $f:expr) => {
            eq(stringify!($op), a.$op(b), bits($f))?;
            let mut t = *a;
            t.$assign(b);
            eq(stringify!($assign), t, bits($f))?;
        };
    }
    bitop!(xor, xor_assign, |p, q| p ^ q);
    bitop!(and, and_assign, |p, q| p & q);
    bitop!(or, or_assign, |p, q| p | q);
    bitop!(nor, nor_assign, |p, q| !(p | q));
    bitop!(xnor, xnor_assign, |p, q| !(p ^ q));
    bitop!(nand, nand_assign, |p, q| !(p & q));
    let o = x.cmp(&y);
    eq("cmp", a.cmp(b), o)?;
    eq("partial_cmp", a.partial_cmp(b), Some(o))?;
    eq("comparison operators", [a < b, a <= b, a > b, a >= b, a == b, a != b], [o.is_lt(), o.is_le(), o.is_gt(), o.is_ge(), o.is_eq(), o.is_ne()])?;
    eq("max", *a.max(b), if o == Ordering::Greater { *a } else { *b })
}

fn unary_generic<const N: usize>(a: &UBigInt<N>) -> Result<(), String> {
    let x = nat(a);
    let m = Nat::pow2(64 * N);
    let top = |n: &Nat| n.divrem(&m).1;
    let w = |n: Nat| limbs::<N>(&top(&n));
    eq("double", a.double(), w(x.add(&x)))?;
    let mut t = *a;
    t.double_assign();
    eq("double_assign", t, w(x.add(&x)))?;
    eq("not", a.not(), w(m.sub(&Nat::from_u64(1)).sub(&x)))?;
    let mut t = *a;
    t.not_assign();
    eq("not_assign", t, a.not())?;
    for s in 0..=130u64 {
        let k = (s % 64) as usize;
        eq("shift_left", a.shift_left(s), w(x.shl(k)))?;
        eq("shift_right", a.shift_right(s), w(x.shr(k)))?;
        let mut t = *a;
        t.shift_left_assign(s);
        eq("shift_left_assign", t, w(x.shl(k)))?;
        let mut t = *a;
        t.shift_right_assign(s);
        eq("shift_right_assign", t, w(x.shr(k)))?;
    }
    let digits = x.bits().div_ceil(64);
    eq("count_digits", a.count_digits(), digits)?;
    eq("count_digits_fast", a.count_digits_fast(), digits)?;
    eq("count_bits", a.count_bits(), x.bits())?;
    eq("len", a.len(), N)?;
    if !x.is_zero() {
        let mut t = *a;
        let want = (64 * digits - x.bits()) as u64;
        eq("left_align's result", t.left_align(), want)?;
        eq("left_align", t, w(x.shl(want as usize)))?;
    }
    for b in [false, true] {
        let want = if b { *a } else { UBigInt::ZERO };
        eq("and_bool", a.and_bool(b), want)?;
        let mut t = *a;
        t.and_bool_assign(b);
        eq("and_bool_assign", t, want)?;
    }
    for d in EDGE {
        let p = x.mul(&Nat::from_u64(d));
        let (hi, lo) = p.divrem(&m);
        let (hi, lo) = (hi.to_limbs(1)[0], limbs::<N>(&lo));
        eq("mul_digit", a.mul_digit(d), lo)?;
        eq("overflowing_mul_digit", a.overflowing_mul_digit(d), (lo, hi))?;
        let mut t = *a;
        t.mul_digit_assign(d);
        eq("mul_digit_assign", t, lo)?;
        let mut t = *a;
        eq("overflowing_mul_digit_assign", t.overflowing_mul_digit_assign(d), hi)?;
        eq("overflowing_mul_digit_assign", t, lo)?;
    }
    for i in 0..64 * N {
        eq("get_bit", a.get_bit(i), x.bit(i))?;
        for v in [false, true] {
            let mut t = *a;
            t.set_bit(i, v);
            let mut want = *a;
            want.0[i / 64] = want.0[i / 64] & !(1 << (i % 64)) | (v as u64) << (i % 64);
            eq("set_bit", t, want)?;
        }
    }
    for i in 0..8 * N {
        for v in [0u8, 1, 0x80, 0xff, 0x5a] {
            let mut t = *a;
            t.set_byte(i, v);
            let mut want: Vec<u8> = a.0.iter().flat_map(|d| d.to_le_bytes()).collect();
            want[i] = v;
            eq("set_byte", nat(&t), Nat::from_le(&want))?;
        }
    }
    macro_rules! resize {
        ($($o:literal)*) => {$(
            eq("resize", a.resize::<$o>(), UBigInt(x.to_limbs($o).try_into().unwrap()))?;
        )*};
    }
    resize!(1 2 3 4 5 6 7 8 9);
    // text
    let hex: String = a.0.iter().rev().map(|d| format!("{d:016x}")).collect();
    eq("Display", format!("{a}"), format!("0x{hex}"))?;
    eq("LowerHex", format!("{a:x}"), format!("0x{hex}"))?;
    eq("UpperHex", format!("{a:X}"), format!("0x{}", hex.to_uppercase()))?;
    // views and conversions
    let mut arr = a.0;
    eq("new", UBigInt::new(arr), *a)?;
    eq("From<[u64; N]>", UBigInt::from(arr), *a)?;
    eq("Into<[u64; N]>", <[u64; N]>::from(*a), arr)?;
    eq("TryFrom<&[u64]>", UBigInt::<N>::try_from(&arr[..]).ok(), Some(*a))?;
    eq("TryFrom of a short slice", UBigInt::<N>::try_from(&arr[1..]).is_err(), true)?;
    eq("from_ref", *UBigInt::from_ref(&arr), *a)?;
    eq("AsRef<[u64; N]>", *AsRef::<[u64; N]>::as_ref(a), arr)?;
    eq("AsRef<UBigInt>", *AsRef::<UBigInt<N>>::as_ref(&arr), *a)?;
    UBigInt::from_ref_mut(&mut arr).not_assign();
    eq("from_ref_mut", UBigInt(arr), a.not())?;
    AsMut::<UBigInt<N>>::as_mut(&mut arr).not_assign();
    eq("AsMut<UBigInt>", UBigInt(arr), *a)?;
    let mut t = *a;
    AsMut::<[u64; N]>::as_mut(&mut t)[0] ^= 1;
    t.0[0] ^= 1;
    eq("AsMut<[u64; N]>", t, *a)?;
    eq("From<u64>", UBigInt::<N>::from(a.0[0]), limbs(&Nat::from_u64(a.0[0])))?;
    eq("constants", [UBigInt::<N>::ZERO, UBigInt::MIN, UBigInt::ONE, UBigInt::MAX, UBigInt::default()].map(|u| nat(&u)), [Nat::zero(), Nat::zero(), Nat::from_u64(1), m.sub(&Nat::from_u64(1)), Nat::zero()])
}

macro_rules! sized {
    ($pair:ident, $unary:ident, $n:literal) => {
        fn $pair(a: &UBigInt<$n>, b: &UBigInt<$n>) -> Result<(), String> {
            let (x, y) = (nat(a), nat(b));
            eq("widening_mul", nat(&a.widening_mul(b)), x.mul(&y))?;
            if !y.is_zero() {
                let (q, r) = a.div(b);
                let (qn, rn) = (nat(&q), nat(&r));
                if qn.mul(&y).add(&rn) != x || !rn.lt(&y) {
                    return Err(format!("div: quotient {q:?}, remainder {r:?}"));
                }
                let mut t = *a;
                t.div_assign(b);
                eq("div_assign", t, q)?;
            }
            Ok(())
        }
        fn $unary(a: &UBigInt<$n>) -> Result<(), String> {
            let x = nat(a);
            for s in 0..=130u64 {
                eq("widening_shift_left", nat(&a.widening_shift_left(s)), x.shl((s % 64) as usize))?;
            }
            let be: [u8; $n * 8] = x.to_be($n * 8).try_into().unwrap();
            let mut le = be;
            le.reverse();
            eq("to_be_bytes", a.to_be_bytes().to_vec(), be.to_vec())?;
            eq("to_le_bytes", a.to_le_bytes().to_vec(), le.to_vec())?;
            eq("from_be_bytes", UBigInt::<$n>::from_be_bytes(be), *a)?;
            eq("from_le_bytes", UBigInt::<$n>::from_le_bytes(le), *a)
        }
    };
}
sized!(pair2, unary2, 2);
sized!(pair3, unary3, 3);
sized!(pair4, unary4, 4);
sized!(pair5, unary5, 5);
sized!(pair6, unary6, 6);
sized!(pair8, unary8, 8);

fn pairs<const N: usize>(c: &mut Check, k: u64, kb: u64, div: fn(&UBigInt<N>, &UBigInt<N>) -> Result<(), String>) {
    let (na, nb) = (k.pow(N as u32), kb.pow(N as u32));
    c.space(
        &format!("{N} digits, pairs"),
        na * nb,
        |i| format!("{:?} and {:?}", edge::<N>(i / nb, k), edge::<N>(i % nb, kb)),
        |i, p| {
            let (a, b) = (edge::<N>(i / nb, k), edge::<N>(i % nb, kb));
            p.trace();
            p.steps(28);
            p.state(i << 4 | N as u64);
            p.outcome("exact");
            pair_generic(&a, &b)?;
            div(&a, &b)?;
            div(&b, &a)
        },
    );
}
fn unaries<const N: usize>(c: &mut Check, k: u64, un: fn(&UBigInt<N>) -> Result<(), String>) {
    let n = k.pow(N as u32);
    c.space(&format!("{N} digits, single numbers"), n, |i| format!("{:?}", edge::<N>(i, k)), |i, p| {
        let a = edge::<N>(i, k);
        p.trace();
        p.steps(700);
        p.state(mix(i, 77 + N as u64));
        p.outcome("exact");
        unary_generic(&a)?;
        un(&a)
    });
}

/// Ones from bit `lo` up to below `hi`, or the complement of that.
fn run_of_ones<const N: usize>(lo: usize, hi: usize, not: bool) -> UBigInt<N> {
    let mut o = [0; N];
    for b in lo..hi {
        o[b / 64] |= 1 << (b % 64);
    }
    for d in o.iter_mut() {
        *d ^= (not as u64).wrapping_neg();
    }
    UBigInt(o)
}
/// The `i`-th run: every `lo < hi <= 64 N`, as it is and complemented.
fn nth_run<const N: usize>(i: u64) -> UBigInt<N> {
    let (mut hi, mut j) = (1, (i / 2) as usize);
    while j >= hi {
        j -= hi;
        hi += 1;
    }
    run_of_ones(j, hi, i % 2 == 1)
}
/// 2^b, 2^b - 1, 2^b + 1 and their complements, for every bit b.
fn near_power<const N: usize>(i: u64) -> UBigInt<N> {
    let b = (i / 6) as usize;
    let mut o = match i % 6 / 2 {
        0 => run_of_ones(b, b + 1, false),
        1 => run_of_ones(0, b, false),
        _ => {
            let mut o = run_of_ones::<N>(b, b + 1, false);
            o.0[0] |= 1;
            o
        },
    };
    if i % 2 == 1 {
        for d in o.0.iter_mut() {
            *d = !*d;
        }
    }
    o
}
fn bit_patterns<const N: usize>(c: &mut Check, stride: u64, runs: u64, un: fn(&UBigInt<N>) -> Result<(), String>, div: fn(&UBigInt<N>, &UBigInt<N>) -> Result<(), String>) {
    let bits = 64 * N as u64;
    c.space(&format!("{N} digits, runs of ones"), (bits * (bits + 1)).div_ceil(runs), |i| format!("{:x?}", nth_run::<N>(i * runs)), |i, p| {
        let a = nth_run::<N>(i * runs);
        p.trace();
        p.steps(700);
        p.state(mix(i, 177000 + N as u64));
        p.outcome("exact");
        unary_generic(&a)?;
        un(&a)
    });
    let n = 6 * bits;
    c.space(&format!("{N} digits, single numbers near powers of two"), n, |i| format!("{:x?}", near_power::<N>(i)), |i, p| {
        let a = near_power::<N>(i);
        p.trace();
        p.steps(700);
        p.state(mix(i, 180000 + N as u64));
        p.outcome("exact");
        unary_generic(&a)?;
        un(&a)
    });
    c.space(&format!("{N} digits, near powers of two"), (n * n).div_ceil(stride), |i| format!("{:x?} and {:x?}", near_power::<N>(i * stride / n), near_power::<N>(i * stride % n)), |i, p| {
        let (a, b) = (near_power::<N>(i * stride / n), near_power::<N>(i * stride % n));
        p.trace();
        p.steps(28);
        p.state(mix(i, 178000 + N as u64));
        p.outcome("exact");
        pair_generic(&a, &b)?;
        div(&a, &b)
    });
    // products with a digit
    let digit = |j: u64| near_power::<1>(j).0[0];
    c.space(&format!("{N} digits, products with a digit"), (n * 384).div_ceil(stride), |i| format!("{:x?} times {:x}", near_power::<N>(i * stride / 384), digit(i * stride % 384)), |i, p| {
        let (a, d) = (near_power::<N>(i * stride / 384), digit(i * stride % 384));
        p.trace();
        p.steps(4);
        p.state(mix(i, 179000 + N as u64));
        p.outcome("exact");
        let (hi, lo) = nat(&a).mul(&Nat::from_u64(d)).divrem(&Nat::pow2(64 * N));
        let (hi, lo) = (hi.to_limbs(1)[0], limbs::<N>(&lo));
        eq("overflowing_mul_digit", a.overflowing_mul_digit(d), (lo, hi))?;
        eq("mul_digit", a.mul_digit(d), lo)?;
        let mut t = a;
        t.mul_digit_assign(d);
        eq("mul_digit_assign", t, lo)?;
        let mut t = a;
        eq("overflowing_mul_digit_assign", (t.overflowing_mul_digit_assign(d), t), (hi, lo))
    });
}

pub fn k06(c: &mut Check) {
    c.bound("every pair of numbers whose 64-bit digits come from a list of boundary values (the list is shorter for wider numbers), every pair of numbers below 2^8 at every digit position, quotient-digit corner cases built from every divisor of 1 to 3 boundary digits, numbers next to every power of two and every run of ones (wide ones in steps); all bit, byte and shift positions");
    pairs::<2>(c, 12, 12, pair2);
    pairs::<3>(c, c.tier(7, 10), c.tier(7, 10), pair3);
    pairs::<4>(c, c.tier(4, 6), c.tier(4, 6), pair4);
    pairs::<5>(c, 3, c.tier(3, 4), pair5);
    pairs::<6>(c, c.tier(2, 3), 3, pair6);
    pairs::<8>(c, 2, c.tier(2, 3), pair8);
    unaries::<2>(c, 12, unary2);
    unaries::<3>(c, 8, unary3);
    unaries::<4>(c, 5, unary4);
    unaries::<5>(c, 4, unary5);
    unaries::<6>(c, 3, unary6);
    unaries::<8>(c, 2, unary8);
    bit_patterns::<2>(c, 1, c.tier(41, 1), unary2, pair2);
    bit_patterns::<3>(c, 1, c.tier(97, 1), unary3, pair3);
    bit_patterns::<4>(c, c.tier(5, 1), c.tier(173, 1), unary4, pair4);
    bit_patterns::<5>(c, c.tier(7, 1), c.tier(251, 7), unary5, pair5);
    bit_patterns::<6>(c, c.tier(11, 1), c.tier(509, 11), unary6, pair6);
    bit_patterns::<8>(c, c.tier(23, 1), c.tier(1021, 23), unary8, pair8);
    // small numbers at every digit offset: dense, so that no residue class is missed
    c.space("small numbers", 256 * 256 * 4, |i| format!("{} and {} at digit {}", i >> 8 & 255, i & 255, i >> 16), |i, p| {
        let (a, b, at) = (i >> 8 & 255, i & 255, (i >> 16) as usize);
        let mut x = UBigInt::<4>::ZERO;
        let mut y = UBigInt::<4>::ZERO;
        x.0[3] = a;
        y.0[at] = b;
        p.trace();
        p.steps(28);
        p.state(mix(i, 5));
        p.outcome("exact");
        pair_generic(&x, &y)?;
        pair4(&x, &y)?;
        x = UBigInt::ZERO;
        x.0[at] = a;
        pair_generic(&x, &y)?;
        pair4(&x, &y)
    });
    // numerators q * d + r with q and r next to their limits: every estimate of a quotient digit
    // that is off by one, and every correction step
    let k = c.tier(8u64, 12);
    c.space(
        "division corners",
        k.pow(3) * 3 * k.pow(2) * 4,
        |i| format!("case {i}: {:?}", corner(i, k).map(|(n, d)| format!("{n:?} / {d:?}"))),
        |i, p| {
            let Some((n, d)) = corner(i, k) else { return Ok(()) };
            p.trace();
            p.steps(2);
            p.state(mix(i, 6));
            p.outcome("exact");
            pair6(&n, &d)?;
            if n.0[4..] == [0, 0] {
                pair4(&n.resize(), &d.resize())?;
            }
            pair8(&n.resize(), &d.resize())
        },
    );
}
/// n = q * d + r (6 digits) where d has 1..3 edge digits, q 2 edge digits, r in {0, 1, d-1, d/2}.
fn corner(i: u64, k: u64) -> Option<(UBigInt<6>, UBigInt<6>)> {
    let [q, l, d, r] = digits(i, [k * k, 3, k * k * k, 4]);
    let mut dd = [0; 6];
    let mut j = d as u64;
    for x in dd.iter_mut().take(l + 1) {
        *x = EDGE[(j % k) as usize];
        j /= k;
    }
    if j != 0 || dd[l] == 0 {
        return None;
    }
    let dn = Nat::from_limbs(&dd);
    let qn = Nat::from_limbs(&edge::<2>(q as u64, k).0);
    let r = match r {
        0 => Nat::zero(),
        1 => Nat::from_u64(1),
        2 => dn.sub(&Nat::from_u64(1)),
        _ => dn.shr(1),
    };
    if !r.lt(&dn) {
        return None;
    }
    Some((limbs(&qn.mul(&dn).add(&r)), UBigInt(dd)))
}

/// An integer.
#[derive(Clone, Debug, PartialEq, Eq)]
struct Z {
    neg: bool,
    mag: Nat,
}
impl Z {
    fn new(neg: bool, mag: Nat) -> Z {
        Z { neg: neg && !mag.is_zero(), mag }
    }
    fn neg(&self) -> Z {
        Z::new(!self.neg, self.mag.clone())
    }
    fn add(&self, o: &Z) -> Z {
        if self.neg == o.neg {
            Z::new(self.neg, self.mag.add(&o.mag))
        } else if self.mag.lt(&o.mag) {
            Z::new(o.neg, o.mag.sub(&self.mag))
        } else {
            Z::new(self.neg, self.mag.sub(&o.mag))
        }
    }
    fn mul(&self, o: &Z) -> Z {
        Z::new(self.neg != o.neg, self.mag.mul(&o.mag))
    }
    fn cmp(&self, o: &Z) -> Ordering {
        match (self.neg, o.neg) {
            (false, false) => self.mag.cmp(&o.mag),
            (true, true) => o.mag.cmp(&self.mag),
            (true, false) => Ordering::Less,
            (false, true) => Ordering::Greater,
        }
    }
    /// Into -2^w ..= 2^w - 1, modulo 2^(w+1).
    fn wrap(&self, w: usize) -> Z {
        let m = Nat::pow2(w + 1);
        let r = self.mag.rem(&m);
        let r = if self.neg && !r.is_zero() { m.sub(&r) } else { r };
        if r.lt(&Nat::pow2(w)) {
            Z::new(false, r)
        } else {
            Z::new(true, m.sub(&r))
        }
    }
    fn fits(&self, w: usize) -> bool {
        self.wrap(w) == *self
    }
}

/// The value of a library integer. Two's complement: -x - 1 is the complement of x.
fn val<const N: usize>(x: &BigInt<N>) -> Result<Z, String> {
    Ok(if x.is_negative() {
        if UBigInt::<N>::try_from(*x).is_ok() {
            return Err("a negative number converts to an unsigned one".into());
        }
        let u = UBigInt::<N>::try_from(x.not()).map_err(|_| "the complement of a negative number is negative".to_string())?;
        Z::new(true, nat(&u).add(&Nat::from_u64(1)))
    } else {
        let u = UBigInt::<N>::try_from(*x).map_err(|_| "a non-negative number does not convert".to_string())?;
        Z::new(false, nat(&u))
    })
}
fn make<const N: usize>(neg: bool, d: &UBigInt<N>) -> BigInt<N> {
    let x = BigInt::from(*d);
    if neg {
        x.not()
    } else {
        x
    }
}

fn signed_pair<const N: usize>(a: &BigInt<N>, b: &BigInt<N>) -> Result<(), String> {
    let (x, y) = (val(a)?, val(b)?);
    let w = 64 * N;
    let sum = x.add(&y).wrap(w);
    let dif = x.add(&y.neg()).wrap(w);
    eq("add", val(&a.add(b))?, sum.clone())?;
    eq("sub", val(&a.sub(b))?, dif.clone())?;
    let mut t = *a;
    t.add_assign(b);
    eq("add_assign", val(&t)?, sum)?;
    let mut t = *a;
    t.sub_assign(b);
    eq("sub_assign", val(&t)?, dif)?;
    let o = x.cmp(&y);
    eq("cmp", a.cmp(b), o)?;
    eq("partial_cmp", a.partial_cmp(b), Some(o))?;
    eq("comparison operators", [a < b, a <= b, a > b, a >= b, a == b, a != b], [o.is_lt(), o.is_le(), o.is_gt(), o.is_ge(), o.is_eq(), o.is_ne()])?;
    // xor, digit by digit and sign by sign
    let mut t = *a;
    t.xor_assign(b);
    eq("xor_assign", t, a.xor(b))?;
    eq("xor's sign", t.is_negative(), a.is_negative() ^ b.is_negative())?;
    eq("xor twice", t.xor(b), *a)
}
fn signed_unary<const N: usize>(a: &BigInt<N>) -> Result<(), String> {
    let x = val(a)?;
    let w = 64 * N;
    eq("neg", val(&a.neg())?, x.neg().wrap(w))?;
    let mut t = *a;
    t.neg_assign();
    eq("neg_assign", val(&t)?, x.neg().wrap(w))?;
    // documented: the absolute value of MIN is zero
    let abs = if x.fits(w) && x.neg && !x.neg().fits(w) { Z::new(false, Nat::zero()) } else { Z::new(false, x.mag.clone()) };
    eq("abs", val(&a.abs())?, abs.clone())?;
    let mut t = *a;
    t.abs_assign();
    eq("abs_assign", val(&t)?, abs)?;
    let one = Z::new(false, Nat::from_u64(1));
    eq("not", val(&a.not())?, x.add(&one).neg())?;
    let mut t = *a;
    t.not_assign();
    eq("not_assign", t, a.not())?;
    eq("is_negative, is_positive", (a.is_negative(), a.is_positive()), (x.neg, !x.neg && !x.mag.is_zero()))?;
    eq("len", a.len(), N)?;
    macro_rules! resize {
        ($($o:literal)*) => {$(
            if x.fits(64 * $o) {
                eq(concat!("resize to ", $o), val(&a.resize::<$o>())?, x.clone())?;
            }
        )*};
    }
    resize!(1 2 3 4 5 6 7 8 9);
    let c = [BigInt::<N>::ZERO, BigInt::ONE, BigInt::NEG_ONE, BigInt::MAX, BigInt::MIN, BigInt::default()];
    let max = Nat::pow2(w).sub(&Nat::from_u64(1));
    let want = [Z::new(false, Nat::zero()), one.clone(), one.neg(), Z::new(false, max), Z::new(true, Nat::pow2(w)), Z::new(false, Nat::zero())];
    for (c, w) in c.iter().zip(want) {
        eq("constants", val(c)?, w)?;
    }
    Ok(())
}
macro_rules! signed_sized {
    ($f:ident, $n:literal) => {
        fn $f(a: &BigInt<$n>, b: &BigInt<$n>) -> Result<(), String> {
            let (x, y) = (val(a)?, val(b)?);
            // the only product that does not fit is documented to wrap
            eq("widening_mul", val(&a.widening_mul(b))?, x.mul(&y).wrap(128 * $n))?;
            if !y.mag.is_zero() {
                let (q, r) = x.mag.divrem(&y.mag);
                let (q, r) = (Z::new(x.neg != y.neg, q), Z::new(x.neg, r));
                let (lq, lr) = a.div(b);
                eq("quotient", val(&lq)?, q.wrap(64 * $n))?;
                eq("remainder", val(&lr)?, r)?;
                let mut t = *a;
                t.div_assign(b);
                eq("div_assign", t, lq)?;
            }
            Ok(())
        }
    };
}
signed_sized!(spair3, 3);
signed_sized!(spair4, 4);
signed_sized!(spair8, 8);

fn spairs<const N: usize>(c: &mut Check, k: u64, kb: u64, f: fn(&BigInt<N>, &BigInt<N>) -> Result<(), String>) {
    let (na, nb) = (2 * k.pow(N as u32), 2 * kb.pow(N as u32));
    let pick = move |i: u64| (make(i / nb % 2 == 1, &edge::<N>(i / nb / 2, k)), make(i % nb % 2 == 1, &edge::<N>(i % nb / 2, kb)));
    c.space(
        &format!("{N} digits, pairs"),
        na * nb,
        |i| format!("{:?} and {:?}", pick(i).0, pick(i).1),
        |i, p| {
            let (a, b) = pick(i);
            p.trace();
            p.steps(16);
            p.state(i << 4 | N as u64);
            p.outcome("exact");
            signed_pair(&a, &b)?;
            f(&a, &b)
        },
    );
}
fn sunaries<const N: usize>(c: &mut Check, k: u64) {
    let n = 2 * k.pow(N as u32);
    c.space(&format!("{N} digits, single numbers"), n, |i| format!("{:?}", make(i % 2 == 1, &edge::<N>(i / 2, k))), |i, p| {
        p.trace();
        p.steps(20);
        p.state(mix(i, 78 + N as u64));
        p.outcome("exact");
        signed_unary(&make(i % 2 == 1, &edge::<N>(i / 2, k)))
    });
}

fn spowers<const N: usize>(c: &mut Check, stride: u64, f: fn(&BigInt<N>, &BigInt<N>) -> Result<(), String>) {
    let n = 6 * 64 * N as u64;
    // complements of 2^b, 2^b - 1, 2^b + 1 as negative numbers
    let pick = move |i: u64| {
        let i = i * stride;
        let one = |i: u64| make::<N>(i % 2 == 1, &near_power::<N>(i / 2 * 2));
        (one(i / n), one(i % n))
    };
    c.space(&format!("{N} digits, near powers of two"), (n * n).div_ceil(stride), |i| format!("{:x?} and {:x?}", pick(i).0, pick(i).1), |i, p| {
        let (a, b) = pick(i);
        p.trace();
        p.steps(36);
        p.state(mix(i, 278000 + N as u64));
        p.outcome("exact");
        if i % n < 3 {
            signed_unary(&a)?;
        }
        signed_pair(&a, &b)?;
        f(&a, &b)
    });
}

pub fn k07(c: &mut Check) {
    c.bound("every pair of signed numbers of 3, 4 and 8 digits whose two's-complement digits come from a list of boundary values, pairs of numbers next to every power of two (in steps), every pair of integers in -200..=200");
    c.assume("division rounds towards zero and the remainder has the sign of the dividend (as documented with the repair)");
    spairs::<3>(c, c.tier(5, 8), c.tier(5, 8), spair3);
    spairs::<4>(c, c.tier(4, 6), c.tier(4, 5), spair4);
    spairs::<8>(c, 2, 2, spair8);
    sunaries::<1>(c, 12);
    sunaries::<2>(c, 12);
    sunaries::<3>(c, 12);
    sunaries::<4>(c, 8);
    sunaries::<8>(c, 3);
    spowers::<3>(c, c.tier(5, 1), spair3);
    spowers::<4>(c, c.tier(11, 1), spair4);
    spowers::<8>(c, c.tier(101, 1), spair8);
    c.space("small numbers", 401 * 401, |i| format!("{} and {}", i as i64 / 401 - 200, i as i64 % 401 - 200), |i, p| {
        let mk = |v: i64| make::<4>(v < 0, &UBigInt::from(if v < 0 { -v - 1 } else { v } as u64));
        let (x, y) = (i as i64 / 401 - 200, i as i64 % 401 - 200);
        let (a, b) = (mk(x), mk(y));
        p.trace();
        p.steps(16);
        p.state(mix(i, 9));
        p.outcome("exact");
        signed_pair(&a, &b)?;
        spair4(&a, &b)?;
        if y != 0 {
            eq("quotient and remainder", a.div(&b), (mk(x / y), mk(x % y)))?;
        }
        Ok(())
    });
}
