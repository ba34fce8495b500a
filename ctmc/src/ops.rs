//! Every operation documented as constant-time, as a function of one pointer to its operands.
use crylib::big_int::{BigInt, UBigInt};
use crylib::ec::Secp256r1;
use crylib::finite_field::{FieldElement, FiniteField};
use std::hint::black_box;

/// The operands, all prepared before the traced call.
#[repr(C, align(64))]
pub struct Buf<const N: usize> {
    a: UBigInt<N>,
    b: UBigInt<N>,
    sa: BigInt<N>,
    sb: BigInt<N>,
    digit: u64,
    flag: bool,
}
/// Room for any of them.
#[repr(C, align(64))]
pub struct Room(pub [u8; 1024]);

#[derive(Clone, Debug)]
pub struct Args {
    pub a: Vec<u64>,
    pub b: Vec<u64>,
    pub digit: u64,
    pub neg: (bool, bool),
    pub flag: bool,
}

/// The integer with these digits in two's complement and this sign.
fn signed<const N: usize>(x: UBigInt<N>, negative: bool) -> BigInt<N> {
    if negative {
        BigInt::from(x.not()).not()
    } else {
        BigInt::from(x)
    }
}
fn prepare<const N: usize>(room: &mut Room, x: &Args) {
    assert!(size_of::<Buf<N>>() <= size_of::<Room>());
    let a = UBigInt(x.a[..].try_into().unwrap());
    let b = UBigInt(x.b[..].try_into().unwrap());
    let buf = Buf { a, b, sa: signed(a, x.neg.0), sb: signed(b, x.neg.1), digit: x.digit, flag: x.flag };
    // SAFETY: it fits (above) and both are aligned to 64 bytes.
    unsafe { (room as *mut Room as *mut Buf<N>).write(buf) }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Kind {
    Unary,
    Binary,
    SignedUnary,
    SignedBinary,
    Bool,
    Digit,
    Shift,
}
#[derive(Clone, Copy)]
pub struct Op {
    pub name: &'static str,
    pub width: usize,
    pub kind: Kind,
    /// The first operand must not be zero.
    pub nonzero: bool,
    /// The operands must be below this number.
    pub modulus: Option<&'static [u64]>,
    pub prepare: fn(&mut Room, &Args),
    pub f: fn(*mut u8),
}
impl Op {
    pub fn below(&self, x: &[u64]) -> bool {
        self.modulus.is_none_or(|m| x.iter().rev().lt(m.iter().rev()))
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Wide;
const WIDE: [u64; 6] = [u64::MAX - 316, u64::MAX, u64::MAX, u64::MAX, u64::MAX, u64::MAX];
// SAFETY: 2^384 - 317 is prime.
unsafe impl FiniteField<6> for Wide {
    const MODULUS: UBigInt<6> = UBigInt(WIDE);
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Narrow;
const NARROW: [u64; 3] = [u64::MAX, u64::MAX - 1, u64::MAX];
// SAFETY: 2^192 - 2^64 - 1 is prime.
unsafe impl FiniteField<3> for Narrow {
    const MODULUS: UBigInt<3> = UBigInt(NARROW);
}
const P256: [u64; 4] = Secp256r1::MODULUS.0;

/// `op!(list, "name", width, Kind, buffer, expression)`
macro_rules! op {
    ($v:ident, $name:expr, $n:expr, $kind:ident, $nonzero:expr, $modulus:expr, $b:ident, $e:expr) => {{
        fn f(p: *mut u8) {
            // SAFETY: points to what `prepare` wrote.
            let $b = unsafe { &mut *(p as *mut Buf<$n>) };
            black_box($e);
        }
        $v.push(Op { name: $name, width: $n, kind: Kind::$kind, nonzero: $nonzero, modulus: $modulus, prepare: prepare::<$n>, f });
    }};
}
macro_rules! generic {
    ($v:ident, $($n:literal)*) => {$({
        macro_rules! u { ($name:ident, $kind:ident, $b:ident, $e:expr) => { op!($v, concat!("UBigInt::", stringify!($name)), $n, $kind, false, None, $b, $e) } }
        macro_rules! i { ($name:ident, $kind:ident, $b:ident, $e:expr) => { op!($v, concat!("BigInt::", stringify!($name)), $n, $kind, false, None, $b, $e) } }
        macro_rules! bin { ($op:ident $assign:ident) => { u!($op, Binary, b, b.a.$op(&b.b)); u!($assign, Binary, b, b.a.$assign(&b.b)); } }
        macro_rules! sbin { ($op:ident $assign:ident) => { i!($op, SignedBinary, b, b.sa.$op(&b.sb)); i!($assign, SignedBinary, b, b.sa.$assign(&b.sb)); } }
        bin!(overflowing_add overflowing_add_assign);
        bin!(overflowing_sub overflowing_sub_assign);
        bin!(add add_assign);
        bin!(sub sub_assign);
        bin!(xor xor_assign);
        bin!(and and_assign);
        bin!(or or_assign);
        bin!(nor nor_assign);
        bin!(xnor xnor_assign);
        bin!(nand nand_assign);
        u!(count_digits, Unary, b, b.a.count_digits());
        u!(len, Unary, b, b.a.len());
        u!(not, Unary, b, b.a.not());
        u!(not_assign, Unary, b, b.a.not_assign());
        u!(mul_digit_assign, Digit, b, b.a.mul_digit_assign(b.digit));
        u!(and_bool, Bool, b, b.a.and_bool(b.flag));
        u!(and_bool_assign, Bool, b, b.a.and_bool_assign(b.flag));
        u!(shift_left, Shift, b, b.a.shift_left(b.digit));
        u!(shift_left_assign, Shift, b, b.a.shift_left_assign(b.digit));
        u!(shift_right, Shift, b, b.a.shift_right(b.digit));
        u!(shift_right_assign, Shift, b, b.a.shift_right_assign(b.digit));
        op!($v, "UBigInt::left_align", $n, Unary, true, None, b, b.a.left_align());
        sbin!(add add_assign);
        sbin!(sub sub_assign);
        sbin!(xor xor_assign);
        i!(len, SignedUnary, b, b.sa.len());
        i!(neg, SignedUnary, b, b.sa.neg());
        i!(neg_assign, SignedUnary, b, b.sa.neg_assign());
        i!(not, SignedUnary, b, b.sa.not());
        i!(not_assign, SignedUnary, b, b.sa.not_assign());
        i!(abs, SignedUnary, b, b.sa.abs());
        i!(abs_assign, SignedUnary, b, b.sa.abs_assign());
        i!(is_negative, SignedUnary, b, b.sa.is_negative());
        i!(is_positive, SignedUnary, b, b.sa.is_positive());
    })*};
}
macro_rules! sized {
    ($v:ident, $($n:literal)*) => {$({
        op!($v, "UBigInt::widening_mul", $n, Binary, false, None, b, b.a.widening_mul(&b.b));
        op!($v, "UBigInt::widening_shift_left", $n, Shift, false, None, b, b.a.widening_shift_left(b.digit));
    })*};
}
macro_rules! field {
    ($v:ident, $($n:literal $f:ident $m:ident),*) => {$({
        // SAFETY: only operands below the modulus are used; a field element is a transparent
        // wrapper around its digits.
        fn e(x: &mut UBigInt<$n>) -> &mut FieldElement<$n, $f> { unsafe { &mut *(x as *mut UBigInt<$n> as *mut FieldElement<$n, $f>) } }
        op!($v, concat!("FieldElement<", stringify!($f), ">::count_digits"), $n, Unary, false, Some(&$m), b, e(&mut b.a).count_digits());
        op!($v, concat!("FieldElement<", stringify!($f), ">::add"), $n, Binary, false, Some(&$m), b, e(&mut b.a).add(e(&mut b.b)));
        op!($v, concat!("FieldElement<", stringify!($f), ">::sub"), $n, Binary, false, Some(&$m), b, e(&mut b.a).sub(e(&mut b.b)));
        op!($v, concat!("FieldElement<", stringify!($f), ">::sub_assign"), $n, Binary, false, Some(&$m), b, e(&mut b.a).sub_assign(e(&mut b.b)));
    })*};
}

pub fn all() -> Vec<Op> {
    let mut v = Vec::new();
    generic!(v, 1 2 3 4 5 6 7 8);
    sized!(v, 2 3 4 5 6 8);
    field!(v, 3 Narrow NARROW, 4 Secp256r1 P256, 6 Wide WIDE);
    v
}
