//! `ctmc K12 [--replay SPACE INDEX] [--only SPACE]`: the operations that crylib documents as
//! constant-time execute the same instructions whatever their operands are.
#![allow(clippy::all)]
mod ops;
mod trace;

use crylib::aead::chacha::ChaCha20Poly1305;
use crylib::aead::gcm::{Aes128, Aes256, Gcm};
use crylib::aead::Aead;
use mcrt::{hash, Check, Probe};
use ops::{Args, Kind, Op, Room};

const EDGE: [u64; 6] = [0, u64::MAX, 1, 1 << 63, 1 << 32, u64::MAX - 1];

/// All numbers of `n` digits over the first `k` edge digits.
fn numbers(n: usize, k: u64) -> Vec<Vec<u64>> {
    (0..k.pow(n as u32))
        .map(|mut i| {
            (0..n)
                .map(|_| {
                    let d = EDGE[(i % k) as usize];
                    i /= k;
                    d
                })
                .collect()
        })
        .collect()
}
/// All numbers over the largest alphabet that gives at most `max`, and all-zeros and all-ones with a
/// single digit (one of `edges`) that differs.
fn operands(n: usize, max: u64, edges: usize) -> Vec<Vec<u64>> {
    let mut k = 1;
    while k < EDGE.len() as u64 && (k + 1).pow(n as u32) <= max {
        k += 1;
    }
    let mut v = numbers(n, k);
    for base in [0, u64::MAX] {
        for i in 0..n {
            for d in &EDGE[..edges] {
                let mut x = vec![base; n];
                x[i] = *d;
                if !v.contains(&x) {
                    v.push(x);
                }
            }
        }
    }
    v
}

fn arguments(op: &Op, first: &[u64], (max, edges): (u64, usize)) -> Vec<Args> {
    let base = Args { a: first.to_vec(), b: vec![0; op.width], digit: 0, neg: (false, false), flag: false };
    let second = || operands(op.width, max, edges).into_iter().filter(|x| op.below(x));
    let signs = [(false, false), (false, true), (true, false), (true, true)];
    match op.kind {
        Kind::Unary => vec![base],
        Kind::SignedUnary => [false, true].map(|s| Args { neg: (s, false), ..base.clone() }).into(),
        Kind::Binary => second().map(|b| Args { b, ..base.clone() }).collect(),
        Kind::SignedBinary => second().flat_map(|b| signs.map(|neg| Args { b: b.clone(), neg, ..base.clone() })).collect(),
        Kind::Bool => [false, true].map(|flag| Args { flag, ..base.clone() }).into(),
        Kind::Digit => EDGE.iter().chain(&[3, 0x8000_0000, 0x1_0000_0001]).map(|d| Args { digit: *d, ..base.clone() }).collect(),
        Kind::Shift => (0..66).map(|digit| Args { digit, ..base.clone() }).collect(),
    }
}

fn compare(op: &Op, first: &[u64], max: (u64, usize), p: &mut Probe) -> Result<(), String> {
    let mut room = Box::new(Room([0; 1024]));
    let mut run = |x: &Args, log: Option<&mut [u64]>| {
        (op.prepare)(&mut room, x);
        trace::trace(op.f, &mut *room as *mut Room as *mut u8, log)
    };
    let mut base = Args { a: vec![0; op.width], b: vec![0; op.width], digit: 0, neg: (false, false), flag: false };
    base.a[0] = op.nonzero as u64;
    // The first call may take detours through the dynamic loader.
    run(&base, None);
    let want = run(&base, None);
    for x in arguments(op, first, max) {
        let got = run(&x, None);
        p.steps(got.0);
        p.state(hash(format!("{} {} {x:?}", op.name, op.width).as_bytes()));
        p.trace();
        if got != want {
            let mut l = [vec![0; trace::KEEP], vec![0; trace::KEEP]];
            let [l0, l1] = &mut l;
            run(&base, Some(l0));
            run(&x, Some(l1));
            let at = (0..trace::KEEP).find(|i| l[0][*i] != l[1][*i]).unwrap_or(0);
            return Err(format!(
                "{} on {} digits executes {} instructions for {x:x?}, but {} for {base:x?}; they part after instruction {at}",
                op.name, op.width, got.0, want.0
            ));
        }
    }
    Ok(())
}

/// A cipher, a message and a tag.
struct Sealed {
    cipher: usize,
    msg: Vec<u8>,
    tag: [u8; 16],
    refused: bool,
}
const CIPHERS: [&str; 3] = ["AES-128-GCM", "AES-256-GCM", "ChaCha20-Poly1305"];
fn ciphers() -> [Box<dyn Aead>; 3] {
    [Box::new(Gcm::<Aes128>::new([7; 16])), Box::new(Gcm::<Aes256>::new([8; 32])), Box::new(ChaCha20Poly1305::new([9; 32]))]
}
fn open<const C: usize>(p: *mut u8) {
    // SAFETY: points to the cipher and a Sealed.
    let (c, s) = unsafe { &mut *(p as *mut ([Box<dyn Aead>; 3], Sealed)) };
    s.refused = c[C].decrypt_inline(&mut s.msg, b"added", &[5; 12], &s.tag).is_err();
}
const OPEN: [fn(*mut u8); 3] = [open::<0>, open::<1>, open::<2>];

/// Wrong tags: every bit, every byte, every prefix and suffix right, none right.
fn differences() -> Vec<[u8; 16]> {
    let mut v = vec![[0xff; 16]];
    for i in 0..128 {
        v.push((1u128 << i).to_be_bytes());
    }
    for i in 1..16 {
        v.push((u128::MAX << (8 * i)).to_be_bytes());
        v.push((u128::MAX >> (8 * i)).to_be_bytes());
        let mut one = [0; 16];
        one[i] = 0xff;
        v.push(one);
    }
    v
}
fn tags(cipher: usize, len: usize, part: usize, parts: usize, p: &mut Probe) -> Result<(), String> {
    let msg: Vec<u8> = (0..len).map(|i| i as u8).collect();
    let mut room = Box::new((ciphers(), Sealed { cipher, msg: msg.clone(), tag: [0; 16], refused: false }));
    let mut sealed = msg.clone();
    let right = room.0[cipher].encrypt_inline(&mut sealed, b"added", &[5; 12]);
    let mut run = |d: &[u8; 16]| {
        room.1.msg.copy_from_slice(&sealed);
        room.1.tag = std::array::from_fn(|i| right[i] ^ d[i]);
        let t = trace::trace(OPEN[room.1.cipher], &mut *room as *mut _ as *mut u8, None);
        (t, room.1.refused)
    };
    run(&[0xff; 16]);
    let want = run(&[0xff; 16]);
    for d in differences().into_iter().skip(part).step_by(parts) {
        let got = run(&d);
        p.steps(got.0 .0);
        p.state(hash(format!("{cipher} {len} {d:x?}").as_bytes()));
        p.trace();
        if !got.1 || got != want {
            return Err(format!("{}, {len} bytes: refusing a tag that differs by {d:02x?} takes {:?} (instructions, hash of their addresses), by ff.. {:?}", CIPHERS[cipher], got.0, want.0));
        }
    }
    Ok(())
}

fn main() {
    let id = std::env::args().nth(1).expect("property id");
    assert_eq!(id, "K12");
    trace::init();
    let mut c = Check::new(&id);
    c.assume("the processor's trap flag raises a signal after every instruction (checked on a function of known length at every start)");
    c.assume("instructions of the kinds used (add, multiply, shift, compare, conditional move) take a time that doesn't depend on their operands");
    trace::self_test();
    let max = c.tier((36, 4), (100, 6));
    let mut cases = Vec::new();
    for op in ops::all() {
        for first in operands(op.width, max.0, max.1) {
            if op.below(&first) && !(op.nonzero && first.iter().all(|d| *d == 0)) {
                cases.push((op, first));
            }
        }
    }
    c.bound(&format!("{} operations and widths, built with optimization; first and second operands over boundary digits (all numbers over as many as keep them at most {}) and with one deviating digit (of {}), all shift distances to 65, nine digits", ops::all().len(), max.0, max.1));
    let n = cases.len() as u64;
    c.space("traces", n, |i| { let (o, f) = &cases[i as usize]; format!("{} width {} first operand {f:x?}", o.name, o.width) }, |i, p| {
        let (op, first) = &cases[i as usize];
        compare(op, first, max, p)
    });
    let lens: &[usize] = c.tier(&[0, 17], &[0, 1, 16, 17, 64]);
    c.bound(&format!("tags: three AEADs, message lengths {lens:?}, {} differences from the right tag", differences().len()));
    const PARTS: usize = 8;
    c.space("tags", (3 * PARTS * lens.len()) as u64, |i| format!("{} {} bytes, part {}", CIPHERS[i as usize % 3], lens[i as usize / 3 % lens.len()], i as usize / 3 / lens.len()), |i, p| {
        let i = i as usize;
        tags(i % 3, lens[i / 3 % lens.len()], i / 3 / lens.len(), PARTS, p)
    });
    c.finish()
}
