//! A reference reader for Certificate messages: which fatal alerts fit a given message.
//!
//! Faults come in three kinds. `hard`: the framing, or a part of a certificate every reader needs,
//! cannot be read. `unsup`: another version than v3 or another signature algorithm than
//! ecdsa-with-SHA256. `soft`: something DER or X.509 forbids (or a newer profile might refuse) that
//! a reader of only the needed parts does not see; any fatal alert fits then.
use crate::tls::decode_point;

#[derive(Default, Clone, Copy, Debug, PartialEq, Eq)]
pub struct Faults {
    pub hard: bool,
    pub unsup: bool,
    pub soft: bool,
}
impl Faults {
    pub fn allows(&self, alert: u8) -> bool {
        let m = [42, 47, 50].contains(&alert);
        let u = alert == 43;
        if alert == 0 || alert == 90 {
            return false;
        }
        self.soft || (self.hard && m) || (self.unsup && u) || (!self.hard && !self.unsup && !m && !u && alert != 10)
    }
    pub fn name(&self) -> &'static str {
        match (self.hard, self.unsup, self.soft) {
            (false, false, false) => "well-formed",
            (true, false, false) => "malformed",
            (false, true, false) => "unsupported",
            (true, true, false) => "malformed and unsupported",
            (_, _, true) => "not strictly well-formed",
        }
    }
}

struct El<'a> {
    tag: u8,
    data: &'a [u8],
}
enum Stop {
    Hard,
    Soft,
}
/// Reads one element; non-minimal lengths are reported through `soft`.
fn el<'a>(b: &mut &'a [u8], soft: &mut bool) -> Result<El<'a>, Stop> {
    let s = *b;
    if s.len() < 2 {
        return Err(Stop::Hard);
    }
    if s[0] & 0x1f == 0x1f || s[1] == 0x80 {
        return Err(Stop::Soft);
    }
    let (mut len, mut pos) = (s[1] as usize, 2);
    if s[1] > 0x80 {
        let n = (s[1] & 0x7f) as usize;
        if s.len() < 2 + n {
            return Err(Stop::Hard);
        }
        pos += n;
        len = 0;
        for x in &s[2..pos] {
            if len >> 40 != 0 {
                return Err(Stop::Hard);
            }
            len = len << 8 | *x as usize;
        }
        if s[2] == 0 || len < 128 {
            *soft = true;
            // more length bytes than any reader must take
            if n > 4 {
                return Err(Stop::Soft);
            }
        }
    }
    if len > s.len() - pos {
        return Err(Stop::Hard);
    }
    *b = &s[pos + len..];
    Ok(El { tag: s[0], data: &s[pos..pos + len] })
}
/// Everything nested is well-formed, too.
fn deep(mut b: &[u8]) -> bool {
    while !b.is_empty() {
        let mut soft = false;
        match el(&mut b, &mut soft) {
            Err(_) => return false,
            Ok(e) => {
                if soft || e.tag == 0 || (e.tag & 0x20 != 0 && !deep(e.data)) {
                    return false;
                }
                let ok = match e.tag {
                    1 => e.data == [0xff],
                    2 => int_ok(e.data),
                    3 => e.data.first() == Some(&0),
                    5 => e.data.is_empty(),
                    6 => !e.data.is_empty() && e.data.last().unwrap() < &0x80,
                    _ => true,
                };
                if !ok {
                    return false;
                }
            },
        }
    }
    true
}
fn int_ok(d: &[u8]) -> bool {
    match d {
        [] => false,
        [0, x, ..] => *x >= 0x80,
        [0xff, x, ..] => *x < 0x80,
        _ => true,
    }
}
fn time_ok(e: &El) -> bool {
    let n = if e.tag == 0x17 { 13 } else { 15 };
    let d = e.data;
    if d.len() != n || d[n - 1] != b'Z' || !d[..n - 1].iter().all(|c| c.is_ascii_digit()) {
        return false;
    }
    let at = |k: usize| (d[k] - b'0') * 10 + d[k + 1] - b'0';
    let o = n - 11;
    (1..=12).contains(&at(o)) && (1..=28).contains(&at(o + 2)) && at(o + 4) < 24 && at(o + 6) < 60 && at(o + 8) < 60
}
const ECDSA_SHA256: [u8; 8] = [0x2a, 0x86, 0x48, 0xce, 0x3d, 4, 3, 2];
const SPKI_ALG: [u8; 19] = [0x06, 7, 0x2a, 0x86, 0x48, 0xce, 0x3d, 2, 1, 6, 8, 0x2a, 0x86, 0x48, 0xce, 0x3d, 3, 1, 7];

/// The group order of P-256, big endian.
const ORDER: [u8; 32] = [
    0xff, 0xff, 0xff, 0xff, 0, 0, 0, 0, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xbc, 0xe6, 0xfa, 0xad, 0xa7, 0x17, 0x9e, 0x84,
    0xf3, 0xb9, 0xca, 0xc2, 0xfc, 0x63, 0x25, 0x51,
];

pub fn certificate(der: &[u8]) -> Faults {
    let mut f = Faults::default();
    macro_rules! get {
        ($b:expr) => {
            match el(&mut $b, &mut f.soft) {
                Ok(e) => e,
                Err(Stop::Hard) => {
                    f.hard = true;
                    return f;
                },
                Err(Stop::Soft) => {
                    f.soft = true;
                    return f;
                },
            }
        };
    }
    // Parts are read independently so that every fault shows, whatever order a reader uses.
    let mut rest = der;
    let outer = get!(rest);
    if outer.tag != 0x30 {
        f.hard = true;
        return f;
    }
    f.soft |= !rest.is_empty() || !deep(der);
    let mut o = outer.data;
    let tbs = get!(o);
    tbs_part(&tbs, &mut f);
    let alg = get!(o);
    let known = alg_part(&alg, &mut f);
    let sig = get!(o);
    f.soft |= !o.is_empty();
    if known {
        sig_part(&sig, &mut f);
    } else if sig.tag != 3 || sig.data.first() != Some(&0) {
        f.soft = true;
    }
    f
}
fn tbs_part(tbs: &El, f: &mut Faults) {
    macro_rules! get {
        ($b:expr) => {
            match el(&mut $b, &mut f.soft) {
                Ok(e) => e,
                Err(Stop::Hard) => {
                    f.hard = true;
                    return;
                },
                Err(Stop::Soft) => {
                    f.soft = true;
                    return;
                },
            }
        };
    }
    if tbs.tag != 0x30 {
        f.hard = true;
        return;
    }
    let mut t = tbs.data;
    let mut e = get!(t);
    if e.tag == 0xa0 {
        let mut v = e.data;
        let v0 = get!(v);
        f.soft |= !v.is_empty();
        if v0.tag != 2 || v0.data.is_empty() {
            f.hard = true;
        } else if v0.data.len() > 1 {
            // a version no certificate has
            f.hard = true;
            f.unsup = true;
            f.soft |= v0.data.iter().rev().skip(1).all(|x| *x == 0);
        } else if v0.data[0] != 2 {
            f.unsup = true;
        }
        e = get!(t);
    } else {
        f.unsup = true;
    }
    f.soft |= e.tag != 2; // serial number
    let alg = get!(t);
    f.soft |= alg.tag != 0x30 || alg.data != [&[6u8, 8][..], &ECDSA_SHA256].concat();
    let issuer = get!(t);
    f.soft |= issuer.tag != 0x30;
    let validity = get!(t);
    if validity.tag != 0x30 {
        f.hard = true;
    } else {
        let mut v = validity.data;
        for _ in 0..2 {
            match el(&mut v, &mut f.soft) {
                Ok(e) if e.tag == 0x17 || e.tag == 0x18 => f.soft |= !time_ok(&e),
                Ok(_) | Err(Stop::Hard) => {
                    f.hard = true;
                    break;
                },
                Err(Stop::Soft) => {
                    f.soft = true;
                    break;
                },
            }
        }
        f.soft |= !v.is_empty();
    }
    let subject = get!(t);
    f.soft |= subject.tag != 0x30;
    let spki = get!(t);
    let want = [&[0x30u8, 19][..], &SPKI_ALG, &[3, 66, 0]].concat();
    f.soft |= spki.tag != 0x30 || !spki.data.starts_with(&want) || decode_point(&spki.data[want.len()..]).is_none();
    // optional: unique identifiers, extensions
    let mut last = 0x80;
    while !t.is_empty() {
        match el(&mut t, &mut f.soft) {
            Ok(e) if [0x81, 0x82, 0xa3].contains(&e.tag) && e.tag > last => {
                last = e.tag;
                if e.tag == 0xa3 {
                    f.soft |= !exts_ok(e.data);
                }
            },
            _ => {
                f.soft = true;
                return;
            },
        }
    }
}
fn exts_ok(mut d: &[u8]) -> bool {
    let mut s = false;
    let Ok(list) = el(&mut d, &mut s) else { return false };
    if !d.is_empty() || list.tag != 0x30 || list.data.is_empty() {
        return false;
    }
    let mut l = list.data;
    while !l.is_empty() {
        let Ok(x) = el(&mut l, &mut s) else { return false };
        let mut x = x.data;
        let Ok(oid) = el(&mut x, &mut s) else { return false };
        let Ok(mut v) = el(&mut x, &mut s) else { return false };
        let mut critical = false;
        if v.tag == 1 {
            critical = true;
            match el(&mut x, &mut s) {
                Ok(e) => v = e,
                _ => return false,
            }
        }
        // contents: key identifiers and basic constraints, as they usually look
        let inner = match oid.data {
            [0x55, 0x1d, 0x0e] => v.data.len() == 22 && v.data[..2] == [4, 20],
            [0x55, 0x1d, 0x23] => v.data.len() == 24 && v.data[..4] == [0x30, 22, 0x80, 20],
            [0x55, 0x1d, 0x13] => v.data == [0x30, 3, 1, 1, 0xff] || v.data == [0x30, 0],
            _ => !critical,
        };
        if oid.tag != 6 || v.tag != 4 || !x.is_empty() || !inner {
            return false;
        }
    }
    !s
}
/// Whether it is the supported algorithm.
fn alg_part(alg: &El, f: &mut Faults) -> bool {
    if alg.tag != 0x30 {
        f.hard = true;
        return false;
    }
    let mut a = alg.data;
    match el(&mut a, &mut f.soft) {
        Ok(e) if e.tag == 6 => {
            if e.data == ECDSA_SHA256 {
                f.soft |= !a.is_empty();
                return true;
            }
            f.unsup = true;
        },
        Ok(_) | Err(Stop::Hard) => f.hard = true,
        Err(Stop::Soft) => f.soft = true,
    }
    false
}
fn sig_part(sig: &El, f: &mut Faults) {
    if sig.tag != 3 || sig.data.first() != Some(&0) {
        f.hard = true;
        return;
    }
    let mut s = &sig.data[1..];
    let seq = match el(&mut s, &mut f.soft) {
        Ok(e) if e.tag == 0x30 => e,
        Err(Stop::Soft) => {
            f.soft = true;
            return;
        },
        _ => {
            f.hard = true;
            return;
        },
    };
    f.soft |= !s.is_empty();
    let mut n = seq.data;
    for _ in 0..2 {
        match el(&mut n, &mut f.soft) {
            Ok(e) if e.tag == 2 && !e.data.is_empty() && e.data[0] < 0x80 => {
                f.soft |= !int_ok(e.data);
                let d: Vec<u8> = e.data.iter().copied().skip_while(|x| *x == 0).collect();
                let mut p = vec![0; 32usize.saturating_sub(d.len())];
                p.extend(&d);
                // zero or out of range: invalid rather than malformed
                f.soft |= d.is_empty() || p.len() > 32 || p[..] >= ORDER[..];
            },
            Err(Stop::Soft) => {
                f.soft = true;
                return;
            },
            _ => {
                f.hard = true;
                return;
            },
        }
    }
    f.soft |= !n.is_empty();
}

/// The body of a Certificate message.
pub fn message(b: &[u8]) -> Faults {
    let mut f = Faults::default();
    let hard = Faults { hard: true, ..f };
    if b.is_empty() {
        return hard;
    }
    if b[0] != 0 {
        // a request context in the handshake; some readers go on
        f.hard = true;
    }
    let n = b[0] as usize;
    let Some(b) = b.get(1 + n..) else { return hard };
    if b.len() < 3 {
        return hard;
    }
    let n = u32::from_be_bytes([0, b[0], b[1], b[2]]) as usize;
    let mut l = &b[3..];
    if n != l.len() || l.is_empty() {
        return hard;
    }
    while !l.is_empty() {
        if l.len() < 3 {
            f.hard = true;
            return f;
        }
        let n = u32::from_be_bytes([0, l[0], l[1], l[2]]) as usize;
        if l.len() < 3 + n + 2 {
            f.hard = true;
            return f;
        }
        let c = certificate(&l[3..3 + n]);
        f = Faults { hard: f.hard | c.hard, unsup: f.unsup | c.unsup, soft: f.soft | c.soft };
        l = &l[3 + n..];
        let n = u16::from_be_bytes([l[0], l[1]]) as usize;
        if l.len() < 2 + n {
            f.hard = true;
            return f;
        }
        let mut x = &l[2..2 + n];
        l = &l[2 + n..];
        while !x.is_empty() {
            if x.len() < 4 || x.len() < 4 + u16::from_be_bytes([x[2], x[3]]) as usize {
                f.hard = true;
                break;
            }
            // nothing was offered that could be answered here
            f.soft = true;
            x = &x[4 + u16::from_be_bytes([x[2], x[3]]) as usize..];
        }
    }
    f
}
