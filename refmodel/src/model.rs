//! The reference client: what a TLS 1.3 client with these offers must conclude from a server byte
//! stream, up to the point where this library stops (it cannot verify a certificate, so the only
//! acceptable ending of a complete server flight is a fatal error).
//!
//! The model is deliberately nondeterministic where RFC 8446 leaves a choice: a fatal verdict
//! carries the set of alerts that are acceptable.
use crate::p256;
use crate::tls::*;

/// Alert codes.
pub mod al {
    pub const CLOSE_NOTIFY: u8 = 0;
    pub const UNEXPECTED: u8 = 10;
    pub const BAD_MAC: u8 = 20;
    pub const OVERFLOW: u8 = 22;
    pub const HS_FAILURE: u8 = 40;
    pub const BAD_CERT: u8 = 42;
    pub const UNSUPPORTED_CERT: u8 = 43;
    pub const CERT_UNKNOWN: u8 = 46;
    pub const ILLEGAL: u8 = 47;
    pub const UNKNOWN_CA: u8 = 48;
    pub const DECODE: u8 = 50;
    pub const DECRYPT: u8 = 51;
    pub const PROTOCOL_VERSION: u8 = 70;
    pub const INSUFFICIENT: u8 = 71;
    pub const INTERNAL: u8 = 80;
    pub const MISSING_EXT: u8 = 109;
    pub const UNSUPPORTED_EXT: u8 = 110;
    pub const NO_APP_PROTO: u8 = 120;
    /// Every alert description the library can name.
    pub const ALL: [u8; 27] = [
        0, 10, 20, 22, 40, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 70, 71, 80, 86, 90, 109, 110, 112, 113, 115, 116,
        120,
    ];
}

/// What the client offered (and can do).
#[derive(Clone, Debug)]
pub struct Offer {
    pub suites: Vec<u16>,
    pub groups: Vec<u16>,
    pub sni: bool,
    pub alpn: Vec<Vec<u8>>,
    /// The whole ClientHello message.
    pub hello: Vec<u8>,
}
impl Offer {
    pub fn of(ch: &ClientHello) -> Offer {
        Offer {
            suites: ch.suites.clone(),
            groups: ch.groups.clone().unwrap_or_default(),
            sni: ch.sni.is_some(),
            alpn: ch.alpn.clone().unwrap_or_default(),
            hello: ch.raw.clone(),
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum End {
    /// Everything received so far is fine; the client waits for more bytes.
    More,
    /// The client must abort with a fatal alert from this list (empty: any alert but close_notify).
    Fatal(Vec<u8>),
    /// The peer's alert ends the connection; this code must be reported.
    Peer(u8),
}

#[derive(Clone, Debug)]
pub struct Verdict {
    /// Acceptable endings; more than one where the standard leaves it open.
    pub ends: Vec<End>,
    /// Handshake keys are in place at the end (so an alert of ours has to be protected).
    pub keys: Option<HsKeys>,
    /// Negotiated protocol, once EncryptedExtensions has been accepted.
    pub app_proto: Option<Vec<u8>>,
    /// How far it got: 0 waiting for ServerHello, 1 for EncryptedExtensions, 2 for Certificate, 3 Certificate seen.
    pub stage: u8,
    /// Why, for humans.
    pub why: String,
    /// Number of records consumed.
    pub records: usize,
}

pub const MAX_MSG: usize = 0x20000;

const GREASE_ANY: &[u8] = &[];

/// What is wrong with a ServerHello body; empty when it is acceptable. Also returns (suite, point).
pub fn check_server_hello(b: &[u8], offer: &Offer) -> (Vec<(&'static str, Vec<u8>)>, Option<(u16, (p256::L, p256::L))>) {
    let mut bad: Vec<(&'static str, Vec<u8>)> = vec![];
    let dec = vec![al::DECODE, al::ILLEGAL];
    macro_rules! need {
        ($c:expr, $w:expr) => {
            if !$c {
                bad.push(($w, dec.clone()));
                return (bad, None);
            }
        };
    }
    need!(b.len() >= 35, "short");
    if b[..2] != [3, 3] {
        bad.push(("legacy_version", vec![al::PROTOCOL_VERSION, al::ILLEGAL, al::DECODE]));
    }
    let hrr: [u8; 32] = [
        0xCF, 0x21, 0xAD, 0x74, 0xE5, 0x9A, 0x61, 0x11, 0xBE, 0x1D, 0x8C, 0x02, 0x1E, 0x65, 0xB8, 0x91, 0xC2, 0xA2, 0x11, 0x16,
        0x7A, 0xBB, 0x8C, 0x5E, 0x07, 0x9E, 0x09, 0xE2, 0xC8, 0xA8, 0x33, 0x9C,
    ];
    if b[2..34] == hrr {
        // Only one group exists and its share was sent: a retry can never be legitimate here.
        bad.push(("hello retry request", GREASE_ANY.to_vec()));
    }
    let n = b[34] as usize;
    if n > 32 {
        bad.push(("session id length", dec.clone()));
    }
    need!(b.len() >= 35 + n + 3, "short");
    if n != 0 {
        bad.push(("session id echo", vec![al::ILLEGAL, al::DECODE]));
    }
    let mut r = &b[35 + n..];
    let suite = u16::from_be_bytes([r[0], r[1]]);
    if !offer.suites.contains(&suite) {
        bad.push(("suite not offered", vec![al::ILLEGAL, al::HS_FAILURE]));
    }
    if r[2] != 0 {
        bad.push(("compression", vec![al::ILLEGAL, al::DECODE]));
    }
    r = &r[3..];
    if r.is_empty() {
        // A TLS 1.2 style hello without extensions
        bad.push(("no extensions", vec![al::MISSING_EXT, al::PROTOCOL_VERSION, al::DECODE]));
        return (bad, None);
    }
    need!(r.len() >= 2, "extensions length");
    let l = u16::from_be_bytes([r[0], r[1]]) as usize;
    need!(l == r.len() - 2, "extensions length");
    r = &r[2..];
    let mut seen = vec![];
    let mut version = false;
    let mut point = None;
    let mut share = false;
    while !r.is_empty() {
        need!(r.len() >= 4, "extension header");
        let t = u16::from_be_bytes([r[0], r[1]]);
        let l = u16::from_be_bytes([r[2], r[3]]) as usize;
        need!(r.len() >= 4 + l, "extension length");
        let d = &r[4..4 + l];
        r = &r[4 + l..];
        if seen.contains(&t) {
            bad.push(("duplicate extension", vec![al::ILLEGAL, al::DECODE, al::UNSUPPORTED_EXT]));
        }
        seen.push(t);
        match t {
            43 => {
                version = true;
                if d.len() != 2 {
                    bad.push(("supported_versions length", dec.clone()));
                } else if d != [3, 4] {
                    bad.push(("version", vec![al::PROTOCOL_VERSION, al::ILLEGAL]));
                }
            },
            51 => {
                share = true;
                if d.len() < 4 || u16::from_be_bytes([d[2], d[3]]) as usize != d.len() - 4 {
                    bad.push(("key share length", dec.clone()));
                }
                if d.len() >= 2 {
                    let g = u16::from_be_bytes([d[0], d[1]]);
                    if !offer.groups.contains(&g) {
                        bad.push(("group", vec![al::ILLEGAL, al::HS_FAILURE]));
                    } else if d.len() >= 4 {
                        point = decode_point(&d[4..]);
                        if point.is_none() {
                            bad.push(("key share point", vec![al::ILLEGAL, al::DECODE]));
                        }
                    }
                }
            },
            _ => bad.push(("unsolicited extension", vec![al::UNSUPPORTED_EXT, al::ILLEGAL])),
        }
    }
    if !version {
        bad.push(("no supported_versions", vec![al::PROTOCOL_VERSION, al::MISSING_EXT]));
    }
    if !share {
        bad.push(("no key_share", vec![al::MISSING_EXT, al::HS_FAILURE]));
    }
    let out = if bad.is_empty() { Some((suite, point.unwrap())) } else { None };
    (bad, out)
}

/// What is wrong with an EncryptedExtensions body; and the protocol it selects.
pub fn check_encrypted_exts(b: &[u8], offer: &Offer) -> (Vec<(&'static str, Vec<u8>)>, Vec<u8>) {
    let mut bad: Vec<(&'static str, Vec<u8>)> = vec![];
    let mut proto = vec![];
    let dec = vec![al::DECODE, al::ILLEGAL];
    macro_rules! need {
        ($c:expr, $w:expr) => {
            if !$c {
                bad.push(($w, dec.clone()));
                return (bad, proto);
            }
        };
    }
    need!(b.len() >= 2, "short");
    need!(u16::from_be_bytes([b[0], b[1]]) as usize == b.len() - 2, "extensions length");
    let mut r = &b[2..];
    let mut seen = vec![];
    while !r.is_empty() {
        need!(r.len() >= 4, "extension header");
        let t = u16::from_be_bytes([r[0], r[1]]);
        let l = u16::from_be_bytes([r[2], r[3]]) as usize;
        need!(r.len() >= 4 + l, "extension length");
        let d = &r[4..4 + l];
        r = &r[4 + l..];
        if seen.contains(&t) {
            bad.push(("duplicate extension", vec![al::ILLEGAL, al::DECODE, al::UNSUPPORTED_EXT]));
        }
        seen.push(t);
        match t {
            0 if offer.sni => (), // contents ignored
            10 => (),             // contents ignored
            16 if !offer.alpn.is_empty() => {
                if d.len() < 4
                    || u16::from_be_bytes([d[0], d[1]]) as usize != d.len() - 2
                    || d[2] as usize != d.len() - 3
                {
                    bad.push(("alpn encoding", dec.clone()));
                } else {
                    proto = d[3..].to_vec();
                    if !offer.alpn.contains(&proto) {
                        bad.push(("alpn not offered", vec![al::ILLEGAL, al::NO_APP_PROTO, al::UNSUPPORTED_EXT]));
                    }
                }
            },
            _ => bad.push(("unsolicited extension", vec![al::UNSUPPORTED_EXT, al::ILLEGAL])),
        }
    }
    (bad, proto)
}

/// Runs the reference client over everything the server sent. `dh` maps the server's point to the
/// shared secret.
pub fn run(offer: &Offer, stream: &[u8], dh: &mut dyn FnMut(&(p256::L, p256::L)) -> [u8; 32]) -> Verdict {
    let mut keys: Option<HsKeys> = None;
    let mut stage = 0u8;
    let mut app_proto = None;
    let mut alts: Vec<End> = vec![];
    let mut buf: Vec<u8> = vec![]; // handshake bytes not yet consumed
    let mut rest = stream;
    let mut records = 0;
    let mut transcript = offer.hello.clone();

    macro_rules! done {
        ($e:expr, $w:expr) => {{
            let mut ends = vec![$e];
            ends.append(&mut alts);
            return Verdict { ends, keys, app_proto, stage, why: $w.to_string(), records };
        }};
    }
    let fatal = |v: &[u8]| End::Fatal(v.to_vec());

    loop {
        // 1. messages
        while buf.len() >= 4 {
            let n = u32::from_be_bytes([0, buf[1], buf[2], buf[3]]) as usize;
            if n > MAX_MSG {
                done!(End::Fatal(vec![]), "message too long");
            }
            if n + 64 > MAX_MSG {
                alts.push(End::Fatal(vec![]));
            }
            let want = [2u8, 8, 11][stage as usize];
            if buf.len() < 4 + n {
                if buf[0] != want {
                    alts.push(fatal(&[al::UNEXPECTED]));
                }
                break;
            }
            let msg: Vec<u8> = buf.drain(..4 + n).collect();
            if msg[0] != want {
                // An endpoint that parses first may also object to the contents.
                let set: &[u8] = if stage == 2 { &[] } else { &[al::UNEXPECTED] };
                done!(fatal(set), format!("message type {} instead of {want}", msg[0]));
            }
            let body = &msg[4..];
            match stage {
                0 => {
                    let (mut bad, ok) = check_server_hello(body, offer);
                    if !buf.is_empty() {
                        bad.push(("handshake data across the key change", vec![al::UNEXPECTED]));
                    }
                    if !bad.is_empty() {
                        let any = bad.iter().any(|b| b.1.is_empty());
                        let mut set: Vec<u8> = if any { vec![] } else { bad.iter().flat_map(|b| b.1.clone()).collect() };
                        set.sort();
                        set.dedup();
                        // leftover data may be noticed only after the keys are in place
                        if bad.len() == 1 && bad[0].0.starts_with("handshake data") {
                            let (s, p) = ok.unwrap();
                            transcript.extend_from_slice(&msg);
                            keys = Some(hs_keys(s, &dh(&p), &transcript));
                            // stage 1 with optional protection: the check accepts either form
                            stage = 1;
                            done!(End::Fatal(set), bad[0].0);
                        }
                        done!(End::Fatal(set), format!("{:?}", bad.iter().map(|b| b.0).collect::<Vec<_>>()));
                    }
                    let (s, p) = ok.unwrap();
                    transcript.extend_from_slice(&msg);
                    keys = Some(hs_keys(s, &dh(&p), &transcript));
                    stage = 1;
                },
                1 => {
                    let (bad, proto) = check_encrypted_exts(body, offer);
                    if !bad.is_empty() {
                        let mut set: Vec<u8> = bad.iter().flat_map(|b| b.1.clone()).collect();
                        set.sort();
                        set.dedup();
                        done!(End::Fatal(set), format!("{:?}", bad.iter().map(|b| b.0).collect::<Vec<_>>()));
                    }
                    app_proto = Some(proto);
                    stage = 2;
                },
                _ => {
                    stage = 3;
                    // No certificate can be verified: never a success.
                    done!(End::Fatal(vec![]), "certificate");
                },
            }
        }
        // 2. next record
        if rest.len() < 5 {
            done!(End::More, "waiting for a record header");
        }
        let n = u16::from_be_bytes([rest[3], rest[4]]) as usize;
        let typ = rest[0];
        let max = if keys.is_some() && typ == 23 { (1 << 14) + 256 } else { 1 << 14 };
        if n > max {
            // An illegal type may be noticed first.
            let mut set = vec![al::OVERFLOW];
            if typ != 22 && typ != 23 {
                set.push(al::UNEXPECTED);
            }
            if (keys.is_some()) != (typ == 23) {
                set.push(al::UNEXPECTED);
                // between the two limits, an endpoint may apply the larger one and wait for the body
                if n <= (1 << 14) + 256 && rest.len() < 5 + n {
                    alts.push(End::More);
                }
            }
            done!(End::Fatal(set), "record overflow");
        }
        if rest.len() < 5 + n {
            // A record that can never be legal may be refused as soon as its header is there.
            let legal = match (&keys, typ) {
                (_, 20) => n == 1,
                (None, 21) => n == 2,
                (None, 22) => n != 0,
                (Some(_), 23) => n >= 17,
                _ => false,
            };
            if !legal {
                alts.push(fatal(&[al::UNEXPECTED, al::DECODE, al::ILLEGAL, al::BAD_MAC]));
            }
            if typ != 22 && keys.is_none() && !buf.is_empty() {
                alts.push(fatal(&[al::UNEXPECTED]));
            }
            done!(End::More, "waiting for a record body");
        }
        let rec = Record { typ, version: u16::from_be_bytes([rest[1], rest[2]]), body: rest[5..5 + n].to_vec() };
        rest = &rest[5 + n..];
        records += 1;
        if typ == 20 {
            if rec.body != [1] {
                done!(fatal(&[al::UNEXPECTED, al::ILLEGAL, al::DECODE]), "bad change_cipher_spec");
            }
            if !buf.is_empty() {
                // Middlebox compatibility says drop, the interleaving rule says abort.
                alts.push(fatal(&[al::UNEXPECTED]));
            }
            continue;
        }
        let (it, content) = match &mut keys {
            None => (typ, rec.body),
            Some(k) => {
                if typ != 23 {
                    done!(fatal(&[al::UNEXPECTED]), "unprotected record after the keys were established");
                }
                if n < 17 {
                    done!(fatal(&[al::DECODE, al::BAD_MAC, al::UNEXPECTED]), "protected record too short");
                }
                let mut hdr = vec![rec.typ];
                hdr.extend_from_slice(&rec.version.to_be_bytes());
                hdr.extend_from_slice(&(rec.body.len() as u16).to_be_bytes());
                match k.server.open_inner(&hdr, &rec.body) {
                    None => done!(fatal(&[al::BAD_MAC]), "bad mac"),
                    Some(mut i) => {
                        if i.len() > (1 << 14) + 1 {
                            // padding counts towards the limit, but a receiver may be lenient about it
                            alts.push(fatal(&[al::OVERFLOW]));
                        }
                        while i.last() == Some(&0) {
                            i.pop();
                        }
                        let full = i.len();
                        match i.pop() {
                            None => done!(fatal(&[al::UNEXPECTED]), "no content type"),
                            Some(_) if full > (1 << 14) + 1 => done!(fatal(&[al::OVERFLOW]), "inner overflow"),
                            Some(t) => (t, i),
                        }
                    },
                }
            },
        };
        match it {
            21 => {
                if content.len() != 2 {
                    done!(fatal(&[al::DECODE, al::UNEXPECTED, al::ILLEGAL]), "alert of a wrong length");
                }
                let c = if al::ALL.contains(&content[1]) { content[1] } else { al::INTERNAL };
                if !buf.is_empty() {
                    alts.push(fatal(&[al::UNEXPECTED]));
                }
                done!(End::Peer(c), "alert");
            },
            22 => {
                if content.is_empty() {
                    done!(fatal(&[al::UNEXPECTED, al::DECODE, al::ILLEGAL]), "empty handshake record");
                }
                buf.extend_from_slice(&content);
            },
            _ => done!(fatal(&[al::UNEXPECTED]), format!("record type {it}")),
        }
    }
}
