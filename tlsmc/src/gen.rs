//! Building blocks of server behaviour.
use crate::driver::*;
use refmodel::tls::*;

/// EncryptedExtensions message.
pub fn ee(exts: &[(u16, Vec<u8>)]) -> Vec<u8> {
    hs_msg(8, &exts_block(exts))
}
/// Plaintext handshake records, one per piece.
pub fn plain(pieces: &[&[u8]]) -> Vec<u8> {
    pieces.iter().flat_map(|p| record(22, p)).collect()
}
/// Protected handshake records, one per piece.
pub fn sealed(d: &mut Dir, pieces: &[&[u8]]) -> Vec<u8> {
    pieces.iter().flat_map(|p| d.seal(22, p, 0)).collect()
}
/// Splits at the set bits of `mask` (bit i: cut after byte i+1).
pub fn cut_mask(b: &[u8], mask: u64) -> Vec<&[u8]> {
    let mut v = vec![];
    let mut a = 0;
    for i in 1..b.len() {
        if mask >> (i - 1) & 1 == 1 {
            v.push(&b[a..i]);
            a = i;
        }
    }
    v.push(&b[a..]);
    v
}
/// Splits at the given offsets.
pub fn cut_at<'a>(b: &'a [u8], cuts: &[usize]) -> Vec<&'a [u8]> {
    let mut v = vec![];
    let mut a = 0;
    for &c in cuts {
        if c > a && c < b.len() {
            v.push(&b[a..c]);
            a = c;
        }
    }
    v.push(&b[a..]);
    v
}

/// A server that finished ServerHello: the plaintext part of the stream and the keys.
pub struct Base {
    pub sh: Vec<u8>,
    pub stream: Vec<u8>,
    pub keys: HsKeys,
    pub suite: u16,
}
pub fn base(w: &World, suite: u16) -> Base {
    let sh = w.server_hello(suite).msg();
    Base { stream: record(22, &sh), keys: w.keys(suite, &sh), sh, suite }
}
/// A self-signed P-256 certificate made with OpenSSL.
pub fn cert() -> Vec<u8> {
    refmodel::unhex(include_str!("cert.hex"))
}
pub fn cert_msg() -> Vec<u8> {
    hs_msg(11, &cert_body(&[cert()]))
}

/// A Certificate message with one certificate of the given contents.
pub fn cert_msg_of(data: &[u8]) -> Vec<u8> {
    hs_msg(11, &cert_body(&[data.to_vec()]))
}

/// One server behaviour.
#[derive(Clone)]
pub struct Scene {
    pub name: String,
    pub stream: Vec<u8>,
}
/// A catalogue of server behaviours covering every stage and every way a handshake can end. Works
/// for any world that offers the application protocol h2.
pub fn catalogue(w: &World, suite: u16) -> Vec<Scene> {
    let b = base(w, suite);
    let h2 = ee(&[(16, alpn_ext(b"h2"))]);
    let crt = cert_msg();
    let ccs = record(20, &[1]);
    let mut v: Vec<Scene> = vec![];
    let mut put = |n: &str, parts: &[&[u8]]| v.push(Scene { name: n.into(), stream: parts.concat() });
    let at = |seq: u64, typ: u8, content: &[u8], pad: usize| {
        let mut d = b.keys.server.clone();
        d.seq = seq;
        d.seal(typ, content, pad)
    };
    let s = &b.stream[..];
    let hello = |f: &dyn Fn(&mut ServerHello)| {
        let mut sh = w.server_hello(suite);
        f(&mut sh);
        record(22, &sh.msg())
    };
    // going on
    put("silence", &[]);
    put("half a ServerHello", &[&s[..60]]);
    put("ServerHello", &[s]);
    put("EncryptedExtensions", &[s, &at(0, 22, &h2, 0)]);
    put("EncryptedExtensions without protocol", &[s, &at(0, 22, &ee(&[]), 0)]);
    put("half a Certificate", &[s, &at(0, 22, &[&h2[..], &crt[..100]].concat(), 0)]);
    // the whole flight, differently cut
    put("flight", &[s, &at(0, 22, &h2, 0), &at(1, 22, &crt, 0)]);
    put("coalesced flight", &[s, &ccs, &at(0, 22, &[&h2[..], &crt[..]].concat(), 3)]);
    put(
        "fragmented flight with change_cipher_spec",
        &[
            &ccs,
            &record(22, &b.sh[..1]),
            &record(22, &b.sh[1..50]),
            &record(22, &b.sh[50..]),
            &ccs,
            &at(0, 22, &h2[..2], 0),
            &at(1, 22, &h2[2..9], 30),
            &at(2, 22, &[&h2[9..], &crt[..5]].concat(), 0),
            &ccs,
            &at(3, 22, &crt[5..], 0),
        ],
    );
    let big = ee(&[(10, vec![7; 17000]), (16, alpn_ext(b"h2"))]);
    put("EncryptedExtensions of two full records", &[s, &at(0, 22, &big[..16384], 0), &at(1, 22, &big[16384..], 0), &at(2, 22, &crt, 0)]);
    // alerts
    for (n, a) in [("close_notify", [1, 0]), ("handshake_failure", [2, 40]), ("an unknown alert", [2, 255])] {
        put(&format!("{n} instead of a ServerHello"), &[&record(21, &a)]);
        put(&format!("{n} after the ServerHello"), &[s, &at(0, 21, &a, 0)]);
        put(&format!("{n} instead of the Certificate"), &[s, &at(0, 22, &h2, 0), &at(1, 21, &a, 2)]);
    }
    put("alert of one byte", &[&record(21, &[2])]);
    put("protected alert of three bytes", &[s, &at(0, 21, &[2, 40, 0], 0)]);
    // faults before the keys
    put("another message type", &[&record(22, &[&[1][..], &b.sh[1..]].concat())]);
    put("application data first", &[&record(23, &b.sh)]);
    put("unknown record type", &[&record(99, &b.sh)]);
    put("bad change_cipher_spec", &[&record(20, &[1, 1]), s]);
    put("empty handshake record", &[&record(22, &[]), s]);
    put("oversized record", &[&[22, 3, 3, 0x40, 1], &[0; 30]]);
    put("oversized message", &[&record(22, &[2, 2, 0, 1, 3, 3])]);
    put("retry request", &[&hello(&|h| h.random = refmodel::unhex("CF21AD74E59A6111BE1D8C021E65B891C2A211167ABB8C5E079E09E2C8A8339C").try_into().unwrap())]);
    put("TLS 1.2", &[&hello(&|h| h.exts.clear())]);
    put("version not 1.3", &[&hello(&|h| h.exts.iter_mut().filter(|e| e.0 == 43).for_each(|e| e.1 = vec![3, 3]))]);
    put("suite not offered", &[&hello(&|h| h.suite = 0x1302)]);
    put("point not on the curve", &[&hello(&|h| h.exts.iter_mut().filter(|e| e.0 == 51).for_each(|e| *e.1.last_mut().unwrap() ^= 1))]);
    put("no key share", &[&hello(&|h| h.exts.retain(|e| e.0 != 51))]);
    put("session id echoed", &[&hello(&|h| h.session_id = vec![1; 32])]);
    put("unsolicited extension", &[&hello(&|h| h.exts.push((0, vec![])))]);
    put("truncated ServerHello", &[&record(22, &[&[2, 0, 0, 40][..], &b.sh[4..44]].concat())]);
    put("data across the key change", &[&record(22, &[&b.sh[..], &h2[..1]].concat())]);
    // faults under the keys
    let mut bad = at(0, 22, &h2, 0);
    *bad.last_mut().unwrap() ^= 1;
    put("bad tag", &[s, &bad]);
    put("record out of order", &[s, &at(1, 22, &h2, 0)]);
    put("unprotected EncryptedExtensions", &[s, &record(22, &h2)]);
    put("short protected record", &[s, &record(23, &[0; 16])]);
    put("no content type", &[s, &{
        let mut d = b.keys.server.clone();
        d.seal_inner(&[0; 4])
    }]);
    put("oversized protected record", &[s, &[23, 3, 3, 0x41, 1]]);
    put("protected change_cipher_spec", &[s, &at(0, 20, &[1], 0)]);
    put("application data under handshake keys", &[s, &at(0, 23, &[0; 5], 0)]);
    put("protected empty handshake record", &[s, &at(0, 22, &[], 0)]);
    put("Finished instead of EncryptedExtensions", &[s, &at(0, 22, &hs_msg(20, &[0; 32]), 0)]);
    put("unknown server extension", &[s, &at(0, 22, &ee(&[(9999, vec![])]), 0)]);
    put("protocol not offered", &[s, &at(0, 22, &ee(&[(16, alpn_ext(b"h3"))]), 0)]);
    put("malformed extensions", &[s, &at(0, 22, &hs_msg(8, &[0, 9, 0, 16]), 0)]);
    put("EncryptedExtensions twice", &[s, &at(0, 22, &h2, 0), &at(1, 22, &h2, 0)]);
    put("bad tag at the Certificate", &[s, &at(0, 22, &h2, 0), &{
        let mut r = at(1, 22, &crt, 0);
        r[7] ^= 0x10;
        r
    }]);
    put("oversized Certificate", &[s, &at(0, 22, &h2, 0), &at(1, 22, &[11, 2, 0, 1], 0)]);
    put("malformed Certificate", &[s, &at(0, 22, &h2, 0), &at(1, 22, &hs_msg(11, &[0, 0, 0]), 0)]);
    put("empty chain", &[s, &at(0, 22, &h2, 0), &at(1, 22, &hs_msg(11, &[0, 0, 0, 0]), 0)]);
    v
}
