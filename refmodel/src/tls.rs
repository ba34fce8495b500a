//! The parts of TLS 1.3 (RFC 8446) a server needs to get through ServerHello, EncryptedExtensions
//! and Certificate with an (EC)DHE client: strict ClientHello parser, key schedule, record layer.
use crate::hash::{hkdf_expand, hkdf_extract, sha256, H};
use crate::p256;
use crate::{aes, chacha};

pub const CHACHA: u16 = 0x1303;
pub const AES128: u16 = 0x1301;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Record {
    pub typ: u8,
    pub version: u16,
    pub body: Vec<u8>,
}
/// Splits a byte stream into complete records and the leftover bytes.
pub fn split_records(mut b: &[u8]) -> (Vec<Record>, &[u8]) {
    let mut v = vec![];
    while b.len() >= 5 {
        let n = u16::from_be_bytes([b[3], b[4]]) as usize;
        if b.len() < 5 + n {
            break;
        }
        v.push(Record { typ: b[0], version: u16::from_be_bytes([b[1], b[2]]), body: b[5..5 + n].to_vec() });
        b = &b[5 + n..];
    }
    (v, b)
}
pub fn record(typ: u8, body: &[u8]) -> Vec<u8> {
    record_v(typ, 0x0303, body)
}
pub fn record_v(typ: u8, version: u16, body: &[u8]) -> Vec<u8> {
    assert!(body.len() < 65536);
    let mut v = vec![typ];
    v.extend_from_slice(&version.to_be_bytes());
    v.extend_from_slice(&(body.len() as u16).to_be_bytes());
    v.extend_from_slice(body);
    v
}
pub fn hs_msg(typ: u8, body: &[u8]) -> Vec<u8> {
    let mut v = vec![typ];
    v.extend_from_slice(&(body.len() as u32).to_be_bytes()[1..]);
    v.extend_from_slice(body);
    v
}

struct Rd<'a>(&'a [u8]);
impl<'a> Rd<'a> {
    fn take(&mut self, n: usize, what: &str) -> Result<&'a [u8], String> {
        if self.0.len() < n {
            return Err(format!("{what}: needs {n} bytes, {} left", self.0.len()));
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Ok(a)
    }
    fn u8(&mut self, w: &str) -> Result<usize, String> {
        Ok(self.take(1, w)?[0] as usize)
    }
    fn u16(&mut self, w: &str) -> Result<usize, String> {
        let b = self.take(2, w)?;
        Ok((b[0] as usize) << 8 | b[1] as usize)
    }
    fn v8(&mut self, w: &str) -> Result<&'a [u8], String> {
        let n = self.u8(w)?;
        self.take(n, w)
    }
    fn v16(&mut self, w: &str) -> Result<&'a [u8], String> {
        let n = self.u16(w)?;
        self.take(n, w)
    }
    fn end(&self, w: &str) -> Result<(), String> {
        if self.0.is_empty() {
            Ok(())
        } else {
            Err(format!("{w}: {} trailing bytes", self.0.len()))
        }
    }
}

/// A strictly parsed ClientHello.
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct ClientHello {
    /// The handshake message including its 4-byte header.
    pub raw: Vec<u8>,
    pub random: [u8; 32],
    pub session_id: Vec<u8>,
    pub suites: Vec<u16>,
    pub compression: Vec<u8>,
    /// In order of appearance.
    pub ext_types: Vec<u16>,
    pub sni: Option<Vec<u8>>,
    pub sig_algs: Option<Vec<u16>>,
    pub groups: Option<Vec<u16>>,
    pub versions: Option<Vec<u16>>,
    pub key_shares: Option<Vec<(u16, Vec<u8>)>>,
    pub alpn: Option<Vec<Vec<u8>>>,
}

fn u16s(b: &[u8], w: &str) -> Result<Vec<u16>, String> {
    if b.is_empty() || b.len() % 2 != 0 {
        return Err(format!("{w}: list of {} bytes", b.len()));
    }
    Ok(b.chunks(2).map(|c| u16::from_be_bytes([c[0], c[1]])).collect())
}

/// Parses one ClientHello handshake message; every length has to add up and every RFC 8446 minimum
/// has to be met.
pub fn parse_client_hello(msg: &[u8]) -> Result<ClientHello, String> {
    let mut r = Rd(msg);
    let mut ch = ClientHello { raw: msg.to_vec(), ..Default::default() };
    if r.u8("type")? != 1 {
        return Err("not a ClientHello".into());
    }
    let l = r.take(3, "length")?;
    let n = (l[0] as usize) << 16 | (l[1] as usize) << 8 | l[2] as usize;
    if n != r.0.len() {
        return Err(format!("handshake length {n}, body {}", r.0.len()));
    }
    if r.u16("legacy_version")? != 0x0303 {
        return Err("legacy_version is not 0x0303".into());
    }
    ch.random = r.take(32, "random")?.try_into().unwrap();
    ch.session_id = r.v8("session id")?.to_vec();
    if ch.session_id.len() > 32 {
        return Err("session id too long".into());
    }
    ch.suites = u16s(r.v16("suites")?, "suites")?;
    ch.compression = r.v8("compression")?.to_vec();
    if ch.compression != [0] {
        return Err("compression methods are not exactly null".into());
    }
    let exts = r.v16("extensions")?;
    r.end("ClientHello")?;
    let mut r = Rd(exts);
    while !r.0.is_empty() {
        let t = r.u16("ext type")? as u16;
        if ch.ext_types.contains(&t) {
            return Err(format!("extension {t} twice"));
        }
        ch.ext_types.push(t);
        let mut d = Rd(r.v16("ext data")?);
        match t {
            0 => {
                let mut l = Rd(d.v16("sni list")?);
                d.end("sni")?;
                if l.u8("name type")? != 0 {
                    return Err("sni name type".into());
                }
                let name = l.v16("host name")?;
                l.end("sni list")?;
                if name.is_empty() {
                    return Err("empty host name".into());
                }
                ch.sni = Some(name.to_vec());
            },
            10 => {
                ch.groups = Some(u16s(d.v16("groups")?, "groups")?);
                d.end("groups")?;
            },
            13 => {
                ch.sig_algs = Some(u16s(d.v16("sig algs")?, "sig algs")?);
                d.end("sig algs")?;
            },
            16 => {
                let mut l = Rd(d.v16("alpn list")?);
                d.end("alpn")?;
                let mut v = vec![];
                while !l.0.is_empty() {
                    let p = l.v8("protocol name")?;
                    if p.is_empty() {
                        return Err("empty protocol name".into());
                    }
                    v.push(p.to_vec());
                }
                if v.is_empty() {
                    return Err("empty alpn list".into());
                }
                ch.alpn = Some(v);
            },
            43 => {
                ch.versions = Some(u16s(d.v8("versions")?, "versions")?);
                d.end("versions")?;
            },
            51 => {
                let mut l = Rd(d.v16("key shares")?);
                d.end("key share ext")?;
                let mut v = vec![];
                while !l.0.is_empty() {
                    let g = l.u16("group")? as u16;
                    let k = l.v16("key exchange")?;
                    if k.is_empty() {
                        return Err("empty key exchange".into());
                    }
                    v.push((g, k.to_vec()));
                }
                ch.key_shares = Some(v);
            },
            _ => return Err(format!("unexpected extension {t}")),
        }
    }
    Ok(ch)
}

/// Extracts the ClientHello from what the client wrote: every record must be a handshake record of
/// 1..=2^14 bytes with a legal legacy version, and together they are exactly one message.
pub fn client_hello_from_wire(wire: &[u8]) -> Result<ClientHello, String> {
    let (recs, left) = split_records(wire);
    if !left.is_empty() {
        return Err(format!("{} bytes of an incomplete record", left.len()));
    }
    let mut msg = vec![];
    for r in &recs {
        if r.typ != 22 {
            return Err(format!("record type {} in the first flight", r.typ));
        }
        if r.version != 0x0303 && r.version != 0x0301 {
            return Err(format!("record version {:04x}", r.version));
        }
        if r.body.is_empty() || r.body.len() > 1 << 14 {
            return Err(format!("record of {} bytes", r.body.len()));
        }
        msg.extend_from_slice(&r.body);
    }
    if msg.is_empty() {
        return Err("nothing written".into());
    }
    parse_client_hello(&msg)
}

pub fn expand_label(secret: &[u8], label: &str, ctx: &[u8], len: usize) -> Vec<u8> {
    let mut info = (len as u16).to_be_bytes().to_vec();
    let l = format!("tls13 {label}");
    info.push(l.len() as u8);
    info.extend_from_slice(l.as_bytes());
    info.push(ctx.len() as u8);
    info.extend_from_slice(ctx);
    hkdf_expand(H::Sha256, secret, &info, len)
}

/// One direction of a protected connection.
#[derive(Clone, Debug)]
pub struct Dir {
    pub suite: u16,
    pub key: Vec<u8>,
    pub iv: [u8; 12],
    pub seq: u64,
}
impl Dir {
    pub fn new(suite: u16, secret: &[u8]) -> Dir {
        let kl = if suite == AES128 { 16 } else { 32 };
        Dir {
            suite,
            key: expand_label(secret, "key", b"", kl),
            iv: expand_label(secret, "iv", b"", 12).try_into().unwrap(),
            seq: 0,
        }
    }
    fn nonce(&self) -> [u8; 12] {
        let mut n = self.iv;
        for (i, b) in self.seq.to_be_bytes().iter().enumerate() {
            n[4 + i] ^= b;
        }
        n
    }
    /// Protects a raw inner plaintext (content || type || padding).
    pub fn seal_inner(&mut self, inner: &[u8]) -> Vec<u8> {
        self.seal_as([23, 3, 3], inner)
    }
    /// The same under another record type and version.
    pub fn seal_as(&mut self, hdr: [u8; 3], inner: &[u8]) -> Vec<u8> {
        let mut hdr = hdr.to_vec();
        hdr.extend_from_slice(&((inner.len() + 16) as u16).to_be_bytes());
        let n = self.nonce();
        let (ct, tag) = if self.suite == AES128 {
            aes::gcm_seal(&self.key, &n, &hdr, inner)
        } else {
            chacha::seal(self.key[..].try_into().unwrap(), &n, &hdr, inner)
        };
        self.seq += 1;
        hdr.extend_from_slice(&ct);
        hdr.extend_from_slice(&tag);
        hdr
    }
    pub fn seal(&mut self, typ: u8, content: &[u8], pad: usize) -> Vec<u8> {
        let mut i = content.to_vec();
        i.push(typ);
        i.resize(i.len() + pad, 0);
        self.seal_inner(&i)
    }
    /// Opens a record body given its full header; returns the inner plaintext with padding.
    pub fn open_inner(&mut self, hdr: &[u8], body: &[u8]) -> Option<Vec<u8>> {
        if body.len() < 16 {
            return None;
        }
        let n = self.nonce();
        let (ct, tag) = body.split_at(body.len() - 16);
        let r = if self.suite == AES128 {
            aes::gcm_open(&self.key, &n, hdr, ct, tag)
        } else {
            chacha::open(self.key[..].try_into().unwrap(), &n, hdr, ct, tag)
        };
        if r.is_some() {
            self.seq += 1;
        }
        r
    }
    /// Opens a record: (inner type, content).
    pub fn open(&mut self, r: &Record) -> Option<(u8, Vec<u8>)> {
        let mut hdr = vec![r.typ];
        hdr.extend_from_slice(&r.version.to_be_bytes());
        hdr.extend_from_slice(&(r.body.len() as u16).to_be_bytes());
        let mut i = self.open_inner(&hdr, &r.body)?;
        while i.last() == Some(&0) {
            i.pop();
        }
        let t = i.pop()?;
        Some((t, i))
    }
}

#[derive(Clone, Debug)]
pub struct HsKeys {
    pub client: Dir,
    pub server: Dir,
}
/// Handshake traffic keys from the DH secret and the transcript (ClientHello || ServerHello).
pub fn hs_keys(suite: u16, dh: &[u8], transcript: &[u8]) -> HsKeys {
    let (c, s) = hs_secrets(dh, &sha256(transcript));
    HsKeys { client: Dir::new(suite, &c), server: Dir::new(suite, &s) }
}
fn hs_secrets(dh: &[u8], th: &[u8]) -> (Vec<u8>, Vec<u8>) {
    let early = hkdf_extract(H::Sha256, &[0; 32], &[0; 32]);
    let derived = expand_label(&early, "derived", &sha256(b""), 32);
    let hs = hkdf_extract(H::Sha256, &derived, dh);
    (expand_label(&hs, "c hs traffic", th, 32), expand_label(&hs, "s hs traffic", th, 32))
}

/// Uncompressed point encoding.
pub fn encode_point(p: &(p256::L, p256::L)) -> Vec<u8> {
    let mut v = vec![4];
    v.extend_from_slice(&p256::to_be(&p.0));
    v.extend_from_slice(&p256::to_be(&p.1));
    v
}
/// Strict decoding of an uncompressed point on the curve.
pub fn decode_point(b: &[u8]) -> Option<(p256::L, p256::L)> {
    if b.len() != 65 || b[0] != 4 {
        return None;
    }
    let (x, y) = (p256::from_be(&b[1..33]), p256::from_be(&b[33..]));
    p256::curve().on_curve(&x, &y).then_some((x, y))
}
/// X coordinate of k*P.
pub fn dh(k: &p256::L, p: &(p256::L, p256::L)) -> [u8; 32] {
    p256::to_be(&p256::curve().mul(k, &Some(*p)).expect("not a multiple of the order").0)
}

/// A ServerHello (or anything shaped like one), field by field.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct ServerHello {
    pub msg_type: u8,
    pub version: u16,
    pub random: [u8; 32],
    pub session_id: Vec<u8>,
    pub suite: u16,
    pub compression: u8,
    pub exts: Vec<(u16, Vec<u8>)>,
}
pub fn exts_block(exts: &[(u16, Vec<u8>)]) -> Vec<u8> {
    let mut e = vec![];
    for (t, d) in exts {
        e.extend_from_slice(&t.to_be_bytes());
        e.extend_from_slice(&(d.len() as u16).to_be_bytes());
        e.extend_from_slice(d);
    }
    let mut v = (e.len() as u16).to_be_bytes().to_vec();
    v.extend_from_slice(&e);
    v
}
pub fn ks_entry(group: u16, key: &[u8]) -> Vec<u8> {
    let mut v = group.to_be_bytes().to_vec();
    v.extend_from_slice(&(key.len() as u16).to_be_bytes());
    v.extend_from_slice(key);
    v
}
impl ServerHello {
    pub fn valid(suite: u16, server_pub: &[u8]) -> ServerHello {
        ServerHello {
            msg_type: 2,
            version: 0x0303,
            random: crate::det_bytes(0x5e, 32).try_into().unwrap(),
            session_id: vec![],
            suite,
            compression: 0,
            exts: vec![(43, vec![3, 4]), (51, ks_entry(0x17, server_pub))],
        }
    }
    pub fn body(&self) -> Vec<u8> {
        let mut v = self.version.to_be_bytes().to_vec();
        v.extend_from_slice(&self.random);
        v.push(self.session_id.len() as u8);
        v.extend_from_slice(&self.session_id);
        v.extend_from_slice(&self.suite.to_be_bytes());
        v.push(self.compression);
        v.extend_from_slice(&exts_block(&self.exts));
        v
    }
    pub fn msg(&self) -> Vec<u8> {
        hs_msg(self.msg_type, &self.body())
    }
}
pub fn alpn_ext(name: &[u8]) -> Vec<u8> {
    let mut v = ((name.len() + 1) as u16).to_be_bytes().to_vec();
    v.push(name.len() as u8);
    v.extend_from_slice(name);
    v
}
/// Certificate message body.
pub fn cert_body(certs: &[Vec<u8>]) -> Vec<u8> {
    let mut l = vec![];
    for c in certs {
        l.extend_from_slice(&(c.len() as u32).to_be_bytes()[1..]);
        l.extend_from_slice(c);
        l.extend_from_slice(&[0, 0]);
    }
    let mut v = vec![0];
    v.extend_from_slice(&(l.len() as u32).to_be_bytes()[1..]);
    v.extend_from_slice(&l);
    v
}

#[cfg(test)]
mod tests {
    use super::*;
    use crate::{hex, unhex};
    #[test]
    fn rfc8448_key_schedule() {
        let early = hkdf_extract(H::Sha256, &[0; 32], &[0; 32]);
        assert_eq!(hex(&early), "33ad0a1c607ec03b09e6cd9893680ce210adf300aa1f2660e1b22e10f170f92a");
        let dh = unhex("8bd4054fb55b9d63fdfbacf9f04b9f0d35e6d63f537563efd46272900f89492d");
        let th = unhex("860c06edc07858ee8e78f0e7428c58edd6b43f2ca3e6e95f02f063cf0e1cad8d");
        let derived = expand_label(&early, "derived", &sha256(b""), 32);
        assert_eq!(hex(&derived), "6f2615a108c702c5678f54fc9dbab69716c076189c48250cebeac3576c3611ba");
        let (c, s) = hs_secrets(&dh, &th);
        println!("{} {}", hex(&c), hex(&s));
        assert_eq!(hex(&hkdf_extract(H::Sha256, &derived, &dh)), "1dc826e93606aa6fdc0aadc12f741b01046aa6b99f691ed221a9f0ca043fbeac");
        let d = Dir::new(AES128, &unhex("b67b7d690cc16c4e75e54213cb2d37b4e9c912bcded9105d42befd59d391ad38"));
        assert_eq!(hex(&d.key), "3fce516009c21727d0f2e4e86ee403bc");
        assert_eq!(hex(&d.iv), "5d313eb2671276ee13000b30");
    }
}
