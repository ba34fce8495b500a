//! C06: only authentic, in-order protected records count.
use super::*;
use crate::gen::*;
use refmodel::tls::*;

pub fn run(c: &mut Check) {
    c.bound("every one-bit change (and every pair of bit changes of one record) of a protected flight, every byte replaced by every value, every truncation and extension with matching or stale lengths; every sequence of records up to the stated length over an alphabet of authentic, replayed, reflected, foreign, unprotected and empty records; every outer and inner content type in every state; all 65536 record versions; authentic records around and beyond every length limit, with content and with padding; change_cipher_spec with every body of up to one byte (thorough: two), with a 1 in two, and longer ones in every state; every dropped, doubled and swapped record of a long flight; replays over distances up to 131 073 records; every one-bit deviation of nonce, key and IV; handshake data across the key change for every split");
    let cfgs = [Cfg::default().suites(1).alpn(&[b"h2"]), Cfg::default().suites(2).alpn(&[b"h2"])];
    let Some(ws) = worlds(c, &cfgs) else { return };
    let bases: Vec<Base> = ws.iter().map(|w| base(w, w.suite())).collect();
    let h2 = ee(&[(16, alpn_ext(b"h2"))]);
    let crt = cert_msg();
    // the flight: ServerHello, then five protected records
    let parts: [&[u8]; 5] = [&h2[..6], &h2[6..], &crt[..3], &crt[3..50], &crt[50..]];
    let flights: Vec<Vec<Vec<u8>>> = bases
        .iter()
        .map(|b| {
            let mut k = b.keys.clone();
            parts.iter().map(|p| k.server.seal(22, p, 0)).collect()
        })
        .collect();
    let join = |b: usize, v: &[Vec<u8>]| {
        let mut s = bases[b].stream.clone();
        for r in v {
            s.extend_from_slice(r);
        }
        s
    };

    // --- bits and bytes of the whole flight
    let whole: Vec<Vec<u8>> = (0..2).map(|b| flights[b].concat()).collect();
    let n = whole[0].len() as u64;
    streams(c, "bit-flips", 2 * n * 8, |i| {
        let (b, i) = ((i / (n * 8)) as usize, i % (n * 8));
        let mut w = whole[b].clone();
        w[(i / 8) as usize] ^= 1 << (i % 8);
        (&ws[b], join(b, &[w]))
    });
    streams(c, "byte-values", 2 * n * 256, |i| {
        let (b, i) = ((i / (n * 256)) as usize, i % (n * 256));
        let mut w = whole[b].clone();
        w[(i / 256) as usize] = i as u8;
        (&ws[b], join(b, &[w]))
    });
    // --- two bits of a single-record EncryptedExtensions
    let ones: Vec<Vec<u8>> = bases.iter().map(|b| b.keys.clone().server.seal(22, &h2, 0)).collect();
    let crts: Vec<Vec<u8>> = bases
        .iter()
        .map(|b| {
            let mut d = b.keys.server.clone();
            d.seq = 1;
            d.seal(22, &crt, 0)
        })
        .collect();
    let nb = ones[0].len() as u64 * 8;
    streams(c, "two-bit-flips", 2 * nb * nb, |i| {
        let (b, i) = ((i / (nb * nb)) as usize, i % (nb * nb));
        let (x, y) = ((i / nb) as usize, (i % nb) as usize);
        let mut r = ones[b].clone();
        if x < y {
            r[x / 8] ^= 1 << (x % 8);
            r[y / 8] ^= 1 << (y % 8);
        }
        (&ws[b], join(b, &[r, crts[b].clone()]))
    });
    // --- lengths: a record cut or extended at either end, its length field corrected or not
    let nl = ones[0].len() as u64 - 5;
    streams(c, "cuts-and-extensions", 2 * 2 * 6 * nl, |i| {
        let [b, fix, how, k] = digits(i, [2, 2, 6, nl]);
        let mut r = ones[b].clone();
        match how {
            0 => r.truncate(5 + k),
            1 => drop(r.drain(5..5 + k)),
            2 => r.extend(std::iter::repeat(0).take(k)),
            3 => r.extend((0..k).map(|j| j as u8 ^ 0x5a)),
            4 => drop(r.splice(5..5, vec![0; k])),
            // the tag moved: bytes put in between ciphertext and tag
            _ => {
                let at = r.len() - 16;
                drop(r.splice(at..at, vec![0; k]))
            },
        }
        if fix == 1 {
            let l = (r.len() - 5) as u16;
            r[3..5].copy_from_slice(&l.to_be_bytes());
        }
        (&ws[b], join(b, &[r, crts[b].clone(), crts[b].clone()]))
    });
    // --- sequences over an alphabet
    let alphabet: Vec<Vec<(&str, Vec<u8>)>> = (0..2)
        .map(|b| {
            let k = &bases[b].keys;
            let at = |d: &Dir, seq: u64, typ: u8, content: &[u8]| {
                let mut d = d.clone();
                d.seq = seq;
                d.seal(typ, content, 0)
            };
            let mut foreign = k.server.clone();
            foreign.key[0] ^= 1;
            vec![
                ("first half of EncryptedExtensions as record 0", at(&k.server, 0, 22, &h2[..6])),
                ("second half as record 1", at(&k.server, 1, 22, &h2[6..])),
                ("all of it as record 0", at(&k.server, 0, 22, &h2)),
                ("Certificate as record 1", at(&k.server, 1, 22, &crt)),
                ("Certificate as record 2", at(&k.server, 2, 22, &crt)),
                ("EncryptedExtensions in the clear", record(22, &h2)),
                ("EncryptedExtensions under the client's keys", at(&k.client, 0, 22, &h2)),
                ("change_cipher_spec", record(20, &[1])),
                ("change_cipher_spec with another body", record(20, &[2])),
                ("application data as record 0", at(&k.server, 0, 23, &h2)),
                ("protected change_cipher_spec as record 1", at(&k.server, 1, 20, &[1])),
                ("unprotected alert", record(21, &[2, 40])),
                ("alert as record 1", at(&k.server, 1, 21, &[2, 40])),
                ("empty handshake record as record 0", at(&k.server, 0, 22, &[])),
                ("record 0 under another key", at(&foreign, 0, 22, &h2)),
                ("padding only as record 1", {
                    let mut d = k.server.clone();
                    d.seq = 1;
                    d.seal_inner(&[0; 8])
                }),
            ]
        })
        .collect();
    let na = alphabet[0].len() as u64;
    for len in 1..=c.tier(4u32, 6) {
        let n = na.pow(len);
        streams(c, &format!("sequences of {len}"), 2 * n, |i| {
            let b = (i / n) as usize;
            let mut i = i % n;
            let mut v = vec![];
            for _ in 0..len {
                v.push(alphabet[b][(i % na) as usize].1.clone());
                i /= na;
            }
            (&ws[b], join(b, &v))
        });
    }
    // --- every sequence over the authentic records of the flight
    for len in 1..=5u32 {
        let n = 5u64.pow(len);
        streams(c, &format!("replays of {len}"), 2 * n, |i| {
            let b = (i / n) as usize;
            let mut i = i % n;
            let mut v = vec![];
            for _ in 0..len {
                v.push(flights[b][(i % 5) as usize].clone());
                i /= 5;
            }
            (&ws[b], join(b, &v))
        });
    }
    // --- a long flight with one record dropped, doubled or swapped with a later one
    let long = ee(&[(10, vec![0; 600]), (16, alpn_ext(b"h2"))]);
    let longs: Vec<Vec<Vec<u8>>> = bases
        .iter()
        .map(|b| {
            let mut k = b.keys.clone();
            let mut v: Vec<Vec<u8>> = long.chunks(2).map(|p| k.server.seal(22, p, 0)).collect();
            v.push(k.server.seal(22, &crt, 0));
            v
        })
        .collect();
    let n = longs[0].len() as u64;
    streams(c, "long-flights", 2 * n * 6, |i| {
        let [b, how, k] = digits(i, [2, 6, n]);
        let mut v = longs[b].clone();
        match how {
            0 => drop(v.remove(k)),
            1 => v.insert(k, longs[b][k].clone()),
            2 => v.swap(k, (k + 1) % n as usize),
            3 => v.swap(k, (k + 256) % n as usize),
            // a record from exactly 256 places earlier, or the first one again
            4 => v[k] = longs[b][(k + n as usize - 256) % n as usize].clone(),
            _ => v[k] = longs[b][0].clone(),
        }
        (&ws[b], join(b, &v))
    });
    // --- very many authentic records, then one from so many places earlier
    let tiny: Vec<Vec<Vec<u8>>> = bases
        .iter()
        .map(|b| {
            let mut k = b.keys.clone();
            let big = ee(&[(10, vec![0; 65_500])]);
            let cert = cert_msg_of(&vec![0x30; 80_000]);
            [big, cert].concat().chunks(1).map(|p| k.server.seal(22, p, 0)).collect()
        })
        .collect();
    let mut far = vec![];
    for n in c.tier(vec![256usize, 257, 4096, 32768, 65535, 65536, 65537, 131072, 131073], vec![255, 256, 257, 511, 512, 513, 1024, 2048, 4096, 8192, 16384, 32767, 32768, 32769, 65535, 65536, 65537, 100_000, 131071, 131072, 131073, 140_000]) {
        // distance 0: the right one
        let mut ds = vec![0, 1, 2, 255, 256, 257, 4096, 32768, 65535, 65536, 65537, 131072, n];
        ds.retain(|d| *d <= n);
        ds.sort();
        ds.dedup();
        far.extend(ds.into_iter().map(|d| (n, d)));
    }
    // the larger ones over both suites in turn
    let nf = far.len() as u64 * c.tier(1, 2);
    streams(c, "record-numbers", nf, |i| {
        let (n, d) = far[i as usize % far.len()];
        let b = (i as usize + i as usize / far.len()) % 2;
        let mut s = join(b, &tiny[b][..n]);
        s.extend_from_slice(&tiny[b][n - d]);
        s.extend_from_slice(&tiny[b][n + 1]);
        (&ws[b], s)
    });
    // --- types. States: before ServerHello, inside it, after it, inside EncryptedExtensions, after it
    let contents: Vec<Vec<u8>> = vec![vec![], vec![1], vec![2, 40], h2.clone(), h2[..6].to_vec(), crt.clone(), bases[0].sh.clone()];
    let nc = contents.len() as u64;
    streams(c, "outer-types", 2 * 5 * 256 * nc * 2, |i| {
        let [b, st, t, k, prot] = digits(i, [2, 5, 256, nc, 2]);
        let bs = &bases[b];
        let mut d = bs.keys.server.clone();
        let mut s = match st {
            0 => vec![],
            1 => record(22, &bs.sh[..20]),
            2 => bs.stream.clone(),
            3 => [bs.stream.clone(), d.seal(22, &h2[..6], 0)].concat(),
            _ => [bs.stream.clone(), d.seal(22, &h2, 0)].concat(),
        };
        if prot == 0 {
            s.extend(record(t as u8, &contents[k]));
        } else {
            let mut inner = contents[k].clone();
            inner.push(22);
            s.extend(d.seal_as([t as u8, 3, 3], &inner));
        }
        match st {
            0 => s.extend(record(22, &bs.sh)),
            1 => s.extend(record(22, &bs.sh[20..])),
            3 => s.extend(d.seal(22, &h2[6..], 0)),
            _ => s.extend(d.seal(22, &h2, 0)),
        }
        (&ws[b], s)
    });
    // --- change_cipher_spec records with short bodies and longer ones
    let two: Vec<[u8; 2]> = (0..=65535u16).map(u16::to_be_bytes).filter(|b| c.thorough || b.contains(&1)).collect();
    let n2 = 257 + two.len();
    let nb = n2 as u64 + 40;
    streams(c, "change-cipher-specs", 5 * nb * 2, |i| {
        let [st, k, again] = digits(i, [5, nb, 2]);
        let b = k & 1;
        let bs = &bases[b];
        let body = match k {
            0 => vec![],
            1..=256 => vec![(k - 1) as u8],
            k if k < n2 => two[k - 257].to_vec(),
            _ => vec![1; [3, 4, 5, 16, 17, 18, 64, 255, 256, 257, 1000, 16383, 16384, 16385, 16640, 16641, 65535, 2, 1, 20][(k - n2) / 2]],
        };
        let mut d = bs.keys.server.clone();
        let mut s = match st {
            0 => vec![],
            1 => record(22, &bs.sh[..20]),
            2 => bs.stream.clone(),
            3 => [bs.stream.clone(), d.seal(22, &h2[..6], 0)].concat(),
            _ => [bs.stream.clone(), d.seal(22, &h2, 0)].concat(),
        };
        // behind a good one or by itself
        if again == 1 {
            s.extend(record(20, &[1]));
        }
        s.extend(record(20, &body));
        match st {
            0 => s.extend(record(22, &bs.sh)),
            1 => s.extend(record(22, &bs.sh[20..])),
            3 => s.extend(d.seal(22, &h2[6..], 0)),
            _ => s.extend(d.seal(22, &h2, 0)),
        }
        (&ws[b], s)
    });
    streams(c, "inner-types", 2 * 3 * 256 * nc * 3, |i| {
        let [b, st, t, k, pad] = digits(i, [2, 3, 256, nc, 3]);
        let bs = &bases[b];
        let mut d = bs.keys.server.clone();
        let mut s = bs.stream.clone();
        match st {
            1 => s.extend(d.seal(22, &h2[..6], 0)),
            2 => s.extend(d.seal(22, &h2, 0)),
            _ => (),
        }
        s.extend(d.seal(t as u8, &contents[k], [0, 1, 300][pad]));
        s.extend(d.seal(22, if st == 1 { &h2[6..] } else { &h2 }, 0));
        (&ws[b], s)
    });
    // --- lengths around the limits: authentic records that no server may send
    let sizes: Vec<usize> = [1, 16000].into_iter().chain(16380..=16400).chain((16410..16620).step_by(c.tier(16, 1))).chain(16620..=16660).collect();
    let pads: Vec<usize> = c.tier(vec![0, 1, 2, 14, 15, 16, 17, 100, 222, 223, 224, 238, 239, 240, 241, 255, 256, 300], (0..=300).collect());
    let (nz, np) = (sizes.len() as u64, pads.len() as u64);
    let huge = ee(&[(16, alpn_ext(b"h2")), (10, vec![7; 40000])]);
    streams(c, "record-lengths", 2 * 4 * nz * np, |i| {
        let [b, st, z, pad] = digits(i, [2, 4, nz, np]);
        let bs = &bases[b];
        let mut d = bs.keys.server.clone();
        let mut s = bs.stream.clone();
        let (z, pad) = (sizes[z], pads[pad]);
        let a = match st {
            0 => 0,
            1 => 4,
            2 => 20000,
            // an alert or a record of another type that is too long
            _ => {
                s.extend(d.seal(if b == 0 { 21 } else { 23 }, &huge[..z], pad));
                return (&ws[b], s);
            },
        };
        for part in [&huge[..a.min(10000)], &huge[a.min(10000)..a]] {
            if !part.is_empty() {
                s.extend(d.seal(22, part, 0));
            }
        }
        s.extend(d.seal(22, &huge[a..a + z], pad));
        for part in huge[a + z..].chunks(16384) {
            s.extend(d.seal(22, part, 0));
        }
        (&ws[b], s)
    });
    // --- record versions: ignored in the clear, authenticated under protection
    streams(c, "versions", 65536 * 3, |i| {
        let v = (i / 3) as u16;
        let b = (v & 1) as usize;
        let bs = &bases[b];
        let mut d = bs.keys.server.clone();
        let [hi, lo] = v.to_be_bytes();
        let mut inner = h2.clone();
        inner.push(22);
        let s = match i % 3 {
            0 => [record_v(22, v, &bs.sh), d.seal_inner(&inner)].concat(),
            1 => [bs.stream.clone(), d.seal_as([23, hi, lo], &inner)].concat(),
            _ => {
                let mut r = d.seal_inner(&inner);
                r[1..3].copy_from_slice(&[hi, lo]);
                [bs.stream.clone(), r].concat()
            },
        };
        (&ws[b], s)
    });
    // --- deviations of nonce, key and IV, one bit at a time; other keys altogether
    let kinds = 64 + 96 + 256;
    streams(c, "nonces-and-keys", 2 * 2 * kinds, |i| {
        let [b, st, k] = digits(i, [2, 2, kinds]);
        let bs = &bases[b];
        let mut d = bs.keys.server.clone();
        let mut s = bs.stream.clone();
        if st == 1 {
            s.extend(d.seal(22, &h2, 0));
        }
        match k {
            0..=63 => d.seq ^= 1 << k,
            64..=159 => d.iv[(k - 64) / 8] ^= 1 << (k % 8),
            _ => {
                let n = d.key.len();
                d.key[(k - 160) / 8 % n] ^= 1 << (k % 8)
            },
        }
        s.extend(d.seal(22, if st == 1 { &crt } else { &h2 }, 0));
        s.extend(bs.keys.server.clone().seal(22, &h2, 0));
        (&ws[b], s)
    });
    let foreign: Vec<Vec<(String, Vec<u8>)>> = (0..2)
        .map(|b| {
            let (w, bs) = (&ws[b], &bases[b]);
            let secret = dh_memo(&w.server_priv, &w.client_pub);
            let mut v: Vec<(String, Vec<u8>)> = vec![];
            let mut t = w.ch.raw.clone();
            t.extend_from_slice(&bs.sh);
            let mut put = |nm: &str, k: HsKeys| {
                for (side, mut d) in [("server", k.server), ("client", k.client)] {
                    v.push((format!("{nm}, {side} keys"), d.seal(22, &h2, 0)));
                }
            };
            put("no ServerHello in the transcript", hs_keys(bs.suite, &secret, &w.ch.raw));
            put("no ClientHello in the transcript", hs_keys(bs.suite, &secret, &bs.sh));
            put("empty transcript", hs_keys(bs.suite, &secret, &[]));
            put("record headers in the transcript", hs_keys(bs.suite, &secret, &[w.hello_wire.clone(), bs.stream.clone()].concat()));
            put("zero secret", hs_keys(bs.suite, &[0; 32], &t));
            let mut rev = secret;
            rev.reverse();
            put("byte-reversed secret", hs_keys(bs.suite, &rev, &t));
            put("the other suite", hs_keys(if bs.suite == AES128 { CHACHA } else { AES128 }, &secret, &t));
            put("client's keys for the server", HsKeys { client: bs.keys.server.clone(), server: bs.keys.client.clone() });
            for s in [AES128, CHACHA] {
                let mut d = bs.keys.server.clone();
                d.suite = s;
                d.key = vec![0; if s == AES128 { 16 } else { 32 }];
                v.push(("zero key".into(), d.seal(22, &h2, 0)));
                d.iv = [0; 12];
                v.push(("zero key and IV".into(), d.seal(22, &h2, 0)));
            }
            v
        })
        .collect();
    let nf = foreign[0].len() as u64;
    streams(c, "foreign-keys", 2 * nf, |i| {
        let [b, k] = digits(i, [2, nf]);
        (&ws[b], join(b, &[foreign[b][k].1.clone(), ones[b].clone()]))
    });
    // --- handshake bytes in the clear after the ServerHello, in its last record or in a later one
    let m = h2.len() as u64;
    streams(c, "across-the-key-change", 2 * 3 * 4 * m, |i| {
        let [b, pre, how, k] = digits(i, [2, 3, 4, m]);
        let bs = &bases[b];
        let k = k + 1;
        let mut d = bs.keys.server.clone();
        let cut = [0, 1, 50][pre];
        let mut s = if cut > 0 { record(22, &bs.sh[..cut]) } else { vec![] };
        let last = &bs.sh[cut..];
        match how {
            // part of EncryptedExtensions in the record of the ServerHello, the rest protected
            0 => {
                s.extend(record(22, &[last, &h2[..k]].concat()));
                if k < h2.len() {
                    s.extend(d.seal(22, &h2[k..], 0));
                }
            },
            // the same, but all of it protected again
            1 => {
                s.extend(record(22, &[last, &h2[..k]].concat()));
                s.extend(d.seal(22, &h2, 0));
            },
            // in a record of its own
            2 => {
                s.extend(record(22, last));
                s.extend(record(22, &h2[..k]));
                s.extend(d.seal(22, &h2, 0));
            },
            // zeros behind the ServerHello
            _ => {
                s.extend(record(22, &[last, &vec![0; k][..]].concat()));
                s.extend(d.seal(22, &h2, 0));
            },
        }
        (&ws[b], s)
    });
    // --- a protected record where the ServerHello is expected, and two ServerHellos
    streams(c, "early-protection", 2 * 6, |i| {
        let [b, k] = digits(i, [2, 6]);
        let bs = &bases[b];
        let mut d = bs.keys.server.clone();
        let s = match k {
            0 => [ones[b].clone(), bs.stream.clone()].concat(),
            1 => [record(22, &bs.sh[..10]), ones[b].clone()].concat(),
            2 => [bs.stream.clone(), bs.stream.clone()].concat(),
            3 => [bs.stream.clone(), d.seal(22, &bs.sh, 0)].concat(),
            4 => [bs.stream.clone(), d.seal(22, &h2, 0), d.seal(22, &h2, 0)].concat(),
            _ => [bs.stream.clone(), d.seal(22, &crt, 0)].concat(),
        };
        (&ws[b], s)
    });
}
