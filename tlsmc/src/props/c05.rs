//! C05: every conforming server is understood.
use super::*;
use crate::gen::*;
use refmodel::model::End;
use refmodel::p256::{self, L};
use refmodel::tls::*;

/// The stream is conforming up to and including a Certificate message: the only acceptable ending
/// is our own fatal, protected alert at the Certificate (nothing can be verified), or waiting when
/// the certificate is left out.
fn conforming(w: &World, stream: &[u8], stage: u8, p: &mut mcrt::Probe) -> Result<(), String> {
    let v = w.verdict(stream);
    if v.stage != stage || (stage < 3 && v.ends.first() != Some(&End::More)) {
        return Err(format!("harness: this stream was meant to be conforming up to stage {stage}, the reference says {:?} at stage {} ({})", v.ends, v.stage, v.why));
    }
    // an oversized Certificate is not excused by the alternatives of the general judge
    run_verdict(w, stream, &v, p)
}

/// Scalars whose private or public values have extreme shapes.
fn scalars(thorough: bool) -> Vec<L> {
    let n = p256::limbs("ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551");
    let mut v: Vec<L> = vec![];
    for i in 1..=6u64 {
        v.push([i, 0, 0, 0]);
        v.push([n[0] - i, n[1], n[2], n[3]]);
    }
    // halves of the order
    let half = [(n[0] >> 1) | (n[1] << 63), (n[1] >> 1) | (n[2] << 63), (n[2] >> 1) | (n[3] << 63), n[3] >> 1];
    v.push(half);
    v.push([half[0] + 1, half[1], half[2], half[3]]);
    // points with two leading zero bytes in x or y
    for k in [2376u64, 40393, 61552, 116173, 278848, 302630, 332408, 383134] {
        v.push([k, 0, 0, 0]);
    }
    let step = if thorough { 1 } else { 16 };
    for i in (0..256).step_by(step) {
        let mut x = [0u64; 4];
        x[i / 64] = 1 << (i % 64);
        v.push(x);
        if i > 0 && i < 256 {
            let mut y = [0u64; 4];
            for j in 0..i {
                y[j / 64] |= 1 << (j % 64);
            }
            if p256::cmp(&y, &n).is_lt() {
                v.push(y);
            }
        }
    }
    for pat in [0x5555_5555_5555_5555u64, 0xaaaa_aaaa_aaaa_aaaa, 0x0123_4567_89ab_cdef, 0xffff_0000_ffff_0000, 0x8000_0000_0000_0001] {
        v.push([pat; 4]);
        v.push([pat, 0, 0, 0]);
        v.push([0, 0, 0, pat]);
    }
    v.sort();
    v.dedup();
    v
}
pub fn rng_for(k: &L) -> Vec<getrandom::Answer> {
    // little-endian words, as this library reads them; another reading is noticed by World::with
    let b: Vec<u8> = k.iter().flat_map(|x| x.to_le_bytes()).collect();
    vec![getrandom::Answer::Bytes(b); 64]
}

/// Flights recorded from OpenSSL for the ClientHello of `cheap_rng` (see refmodel/record-openssl.py).
fn recorded() -> Vec<(Cfg, Vec<u8>, Vec<u8>)> {
    let mut v = vec![];
    for l in include_str!("../openssl.txt").lines() {
        let f: Vec<&str> = l.split(' ').collect();
        v.push((recording_cfgs()[f[0].parse::<usize>().unwrap()].clone(), refmodel::unhex(f[1]), refmodel::unhex(f[2])));
    }
    v
}
pub fn recording_cfgs() -> Vec<Cfg> {
    vec![
        Cfg::default().suites(1),
        Cfg::default().suites(2),
        Cfg::default().suites(3).sni("localhost"),
        Cfg::default().suites(1).alpn(&[b"h2", b"http/1.1"]),
        Cfg::default().suites(2).sni("example.org").alpn(&[b"h2", b"http/1.1"]),
    ]
}

pub fn run(c: &mut Check) {
    c.bound("all 2^14 ways to cut EncryptedExtensions into protected records; all 1- and 2-cut fragmentations of ServerHello and of EncryptedExtensions||Certificate; all padding lengths up to 600 and up to the record limit; record content sizes 1..=16384 on a grid with all values near powers of two; EncryptedExtensions of every size up to 700 and around 2^14, 2^15 and 2^16; Certificate messages around every multiple of 2^14 up to 2^17; up to 65541 records under one key; every placement of 0..3 change_cipher_spec records at 4 positions, and up to 70000 at one; ClientHello lengths covering every residue of the hash block and multi-record hellos; extreme private keys on both sides");
    let cfgs = [Cfg::default().suites(1).alpn(&[b"h2"]), Cfg::default().suites(2).alpn(&[b"h2"]), Cfg::default().suites(3).alpn(&[b"h2"]).sni("a.example")];
    let Some(ws) = worlds(c, &cfgs) else { return };
    // (world, suite)
    let pick: Vec<(&World, u16)> = vec![(&ws[0], CHACHA), (&ws[1], AES128), (&ws[2], CHACHA), (&ws[2], AES128)];
    let bases: Vec<Base> = pick.iter().map(|(w, s)| base(w, *s)).collect();
    let h2 = ee(&[(16, alpn_ext(b"h2"))]);
    let crt = cert_msg();

    // --- cuts of EncryptedExtensions
    assert_eq!(h2.len(), 15);
    let masks = 1u64 << 14;
    let mk = |i: u64| {
        let b = &bases[(i / masks) as usize];
        let mut k = b.keys.clone();
        let mut s = b.stream.clone();
        s.extend(sealed(&mut k.server, &cut_mask(&h2, i % masks)));
        // alternately with a certificate, to see the alert that answers it
        let stage = if i % 4 == 3 {
            s.extend(sealed(&mut k.server, &[&crt]));
            3
        } else {
            2
        };
        (pick[(i / masks) as usize].0, s, stage)
    };
    c.space(
        "ee-compositions",
        masks * 4,
        |i| {
            let (w, s, _) = mk(i);
            w.describe(&s)
        },
        |i, p| {
            let (w, s, st) = mk(i);
            conforming(w, &s, st, p)
        },
    );
    // --- cuts of ServerHello
    let n = bases[0].sh.len();
    let mut cuts: Vec<Vec<usize>> = vec![vec![]];
    for a in 1..n {
        cuts.push(vec![a]);
        for b in a + 1..n {
            cuts.push(vec![a, b]);
        }
    }
    cuts.push((1..n).collect());
    cuts.push((1..n).step_by(2).collect());
    let nc = cuts.len() as u64;
    let mk = |i: u64| {
        let b = &bases[(i / nc) as usize];
        let mut k = b.keys.clone();
        let mut s = plain(&cut_at(&b.sh, &cuts[(i % nc) as usize]));
        s.extend(sealed(&mut k.server, &[&h2]));
        (pick[(i / nc) as usize].0, s)
    };
    c.space("server-hello-cuts", nc * 4, |i| { let (w, s) = mk(i); w.describe(&s) }, |i, p| { let (w, s) = mk(i); conforming(w, &s, 2, p) });
    // --- cuts of the coalesced flight
    let flight = [h2.clone(), crt.clone()].concat();
    let n = flight.len();
    let mut cuts: Vec<Vec<usize>> = vec![vec![]];
    let step = c.tier(3, 1);
    for a in 1..n {
        cuts.push(vec![a]);
        for b in (a + 1..n).step_by(if a < 24 { 1 } else { step }) {
            cuts.push(vec![a, b]);
        }
    }
    for k in 1..n {
        cuts.push((k..n).step_by(k).collect());
    }
    let nc = cuts.len() as u64;
    let mk = |i: u64| {
        let b = &bases[(i / nc) as usize];
        let mut k = b.keys.clone();
        let mut s = b.stream.clone();
        s.extend(sealed(&mut k.server, &cut_at(&flight, &cuts[(i % nc) as usize])));
        (pick[(i / nc) as usize].0, s)
    };
    c.space("flight-cuts", nc * 2, |i| { let (w, s) = mk(i); w.describe(&s) }, |i, p| { let (w, s) = mk(i); conforming(w, &s, 3, p) });
    // --- padding
    let max_pad = 16384 - h2.len();
    let pads: Vec<usize> = if c.tier(false, true) { (0..=max_pad).collect() } else { (0..=600).chain((600..max_pad - 300).step_by(61)).chain(max_pad - 300..=max_pad).collect() };
    let np = pads.len() as u64;
    let mk = |i: u64| {
        let b = &bases[(i / np / 2) as usize];
        let pad = pads[(i / 2 % np) as usize];
        let mut k = b.keys.clone();
        let mut s = b.stream.clone();
        let d = &mut k.server;
        if i % 2 == 0 {
            s.extend(d.seal(22, &h2, pad));
        } else {
            // padding between the two halves
            s.extend(d.seal(22, &h2[..5], pad));
            s.extend(d.seal(22, &h2[5..], pad / 2));
        }
        s.extend(d.seal(22, &crt, 1));
        (pick[(i / np / 2) as usize].0, s)
    };
    c.space("padding", np * 2 * 2, |i| { let (w, s) = mk(i); w.describe(&s) }, |i, p| { let (w, s) = mk(i); conforming(w, &s, 3, p) });
    // --- message sizes
    let big = |n: usize| ee(&[(16, alpn_ext(b"h2")), (10, (0..n).map(|i| (i * 7 % 251) as u8).collect())]);
    let mut sizes: Vec<usize> = (0..700).collect();
    for c in [0x1000usize, 0x2000, 0x4000, 0x8000, 0xc000] {
        sizes.extend(c - 60..c + 40);
    }
    sizes.extend(65535 - 13 - 60..=65535 - 13);
    let ns = sizes.len() as u64;
    let chunkings = [16384usize, 16383, 16000, 4096, 8191, 1400];
    let mk = |i: u64| {
        let b = &bases[(i / ns / 6) as usize];
        let m = big(sizes[(i / 6 % ns) as usize]);
        let mut k = b.keys.clone();
        let mut s = b.stream.clone();
        let pieces: Vec<&[u8]> = m.chunks(chunkings[(i % 6) as usize]).collect();
        s.extend(sealed(&mut k.server, &pieces));
        s.extend(sealed(&mut k.server, &[&crt]));
        (pick[(i / ns / 6) as usize].0, s)
    };
    c.space("message-sizes", ns * 2 * 6, |i| { let (w, s) = mk(i); w.describe(&s) }, |i, p| { let (w, s) = mk(i); conforming(w, &s, 3, p) });
    // --- sizes of a Certificate; what is in it does not matter, no record but the last may be answered
    let mut sizes: Vec<usize> = vec![0, 1, 100, 1000, 5000];
    for c in [0x4000usize, 0x8000, 0xc000, 0x10000, 0x14000, 0x18000] {
        sizes.extend((c - 60..c + 20).step_by(4));
    }
    sizes.extend(0x20000 - 400..0x20000 - 80);
    let ns = sizes.len() as u64;
    let mk = |i: u64| {
        let b = &bases[(i / ns / 3) as usize];
        let data: Vec<u8> = (0..sizes[(i / 3 % ns) as usize]).map(|i| (i * 7 % 251) as u8).collect();
        let m = cert_msg_of(&data);
        let mut k = b.keys.clone();
        let mut s = b.stream.clone();
        s.extend(sealed(&mut k.server, &[&h2]));
        let pieces: Vec<&[u8]> = m.chunks(chunkings[(i % 3) as usize * 2]).collect();
        s.extend(sealed(&mut k.server, &pieces));
        (pick[(i / ns / 3) as usize].0, s)
    };
    c.space("certificate-sizes", ns * 2 * 3, |i| { let (w, s) = mk(i); w.describe(&s) }, |i, p| { let (w, s) = mk(i); conforming(w, &s, 3, p) });
    // --- record sizes
    let mut rs: Vec<usize> = (1..=c.tier(80, 300)).collect();
    for k in 7..=14 {
        let m = 1usize << k;
        rs.extend((m - 20..=m + 20).filter(|x| *x <= 16384 && *x > 80));
    }
    rs.sort();
    rs.dedup();
    let nr = rs.len() as u64;
    let m40k = big(40000);
    let m65k = big(65535 - 13);
    assert!(m65k.len() > 65536);
    let mk = |i: u64| {
        let b = &bases[(i / nr) as usize];
        let r = rs[(i % nr) as usize];
        let mut k = b.keys.clone();
        let mut s = b.stream.clone();
        let m = if r == 1 { &m65k } else { &m40k };
        let pieces: Vec<&[u8]> = m.chunks(r).collect();
        s.extend(sealed(&mut k.server, &pieces));
        s.extend(sealed(&mut k.server, &[&crt]));
        (pick[(i / nr) as usize].0, s)
    };
    c.space("record-sizes", nr * 2, |i| { let (w, s) = mk(i); w.describe(&s) }, |i, p| { let (w, s) = mk(i); conforming(w, &s, 3, p) });
    // both messages in records of a byte or two: about as many as a handshake can have
    let mk = |i: u64| {
        let b = &bases[(i / 2) as usize];
        let mut k = b.keys.clone();
        let mut s = b.stream.clone();
        let cert = cert_msg_of(&(0..0x20000 - 80).map(|i| (i * 7 % 251) as u8).collect::<Vec<u8>>());
        for m in [&m65k, &cert] {
            s.extend(sealed(&mut k.server, &m.chunks(1 + (i % 2) as usize).collect::<Vec<_>>()));
        }
        (pick[(i / 2) as usize].0, s)
    };
    c.space("most-records", 4, |i| format!("largest EncryptedExtensions and Certificate in records of {} bytes, world {}", 1 + i % 2, i / 2), |i, p| { let (w, s) = mk(i); conforming(w, &s, 3, p) });
    // --- change_cipher_spec
    let ccs = record(20, &[1]);
    let mk = |i: u64| {
        let b = &bases[(i / 256 % 4) as usize];
        let mut k = b.keys.clone();
        let mut s = vec![];
        let mut rest = i % 256;
        let times = if i / 1024 == 0 { 1 } else { 100 };
        let parts = [b.stream.clone(), sealed(&mut k.server, &[&h2]), sealed(&mut k.server, &[&crt]), vec![]];
        for part in &parts {
            for _ in 0..(rest % 4) * times {
                s.extend_from_slice(&ccs);
            }
            rest /= 4;
            s.extend_from_slice(part);
        }
        (pick[(i / 256 % 4) as usize].0, s)
    };
    c.space("change-cipher-spec", 256 * 4 * 2, |i| { let (w, s) = mk(i); w.describe(&s) }, |i, p| { let (w, s) = mk(i); conforming(w, &s, 3, p) });
    // more of them at one place than a counter of 8 or 16 bits can hold
    let many = [255usize, 256, 257, 300, 65535, 65536, 65537, 70000];
    let mk = |i: u64| {
        let [b, at, n] = digits(i, [4, 4, many.len() as u64]);
        let mut k = bases[b].keys.clone();
        let mut s = vec![];
        for (j, part) in [bases[b].stream.clone(), sealed(&mut k.server, &[&h2]), sealed(&mut k.server, &[&crt]), vec![]].iter().enumerate() {
            if j == at {
                s.extend(ccs.repeat(many[n]));
            }
            s.extend_from_slice(part);
        }
        (pick[b].0, s)
    };
    c.space("many-change-cipher-specs", 16 * many.len() as u64, |i| {
        let [b, at, n] = digits(i, [4, 4, many.len() as u64]);
        format!("world {b}: {} change_cipher_spec records before part {at}", many[n])
    }, |i, p| { let (w, s) = mk(i); conforming(w, &s, 3, p) });
    // --- server randoms and extension orders
    let mk = |i: u64| {
        let (w, suite) = pick[(i % 4) as usize];
        let mut sh = w.server_hello(suite);
        let j = i / 8;
        sh.random = match j % 4 {
            0 => [j as u8; 32],
            1 => refmodel::det_bytes(j, 32).try_into().unwrap(),
            2 => {
                let mut r = [0; 32];
                r[(j / 4 % 32) as usize] = 1 << (j / 128 % 8);
                r
            },
            _ => {
                let mut r = [0xff; 32];
                r[(j / 4 % 32) as usize] ^= 1 << (j / 128 % 8);
                r
            },
        };
        if i / 4 % 2 == 1 {
            sh.exts.swap(0, 1);
        }
        let m = sh.msg();
        let mut k = w.keys(suite, &m);
        let mut s = record(22, &m);
        s.extend(sealed(&mut k.server, &[&h2]));
        s.extend(sealed(&mut k.server, &[&crt]));
        (w, s)
    };
    c.space("server-randoms", 8 * 1024, |i| { let (w, s) = mk(i); w.describe(&s) }, |i, p| { let (w, s) = mk(i); conforming(w, &s, 3, p) });
    // --- contents of EncryptedExtensions a client has to accept
    let sni_ok = (0u16, vec![]);
    let lists: Vec<Vec<(u16, Vec<u8>)>> = vec![
        vec![],
        vec![(10, vec![0, 2, 0, 0x17])],
        vec![(10, vec![0, 4, 0, 0x1d, 0, 0x17]), (16, alpn_ext(b"h2"))],
        vec![(16, alpn_ext(b"h2")), (10, vec![0, 2, 0, 0x18])],
        vec![sni_ok.clone()],
        vec![sni_ok.clone(), (16, alpn_ext(b"h2"))],
        vec![(16, alpn_ext(b"h2")), sni_ok.clone(), (10, vec![0, 2, 0, 0x17])],
        vec![(10, vec![0, 2, 0, 0x17]), sni_ok.clone(), (16, alpn_ext(b"h2"))],
    ];
    let mk = |i: u64| {
        let b = &bases[2 + (i % 2) as usize];
        let w = pick[2 + (i % 2) as usize].0;
        let mut k = b.keys.clone();
        let mut s = b.stream.clone();
        s.extend(sealed(&mut k.server, &[&ee(&lists[(i / 4) as usize])]));
        if i / 2 % 2 == 1 {
            s.extend(sealed(&mut k.server, &[&crt]));
        }
        (w, s, if i / 2 % 2 == 1 { 3 } else { 2 })
    };
    c.space("server-extensions", lists.len() as u64 * 4, |i| { let (w, s, _) = mk(i); w.describe(&s) }, |i, p| { let (w, s, st) = mk(i); conforming(w, &s, st, p) });
    // --- ClientHello lengths (transcript hash input) and ServerHello after multi-record hellos
    let mut lens: Vec<usize> = (0..=c.tier(200, 400)).collect();
    lens.extend(16384 - 270..16384 - 120);
    lens.extend([30000, 32768 - 200, 60000, 65000, 65535 - 110]);
    let nl = lens.len() as u64;
    c.space(
        "client-hello-lengths",
        nl * 2,
        |i| format!("server name of {} bytes, suites {}", lens[(i / 2) as usize], 1 + i % 2),
        |i, p| {
            let mut cfg = Cfg::default().suites(1 + (i % 2) as u8);
            cfg.sni = Some(vec![b'n'; lens[(i / 2) as usize]]).filter(|s: &Vec<u8>| !s.is_empty());
            let w = World::new(cfg)?;
            let b = base(&w, w.suite());
            let mut k = b.keys.clone();
            let mut s = b.stream.clone();
            s.extend(sealed(&mut k.server, &[&ee(&[])]));
            s.extend(sealed(&mut k.server, &[&crt]));
            conforming(&w, &s, 3, p)
        },
    );
    // --- keys
    let sc = scalars(c.tier(false, true));
    let srv: Vec<L> = sc.iter().copied().filter(|k| c.tier(false, true) || k[1..] == [0, 0, 0] || k[3] > u64::MAX / 2).collect();
    let (nk, nv) = (sc.len() as u64, srv.len() as u64);
    c.space(
        "key-pairs",
        nk * nv,
        |i| format!("client key {:x?}, server key {:x?} (little-endian words)", sc[(i / nv) as usize], srv[(i % nv) as usize]),
        |i, p| {
            let (ck, sk) = (sc[(i / nv) as usize], srv[(i % nv) as usize]);
            let w = World::with(Cfg::default().suites(1 + (i % 2) as u8), rng_for(&ck), sk, None)?;
            let b = base(&w, w.suite());
            let mut k = b.keys.clone();
            let mut s = b.stream.clone();
            s.extend(sealed(&mut k.server, &[&ee(&[])]));
            s.extend(sealed(&mut k.server, &[&crt]));
            // the secret is known only for this server point
            let v = refmodel::model::run(&w.offer, &s, &mut |_| dh_memo(&w.server_priv, &w.client_pub));
            if v.stage != 3 {
                return Err(format!("harness: reference stopped at stage {}: {}", v.stage, v.why));
            }
            run_verdict(&w, &s, &v, p)
        },
    );
    // --- consecutive multiples of the generator as the server's share and as the shared secret:
    // every value of every byte of a coordinate turns up
    let top = c.tier(12000u64, 200000);
    let cks: [L; 2] = [[1, 0, 0, 0], [3, 0, 0, 0]];
    c.space(
        "server-points",
        top * 2,
        |i| format!("client key {}, server key {}", cks[(i % 2) as usize][0], 1 + i / 2),
        |i, p| {
            let w = World::with(Cfg::default().suites(1 + (i / 2 % 2) as u8), rng_for(&cks[(i % 2) as usize]), [1 + i / 2, 0, 0, 0], None)?;
            let b = base(&w, w.suite());
            let mut k = b.keys.clone();
            let mut s = b.stream.clone();
            s.extend(sealed(&mut k.server, &[&ee(&[])]));
            s.extend(sealed(&mut k.server, &[&crt]));
            let v = refmodel::model::run(&w.offer, &s, &mut |_| dh_memo(&w.server_priv, &w.client_pub));
            if v.stage != 3 {
                return Err(format!("harness: reference stopped at stage {}: {}", v.stage, v.why));
            }
            run_verdict(&w, &s, &v, p)
        },
    );
    // --- flights recorded from OpenSSL
    let rec = recorded();
    c.space(
        "openssl-recordings",
        rec.len() as u64,
        |i| format!("recorded OpenSSL flight {i} for {:?}", rec[i as usize].0),
        |i, p| {
            let (cfg, hello, flight) = &rec[i as usize];
            let w = World::new(cfg.clone())?;
            if &w.hello_wire != hello {
                // Another valid encoding of the same configuration: the recording does not apply.
                p.outcome("recorded for another encoding of the ClientHello");
                p.trace();
                return Ok(());
            }
            conforming(&w, flight, 3, p)
        },
    );
}
