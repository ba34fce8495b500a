//! C03: the first flight is exactly the configuration, or nothing at all.
use super::*;
use getrandom::Answer;
use refmodel::p256;
use refmodel::tls::*;

/// What a configuration asks for.
#[derive(Debug)]
enum Want {
    /// A ClientHello with this content.
    Hello { suites: Vec<u16>, sni: Option<Vec<u8>>, alpn: Option<Vec<Vec<u8>>> },
    /// There is no such ClientHello.
    Error(&'static str),
    /// Leaving the extension out and refusing are both fine.
    Either(Box<Want>),
}

fn parse_alpn(b: &[u8]) -> Option<Vec<Vec<u8>>> {
    let mut v = vec![];
    let mut r = b;
    while let Some((&n, rest)) = r.split_first() {
        let n = n as usize;
        if n == 0 || n > rest.len() {
            return None;
        }
        v.push(rest[..n].to_vec());
        r = &rest[n..];
    }
    Some(v)
}

/// The reading of a configuration, from the header's documentation.
fn want(c: &Cfg) -> Want {
    let mut suites = vec![];
    if c.suites & 1 != 0 {
        suites.push(CHACHA);
    }
    if c.suites & 2 != 0 {
        suites.push(AES128);
    }
    if suites.is_empty() {
        return Want::Error("no cipher suite the library implements");
    }
    if c.sig_algs & 1 == 0 {
        return Want::Error("no signature algorithm the library implements");
    }
    if c.groups & 1 == 0 {
        return Want::Error("no group the library implements");
    }
    let mut alpn = None;
    if let Some(a) = c.alpn.as_ref().filter(|a| !a.is_empty()) {
        match parse_alpn(a) {
            None => return Want::Error("application protocol list with an empty or truncated name"),
            Some(v) => alpn = Some(v),
        }
    }
    let empty_sni = c.sni.as_ref().map_or(false, |s| s.is_empty());
    let sni = c.sni.clone().filter(|s| !s.is_empty());
    // supported_versions, signature_algorithms, supported_groups, key_share
    let mut n = (4 + 3) + (4 + 4) + (4 + 4) + (4 + 2 + 4 + 65);
    n += sni.as_ref().map_or(0, |s| 4 + 5 + s.len());
    n += alpn.as_ref().map_or(0, |_| 4 + 2 + c.alpn.as_ref().unwrap().len());
    if n > 0xffff {
        return Want::Error("extensions that do not fit the length field");
    }
    let w = Want::Hello { suites, sni, alpn };
    if empty_sni {
        Want::Either(Box::new(w))
    } else {
        w
    }
}

fn check_hello(wire: &[u8], w: &Want) -> Result<ClientHello, String> {
    let ch = client_hello_from_wire(wire)?;
    let (suites, sni, alpn) = match w {
        Want::Hello { suites, sni, alpn } => (suites, sni, alpn),
        Want::Either(w) => return check_hello(wire, w),
        Want::Error(e) => return Err(format!("a ClientHello was sent although there is {e}: {}", short_hex(wire))),
    };
    let mut a = ch.suites.clone();
    let mut b = suites.clone();
    a.sort();
    b.sort();
    if a != b {
        return Err(format!("offers suites {:04x?} instead of {suites:04x?}", ch.suites));
    }
    if ch.sig_algs != Some(vec![0x0403]) {
        return Err(format!("offers signature algorithms {:04x?}", ch.sig_algs));
    }
    if ch.groups != Some(vec![0x17]) {
        return Err(format!("offers groups {:04x?}", ch.groups));
    }
    if ch.versions != Some(vec![0x0304]) {
        return Err(format!("offers versions {:04x?}", ch.versions));
    }
    if &ch.sni != sni {
        return Err(format!("server name {:?} instead of {sni:?}", ch.sni));
    }
    if &ch.alpn != alpn {
        return Err(format!("application protocols {:?} instead of {alpn:?}", ch.alpn));
    }
    match ch.key_shares.as_deref() {
        Some([(0x17, k)]) if decode_point(k).is_some() => (),
        o => return Err(format!("key shares {o:02x?}")),
    }
    Ok(ch)
}

fn check_cfg(c: &Cfg, p: &mut mcrt::Probe) -> Result<(), String> {
    let w = want(c);
    let mut s = Sess::new(c, &cheap_rng());
    let r = s.connect();
    let out = s.io().out.clone();
    let label;
    if out.is_empty() {
        match &w {
            Want::Hello { .. } => return Err(format!("nothing was written and connect reports {}", r.show())),
            Want::Error(e) => label = format!("refused: {e}"),
            Want::Either(_) => label = "refused: empty server name".into(),
        }
        if r.code == 1 || r.wants() {
            return Err(format!("nothing was written but connect reports {}", r.show()));
        }
    } else {
        check_hello(&out, &w)?;
        if r.code == 1 || r.err != E_READ {
            return Err(format!("after the first flight connect reports {}", r.show()));
        }
        label = format!("hello of {} records", split_records(&out).0.len());
    }
    done(&mut s, p, &label);
    Ok(())
}

fn show(c: &Cfg) -> String {
    let mut t = format!("suites {:#x}, signature algorithms {:#x}, groups {:#x}", c.suites, c.sig_algs, c.groups);
    for (n, o) in [("server name", &c.sni), ("application protocol list", &c.alpn)] {
        t += &match o {
            None => format!(", no {n}"),
            Some(b) => format!(", {n} of {} bytes {}", b.len(), short_hex(b)),
        };
    }
    format!("{t}\nexpected: {:.300}", format!("{:?}", want(c)))
}

fn name(n: usize) -> Vec<u8> {
    (0..n).map(|i| b'a' + (i * 7 % 26) as u8).collect()
}
/// A well-formed list of exactly n bytes (n != 1).
fn list(mut n: usize) -> Vec<u8> {
    let mut v = vec![];
    while n > 0 {
        let mut k = (n - 1).min(255);
        if n - 1 - k == 1 {
            k -= 1;
        }
        v.push(k as u8);
        v.extend(name(k));
        n -= 1 + k;
    }
    v
}

pub fn run(c: &mut Check) {
    c.bound("all 256 cipher suite bytes with signature algorithm and group words of every single bit, none, all and all but the implemented one; server names of every length up to 700 and around the record and extension-block limits; application protocol lists: every string of up to 6 symbols over lengths 0-4 and 'a', single names of every length, list lengths around the limits");
    c.bound("random source: failure at every call; all-zero answers; private keys around zero, the group order and 2^256 in both byte orders; every byte of every answer changed");
    let base = Cfg::default();
    // --- bit flags
    let words: Vec<u16> = (0..16).map(|i| 1 << i).chain([0, 0xffff, 0xfffe, 3, 0x8001]).collect();
    let nw = words.len() as u64;
    let mk = |i: u64| Cfg {
        suites: (i / (nw * nw)) as u8,
        sig_algs: words[(i / nw % nw) as usize],
        groups: words[(i % nw) as usize],
        ..Cfg::default()
    };
    c.space("flags", 256 * nw * nw, |i| show(&mk(i)), |i, p| check_cfg(&mk(i), p));
    let mk = |i: u64| {
        let w = (i % 65536) as u16;
        let mut c = Cfg::default();
        if i < 65536 {
            c.sig_algs = w
        } else {
            c.groups = w
        }
        c
    };
    c.space("flag-words", 2 * 65536, |i| show(&mk(i)), |i, p| check_cfg(&mk(i), p));
    // --- names
    let mut snis: Vec<Option<Vec<u8>>> = vec![None];
    for n in (0..700).chain(16000..16500).chain(32700..32800).chain(65300..65560).chain([70000, 131072, 200000]) {
        snis.push(Some(name(n)));
    }
    for b in 1..=255u8 {
        snis.push(Some(vec![b]));
        snis.push(Some(vec![b'a', b, b'.']));
    }
    let mk = |i: u64| {
        let mut c = Cfg::default().suites([3, 1, 2][(i % 3) as usize]);
        c.sni = snis[(i / 6) as usize].clone();
        if i / 3 % 2 == 1 {
            c.alpn = Some(alpn_list(&[b"h2", b"http/1.1"]));
        }
        c
    };
    c.space("server-names", snis.len() as u64 * 6, |i| show(&mk(i)), |i, p| check_cfg(&mk(i), p));
    // every framing of short lists
    let k = 6u64;
    let n: u64 = (0..=6).map(|l| k.pow(l)).sum();
    let mk = |mut i: u64| {
        let mut l = 0;
        while i >= k.pow(l) {
            i -= k.pow(l);
            l += 1;
        }
        let mut a = vec![];
        for _ in 0..l {
            a.push([0u8, 1, 2, 3, 4, b'a'][(i % k) as usize]);
            i /= k;
        }
        let mut c = Cfg::default();
        c.alpn = Some(a);
        c
    };
    c.space("protocol-framings", n, |i| show(&mk(i)), |i, p| check_cfg(&mk(i), p));
    let mut lists: Vec<Vec<u8>> = vec![];
    for n in 1..=255 {
        lists.push(alpn_list(&[&name(n)]));
        lists.push(alpn_list(&[&name(n), b"x"]));
        lists.push(alpn_list(&[b"x", &name(n)]));
        // cut short by one, one too long
        let l = alpn_list(&[&name(n)]);
        lists.push(l[..l.len() - 1].to_vec());
        lists.push([l, vec![1]].concat());
    }
    for n in (0..700).chain(16000..16500).chain(32700..32800).chain(65300..65560).chain([70000, 131072, 200000]).filter(|n| *n != 1) {
        lists.push(list(n));
    }
    for n in 1..=300 {
        lists.push([vec![1u8, b'a']; 1].concat().repeat(n));
    }
    let mk = |i: u64| {
        let mut c = Cfg::default();
        c.alpn = Some(lists[(i / 2) as usize].clone());
        if i % 2 == 1 {
            c.sni = Some(b"example.org".to_vec());
        }
        c
    };
    c.space("protocol-lists", lists.len() as u64 * 2, |i| show(&mk(i)), |i, p| check_cfg(&mk(i), p));
    // both long: around the limits together
    let mk = |i: u64| {
        let (limit, d, split) = ([16384, 32768, 65535][(i % 3) as usize], i / 3 % 200, i / 600);
        let total = limit - 250 + d as usize;
        let s = [1, 100, 5000, 16000, total / 2][split as usize].min(total - 10);
        let mut c = Cfg::default();
        c.sni = Some(name(s));
        c.alpn = Some(list(total - s));
        c
    };
    c.space("long-names", 600 * 5, |i| show(&mk(i)), |i, p| check_cfg(&mk(i), p));

    // --- randomness
    // how the answers are used by a default connection
    let dflt = |script: Vec<Answer>| -> (Ret, Vec<u8>, usize) {
        let mut s = Sess::new(&Cfg::default(), &script);
        let r = s.connect();
        let o = s.io().out.clone();
        (r, o, getrandom::calls().len())
    };
    let cheap = || -> Vec<Answer> {
        (0..8u8)
            .map(|i| {
                // every 32 bytes are another small number, however the draws are divided up
                let mut b = vec![0u8; 128];
                for k in 0..4 {
                    b[32 * k] = 3 + i + 8 * k as u8;
                    b[32 * k + 1] = 1;
                }
                Answer::Bytes(b)
            })
            .collect()
    };
    c.space(
        "random-failure",
        8,
        |i| format!("the random source fails at call {i} only"),
        |i, p| {
            let (r0, o0, n) = dflt(cheap());
            if r0.code == 1 || r0.err != E_READ || o0.is_empty() {
                return Err(format!("without failure: {}", r0.show()));
            }
            if n == 0 {
                return Err("a ClientHello was built without asking the random source".into());
            }
            let mut sc = cheap();
            sc[i as usize] = Answer::Fail;
            let (r, o, _) = dflt(sc);
            p.steps(2);
            p.trace();
            if i as usize >= n {
                if (r, &o) != (r0, &o0) {
                    return Err("a call that was never made changed the outcome".into());
                }
                p.outcome("no such call");
            } else {
                if r.code == 1 || r.err != E_RNG {
                    return Err(format!("a failing random source is reported as {}", r.show()));
                }
                if !o.is_empty() {
                    return Err(format!("{} bytes were written although the random source failed", o.len()));
                }
                p.outcome("random source failed");
            }
            Ok(())
        },
    );
    // ... and the attempt after a failure draws everything anew
    c.space(
        "after-random-failure",
        8 * 3 * 2,
        |i| format!("the random source {} from call {} on, {} times, then works", ["fails", "gives zeros"][(i / 24) as usize], i % 8, i / 8 % 3 + 1),
        |i, p| {
            let (_, o0, n) = dflt(cheap());
            p.trace();
            if (i % 8) as usize >= n {
                p.outcome("no such call");
                return Ok(());
            }
            let mut sc = cheap();
            sc[(i % 8) as usize..].iter_mut().for_each(|a| *a = if i < 24 { Answer::Fail } else { Answer::Bytes(vec![0; 128]) });
            let mut s = Sess::new(&Cfg::default(), &sc);
            for _ in 0..i / 8 % 3 + 1 {
                // other values than those of the last attempt
                let mut sc = sc.clone();
                if let Answer::Bytes(b) = &mut sc[0] {
                    if i % 8 > 0 {
                        b.iter_mut().step_by(32).for_each(|x| *x ^= 0x40);
                    }
                }
                getrandom::set_script(sc);
                let r = s.connect();
                p.steps(1);
                if r.wants() {
                    // zeros are good enough for this call
                    p.outcome("usable");
                    return Ok(());
                }
                if !s.io().out.is_empty() {
                    return Err("something was written although the random source failed".into());
                }
            }
            getrandom::set_script(cheap());
            s.io().closes = 0;
            let r = s.connect();
            let (o, calls) = (s.io().out.clone(), getrandom::calls().len());
            if (&o, calls) != (&o0, n) {
                return Err(format!("connect then reports {}, asks {calls} times for randomness and writes {}; a fresh object asks {n} times and writes {}", r.show(), short_hex(&o), short_hex(&o0)));
            }
            p.outcome("anew");
            Ok(())
        },
    );
    // private keys around the special values; the other answers stay ordinary
    let order = p256::limbs("ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551");
    let mut keys: Vec<[u8; 32]> = vec![];
    let near = |v: &p256::L, d: i64| -> p256::L {
        let mut r = *v;
        let (mut i, mut carry) = (0, d as i128);
        while i < 4 {
            let s = r[i] as i128 + carry;
            r[i] = s as u64;
            carry = s >> 64;
            i += 1;
        }
        r
    };
    for v in [[0; 4], order] {
        for d in -4..=4 {
            let be = p256::to_be(&near(&v, d));
            keys.push(be);
            let mut le = be;
            le.reverse();
            keys.push(le);
        }
    }
    // coordinates with leading zeros: one byte in some of these, two in the last ones
    for k in (5..c.tier(600u64, 5000)).chain([2376, 40393, 61552, 116173, 278848, 302630, 332408, 383134]) {
        let mut le = p256::to_be(&[k, 0, 0, 0]);
        le.reverse();
        keys.push(le);
    }
    keys.sort();
    keys.dedup();
    let nk = keys.len() as u64;
    c.space(
        "special-keys",
        nk * 4,
        |i| format!("random answer {} is {} (4: all of them)", [0, 1, 2, 4][(i / nk) as usize], refmodel::hex(&keys[(i % nk) as usize])),
        |i, p| {
            let k = keys[(i % nk) as usize];
            let sc = match i / nk {
                3 => vec![Answer::Bytes(k.to_vec()); 64],
                n => {
                    let mut s = cheap();
                    s[n as usize] = Answer::Bytes(k.to_vec());
                    s
                },
            };
            let (r, o, _) = dflt(sc);
            p.steps(1);
            p.trace();
            if !o.is_empty() {
                if r.code == 1 || r.err != E_READ {
                    return Err(format!("after the first flight connect reports {}", r.show()));
                }
                let ch = check_hello(&o, &want(&Cfg::default()))?;
                let _ = ch;
                p.outcome("usable key");
                if i / nk == 3 && k == [0; 32] {
                    return Err("all-zero randomness was used".into());
                }
            } else {
                if r.code == 1 || ![E_ZERO, E_RNG].contains(&r.err) {
                    return Err(format!("nothing was written and connect reports {}", r.show()));
                }
                let ok = {
                    // only zero modulo the order is unusable
                    let (be, mut le) = (k, k);
                    le.reverse();
                    [be, le].iter().any(|b| {
                        let v = p256::from_be(b);
                        v == [0; 4] || v == order
                    })
                };
                if !ok {
                    return Err(format!("a usable key was refused with {}", r.show()));
                }
                p.outcome("refused key");
            }
            Ok(())
        },
    );
    // every byte of randomness matters, to exactly one of hello random and key share
    c.space(
        "random-bytes",
        8 * 128 * 9,
        |i| format!("byte {} of random answer {} changed by {:#04x}", i % 128, i / 128 % 8, if i / 1024 == 8 { 0xff } else { 1 << (i / 1024) }),
        |i, p| {
            let (_, o0, n) = dflt(cheap());
            let call = (i / 128 % 8) as usize;
            p.steps(2);
            p.trace();
            if call >= n || (i % 128) as usize >= getrandom::calls()[call] {
                p.outcome("no such byte");
                return Ok(());
            }
            let mut sc = cheap();
            let Answer::Bytes(b) = &mut sc[call] else { unreachable!() };
            b[(i % 128) as usize] ^= if i / 1024 == 8 { 0xff } else { 1 << (i / 1024) };
            let (_, o1, _) = dflt(sc);
            let (a, b) = (check_hello(&o0, &want(&Cfg::default()))?, check_hello(&o1, &want(&Cfg::default()))?);
            match (a.random != b.random, a.key_shares != b.key_shares) {
                (false, false) => return Err("this byte of randomness has no influence on the ClientHello".into()),
                (true, true) => return Err("one byte of randomness determines both the hello random and the key share".into()),
                (true, _) => p.outcome("hello random"),
                _ => p.outcome("key share"),
            }
            // a single byte of the hello random at a time: they are used one to one
            if a.random != b.random && a.random.iter().zip(&b.random).filter(|(x, y)| x != y).count() != 1 {
                p.outcome("hello random, mixed");
            }
            Ok(())
        },
    );
    // and everything in the hello random and 256 bits of the private key come from there
    c.space("random-coverage", 1, |_| "every bit of every random answer changed in turn".into(), |_, p| {
        let (_, o0, n) = dflt(cheap());
        let a = check_hello(&o0, &want(&Cfg::default()))?;
        let sizes = getrandom::calls();
        let (mut moved, mut keys) = ([0u8; 32], std::collections::BTreeSet::new());
        let mut all = 0;
        for call in 0..n.min(8) {
            for bit in 0..sizes[call].min(128) * 8 {
                let mut sc = cheap();
                let Answer::Bytes(x) = &mut sc[call] else { unreachable!() };
                x[bit / 8] ^= 1 << (bit % 8);
                let (_, o1, _) = dflt(sc);
                let b = check_hello(&o1, &want(&Cfg::default()))?;
                moved.iter_mut().zip(a.random.iter().zip(&b.random)).for_each(|(m, (x, y))| *m |= x ^ y);
                if a.key_shares != b.key_shares {
                    all += 1;
                    keys.insert(b.key_shares.clone().unwrap()[0].1.clone());
                }
                p.steps(1);
            }
        }
        p.trace();
        if moved != [0xff; 32] {
            return Err(format!("these bits of the hello random do not depend on the random source: {}", refmodel::hex(&moved.map(|x| !x))));
        }
        if all < 256 || keys.len() < 256 {
            return Err(format!("only {all} bits of randomness decide on the key share, giving {} different ones", keys.len()));
        }
        Ok(())
    });
    // --- a fresh draw for each attempt on one object
    c.space(
        "fresh-draws",
        2 * 3 * 4,
        |i| format!("attempt 2 after an attempt that {}, {} configuration", ["was closed", "ended with the server's alert", "ended with a local error"][(i / 2 % 3) as usize], ["the same", "another"][(i % 2) as usize]),
        |i, p| {
            let mut s = Sess::new(&base, &cheap());
            let r = s.connect();
            if r.err != E_READ {
                return Err(r.show());
            }
            let mut hellos = vec![s.io().out.clone()];
            for _ in 0..1 + i / 6 {
                match i / 2 % 3 {
                    0 => s.close(),
                    k => {
                        let io = s.io();
                        io.inbound.extend(if k == 1 { record(21, &[2, 40]) } else { record(23, &[0; 20]) });
                        let r = s.connect();
                        if r.wants() || r.code == 1 {
                            return Err(format!("the connection was not ended: {}", r.show()));
                        }
                    },
                }
                let io = s.io();
                let at = io.out.len();
                io.closes = 0;
                if i % 2 == 1 {
                    s.configure(&Cfg::default().suites(2).sni("other.example"));
                }
                let r = s.connect();
                if r.code == 1 || r.err != E_READ {
                    return Err(format!("the next attempt reports {}", r.show()));
                }
                let o = s.io().out[at..].to_vec();
                hellos.push(o);
            }
            let mut parsed = vec![];
            for (n, h) in hellos.iter().enumerate() {
                let cfg = if n > 0 && i % 2 == 1 { Cfg::default().suites(2).sni("other.example") } else { base.clone() };
                parsed.push(check_hello(h, &want(&cfg))?);
            }
            for a in 0..parsed.len() {
                for b in a + 1..parsed.len() {
                    if parsed[a].random == parsed[b].random {
                        return Err(format!("attempts {} and {} share their hello random", a + 1, b + 1));
                    }
                    if parsed[a].key_shares == parsed[b].key_shares {
                        return Err(format!("attempts {} and {} share their key share", a + 1, b + 1));
                    }
                }
            }
            done(&mut s, p, "fresh");
            Ok(())
        },
    );
}
