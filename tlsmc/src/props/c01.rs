//! C01: no server input can crash, hang or corrupt the client.
use super::*;
use crate::gen::*;
use refmodel::tls::*;

#[derive(PartialEq, Eq)]
struct Seen {
    ret: Ret,
    out: Vec<u8>,
    consumed: usize,
    closes: u32,
    proto: Vec<u8>,
}
/// One healthy transport, one server stream; then the same object is closed, connected again to
/// silence, and freed. Only what the property promises is demanded of the results.
fn survive(w: &World, stream: &[u8], scribble: Option<u8>, read: Ans, p: Option<&mut mcrt::Probe>) -> Result<Seen, String> {
    let mut s = Sess::new(&w.cfg, &w.rng);
    let io = s.io();
    io.track = p.is_some();
    io.inbound = stream.to_vec();
    io.scribble = scribble;
    io.rdefault = read;
    let ret = s.connect();
    documented(&ret)?;
    let io = s.io();
    let pieces = match read {
        Ans::Short(n) => stream.len() / n.max(1) + 1,
        _ => 0,
    };
    // every byte may be asked for separately, and the end once more
    if io.rcalls as usize > 2 * (stream.len() + pieces) + 4 || io.wcalls > 8 {
        return Err(format!("{} reads and {} writes for {} bytes", io.rcalls, io.wcalls, stream.len()));
    }
    let mut seen = Seen { ret, out: io.out.clone(), consumed: io.rpos, closes: io.closes, proto: vec![] };
    seen.proto = s.app_proto()?;
    // nothing more arrives: asking again changes nothing and ends
    if ret.wants() {
        for _ in 0..2 {
            let again = s.connect();
            if again != ret || s.io().out.len() != seen.out.len() {
                return Err(format!("without new data connect returned {} after {}", again.show(), ret.show()));
            }
        }
    }
    if let Some(p) = p {
        s.close();
        getrandom::set_script(w.rng.clone());
        s.io().inbound.clear();
        s.io().rpos = 0;
        documented(&s.connect())?;
        done(&mut s, p, &ret.show());
    }
    Ok(seen)
}
fn documented(r: &Ret) -> Result<(), String> {
    let ok = r.code == 1 || (r.code == -1 && (0..=6).contains(&r.err) && (r.err > 1 || all_alerts().contains(&(r.alert as u8)) && r.alert < 256));
    if !ok {
        return Err(format!("result {}, error {}, alert {}", r.code, r.err, r.alert));
    }
    if r.err <= 1 && r.code == -1 && stringify(r.alert).is_empty() {
        return Err("the alert has no description".into());
    }
    Ok(())
}
/// With exact reads, and with reads that use the whole buffer they were given.
fn both(w: &World, stream: &[u8], p: &mut mcrt::Probe) -> Result<(), String> {
    let a = survive(w, stream, None, Ans::Full, Some(p))?;
    let b = survive(w, stream, Some(0xee), Ans::Short(3 + stream.len() / 8), None)?;
    if a != b {
        return Err(format!("a read callback that uses its whole buffer changes the result: {} and {} bytes written instead of {} and {}", b.ret.show(), b.out.len(), a.ret.show(), a.out.len()));
    }
    Ok(())
}
fn space<'a>(c: &mut Check, name: &str, n: u64, mk: impl Fn(u64) -> (&'a World, Vec<u8>)) {
    c.space(name, n, |i| { let (w, s) = mk(i); w.describe(&s) }, |i, p| { let (w, s) = mk(i); both(w, &s, p) });
}

pub fn run(c: &mut Check) {
    c.bound("every stream of up to 2 (thorough 3) bytes and every record with up to 2 content bytes, clear and protected; every record type with boundary lengths, versions and fills; every sequence of up to 5 (thorough 6) records out of 15 kinds before and out of 17 kinds after the key change; every one-byte change of a server flight before protection, for 4 configurations; handshake headers of every type with all boundary lengths, with the announced data missing, partly there or complete, in fragments of several sizes; floods of ignored records and tiny fragments; truncation everywhere");
    c.assume("memory errors show as panics of the checked build, as a broken canary behind every heap allocation, as effects of filled released memory, or as effects of read callbacks that overwrite the whole buffer they were given");
    let mut long = Cfg::default().suites(3).alpn(&[b"h2", &[b'z'; 255]]);
    long.sni = Some(vec![b'a'; 1000]);
    let cfgs = [Cfg::default().suites(1).alpn(&[b"h2"]), Cfg::default().suites(2), long, Cfg::default().suites(2).alpn(&[b"h2"]).sni("host")];
    let Some(ws) = worlds(c, &cfgs) else { return };
    let bases: Vec<Base> = ws.iter().map(|w| base(w, w.suite())).collect();
    let h2: Vec<Vec<u8>> = ws.iter().map(|w| if w.offer.alpn.is_empty() { ee(&[(10, vec![0, 2, 0, 23])]) } else { ee(&[(16, alpn_ext(b"h2"))]) }).collect();
    let crt = cert_msg();

    // --- tiny streams
    let depth = c.tier(2u32, 3);
    let n: u64 = (0..=depth).map(|d| 256u64.pow(d)).sum();
    let bytes = |mut i: u64| {
        let mut d = 0;
        while i >= 256u64.pow(d) {
            i -= 256u64.pow(d);
            d += 1;
        }
        (0..d).map(|k| (i >> (8 * k)) as u8).collect::<Vec<u8>>()
    };
    space(c, "tiny-streams", n, |i| (&ws[0], bytes(i)));
    let n2 = 1 + 256 + 65536u64;
    space(c, "tiny-records", n2 * 5, |i| {
        let [k, b] = digits(i, [5, n2]);
        let body = bytes(b as u64);
        match k {
            0 => (&ws[0], record(22, &body)),
            1 => (&ws[1], record(21, &body)),
            2 => (&ws[0], record(20, &body)),
            // content and type bytes under protection, at both remaining stages
            3 => {
                let mut d = bases[1].keys.server.clone();
                (&ws[1], [&bases[1].stream[..], &d.seal_inner(&body)].concat())
            },
            _ => {
                let mut d = bases[0].keys.server.clone();
                (&ws[0], [&bases[0].stream[..], &d.seal(22, &h2[0], 0), &d.seal_inner(&body)].concat())
            },
        }
    });
    // --- record headers
    let lens = [0usize, 1, 2, 3, 4, 5, 15, 16, 17, 18, 255, 256, 257, 16383, 16384, 16385, 16640, 16641, 32768, 65535];
    let vers = [[3u8, 3], [3, 1], [0, 0], [255, 255]];
    let nl = lens.len() as u64;
    space(c, "record-headers", 2 * 256 * nl * 4 * 3, |i| {
        let [st, t, l, v, f] = digits(i, [2, 256, nl, 4, 3]);
        let mut s = if st == 0 { vec![] } else { bases[1].stream.clone() };
        let l = lens[l];
        s.extend([t as u8, vers[v][0], vers[v][1], (l >> 8) as u8, l as u8]);
        match f {
            0 => (),
            1 => s.extend(vec![0; l.saturating_sub(1)]),
            _ => s.extend(bases[1].sh.iter().cycle().take(l + 6)),
        }
        (&ws[1], s)
    });
    // --- sequences of records before the keys
    let sh = &bases[0].sh;
    let kinds: Vec<Vec<u8>> = vec![
        record(20, &[1]),
        record(20, &[]),
        record(20, &[2]),
        record(21, &[1, 0]),
        record(21, &[2]),
        record(22, sh),
        record(22, &sh[..40]),
        record(22, &sh[40..]),
        record(22, &sh[..1]),
        record(22, &[]),
        record(22, &[8, 0, 0, 0]),
        record(22, &[2, 0, 0, 0]),
        record(22, &[2, 1, 0xff, 0xff]),
        record(23, &[0; 20]),
        vec![22, 3, 3, 0x40, 0, 2],
    ];
    let k = kinds.len() as u64;
    let depth = c.tier(4u32, 6);
    space(c, "record-sequences", k.pow(depth), |i| {
        let mut x = i;
        let mut s = vec![];
        for _ in 0..depth {
            s.extend_from_slice(&kinds[(x % k) as usize]);
            x /= k;
        }
        (&ws[0], s)
    });
    // --- and after them
    let k = 17u64;
    let depth = c.tier(4u32, 5);
    space(c, "protected-sequences", 2 * k.pow(depth), |i| {
        let b = (i % 2) as usize;
        let mut x = i / 2;
        let mut s = bases[b].stream.clone();
        let mut d = bases[b].keys.server.clone();
        let h = &h2[b];
        for _ in 0..depth {
            let r = match x % k {
                0 => d.seal(22, h, 0),
                1 => d.seal(22, &h[..3], 0),
                2 => d.seal(22, &h[3..], 9),
                3 => d.seal(22, &crt, 0),
                4 => d.seal(22, &crt[..50], 0),
                5 => d.seal(22, &crt[50..], 0),
                6 => d.seal(22, &[], 0),
                7 => d.seal_inner(&[0, 0, 0]),
                8 => d.seal(21, &[1, 90], 0),
                9 => d.seal(21, &[], 0),
                10 => d.seal(23, b"data", 0),
                11 => d.seal(22, &[11, 2, 0, 0], 0),
                12 => record(20, &[1]),
                13 => record(22, h),
                14 => record(23, &[7; 16]),
                15 => {
                    let mut r = d.seal(22, h, 0);
                    r[6] ^= 1;
                    r
                },
                _ => d.seal(22, &vec![3; 16384], 0),
            };
            s.extend(r);
            x /= k;
        }
        (&ws[b], s)
    });
    // --- one-byte changes of the messages before protection
    let mut at: Vec<(usize, usize, usize)> = vec![];
    for b in 0..4 {
        for (m, n) in [bases[b].stream.len(), h2[b].len(), crt.len()].into_iter().enumerate() {
            at.extend((0..n).filter(|p| b == 0 || m < 2 || *p < 60).map(|p| (b, m, p)));
        }
    }
    let flight = |b: usize, m: usize, change: &dyn Fn(&mut Vec<u8>)| {
        let mut parts = [bases[b].stream.clone(), h2[b].clone(), crt.clone()];
        change(&mut parts[m]);
        let mut d = bases[b].keys.server.clone();
        let [a, e, k] = parts;
        [a, sealed(&mut d, &[&e]), sealed(&mut d, &[&k])].concat()
    };
    space(c, "one-byte-changes", at.len() as u64 * 256, |i| {
        let (b, m, p) = at[(i / 256) as usize];
        (&ws[b], flight(b, m, &|x| x[p] = i as u8))
    });
    space(c, "cuts", at.len() as u64 * 3, |i| {
        let (b, m, p) = at[(i / 3) as usize];
        let f = flight(b, m, &|x| match i % 3 {
            0 => x.truncate(p),
            1 => drop(x.remove(p)),
            _ => x.insert(p, 0),
        });
        (&ws[b], f)
    });
    // pairs of changed length bytes: whatever two lengths say about each other
    let vals = [0u8, 1, 2, 0x20, 0x41, 0x7f, 0x80, 0xff];
    let pairs: Vec<(usize, usize, usize)> = {
        let mut v = vec![];
        for (m, n) in [(0usize, bases[3].stream.len()), (1, h2[3].len())] {
            let pos: Vec<usize> = (0..n).filter(|p| m == 1 || *p < 11 || (43..58).contains(p) || *p >= n - 80 && *p < n - 60).collect();
            for a in &pos {
                for b in &pos {
                    if a < b {
                        v.push((m, *a, *b));
                    }
                }
            }
        }
        v
    };
    space(c, "two-byte-changes", pairs.len() as u64 * 64, |i| {
        let (m, a, b) = pairs[(i / 64) as usize];
        let (x, y) = (vals[(i / 8 % 8) as usize], vals[(i % 8) as usize]);
        (&ws[3], flight(3, m, &|z| { z[a] = x; z[b] = y; }))
    });
    // --- announced lengths
    let mut ann: Vec<usize> = vec![0, 1, 2, 3, 4, 34, 35, 38, 39, 40, 41, 42, 43, 100, 1000, 0x1ff00, 0x1fffb, 0x1fffc, 0x1fffd, 0x20003, 0x20004, 0x20005];
    for b in 8..24 {
        ann.extend([(1 << b) - 1, 1 << b, (1 << b) + 1]);
    }
    ann.push((1 << 24) - 1);
    ann.sort();
    ann.dedup();
    let types = [0u8, 1, 2, 4, 8, 11, 13, 20, 255];
    let frag = [16384usize, 16383, 4097];
    let (na, nt) = (ann.len() as u64, types.len() as u64);
    space(c, "announced-lengths", 3 * nt * na * 3 * 4, |i| {
        let [st, t, l, f, much] = digits(i, [3, nt, na, 3, 4]);
        let b = (i % 2) as usize;
        let len = ann[l];
        let give = match much {
            0 => 0,
            1 => len / 2,
            2 => len.saturating_sub(1),
            _ => len,
        }
        .min(140_000);
        let mut m = vec![types[t], (len >> 16) as u8, (len >> 8) as u8, len as u8];
        m.extend(vec![3; give]);
        let mut s = vec![];
        let mut d = bases[b].keys.server.clone();
        if st > 0 {
            s.extend_from_slice(&bases[b].stream);
        }
        if st > 1 {
            s.extend(d.seal(22, &h2[b], 0));
        }
        for p in m.chunks(frag[f]) {
            s.extend(if st == 0 { record(22, p) } else { d.seal(22, p, 0) });
        }
        (&ws[b], s)
    });
    // --- floods
    let count = c.tier(20_000usize, 200_000);
    space(c, "floods", 12, |i| {
        let b = (i % 2) as usize;
        let mut d = bases[b].keys.server.clone();
        let mut s = vec![];
        match i / 2 {
            0 => s.extend(record(20, &[1]).repeat(count)),
            1 => {
                s.extend_from_slice(&bases[b].stream);
                s.extend(record(20, &[1]).repeat(count));
            },
            2 => {
                let mut m = vec![2, 0x01, 0xff, 0xf0];
                m.extend(vec![0; count]);
                s.extend(m.iter().flat_map(|x| record(22, &[*x])));
            },
            3 => {
                s.extend_from_slice(&bases[b].stream);
                let mut m = vec![8, 0x01, 0xff, 0xf0];
                m.extend(vec![0; count / 4]);
                s.extend(m.iter().flat_map(|x| d.seal(22, &[*x], 0)));
            },
            4 => {
                s.extend_from_slice(&bases[b].stream);
                for x in &h2[b] {
                    s.extend(record(20, &[1]).repeat(50));
                    s.extend(d.seal(22, &[*x], 1000));
                }
            },
            _ => s.extend([22, 3, 3, 0, 1, 2].repeat(count)),
        }
        (&ws[b], s)
    });
    // --- the catalogue, cut at every byte
    let cats: Vec<Vec<Scene>> = [0, 3].iter().map(|b| catalogue(&ws[*b], ws[*b].suite())).collect();
    let mut cuts = vec![];
    for b in 0..2 {
        for (k, sc) in cats[b].iter().enumerate() {
            let n = sc.stream.len();
            cuts.extend((0..=n).filter(|x| n < 3000 || *x < 300 || x % 211 == 0 || n - x < 30).map(|x| (b, k, x)));
        }
    }
    space(c, "truncations", cuts.len() as u64, |i| {
        let (b, k, x) = cuts[i as usize];
        (&ws[b * 3], cats[b][k].stream[..x].to_vec())
    });
}
