//! C09: the reported application protocol is exactly the server's valid choice.
use super::*;
use crate::gen::*;
use refmodel::tls::*;

const NAMES: [&[u8]; 8] = [b"h2", b"h", b"2", b"http/1.1", b"H2", b"h2c", b"hh", b"\x02h2"];

/// Names that are not offered as such but related to the offered ones.
fn replies() -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = NAMES.iter().map(|n| n.to_vec()).collect();
    v.extend([b"h3".to_vec(), b"http/1.".to_vec(), b"http/1.10".to_vec(), b"h2\x01h".to_vec(), b"h2\x08http/1.1".to_vec(), b"ttp/1.1".to_vec(), b"\x01h".to_vec(), vec![b'h'; 255]]);
    v
}
fn flight(w: &World, exts: &[(u16, Vec<u8>)]) -> Vec<u8> {
    body_flight(w, &exts_block(exts))
}
/// ServerHello, then EncryptedExtensions with this body.
fn body_flight(w: &World, body: &[u8]) -> Vec<u8> {
    let b = base(w, w.suite());
    let mut s = b.stream;
    let mut d = b.keys.server;
    s.extend(sealed(&mut d, &[&hs_msg(8, body)]));
    s
}

pub fn run(c: &mut Check) {
    c.bound("offers: every list of up to 3 (thorough 4) names from an alphabet of 8 that are prefixes, suffixes and case variants of each other, every single name length 1..=255, every byte value but zero in five places, none; replies: every name of the alphabet and 8 near misses, every length 1..=255 against every offered length, every protocol_name_list of up to 5 (thorough 6) bytes over {0,1,2,3,'h','2'}, every one-byte change and truncation of valid extensions, repeated and surrounding extensions; offers of up to 16000 names and 65 kB with the choice at 18 places of the list; reuse over every pair of name lengths with a third attempt that fails, waits or selects nothing; reconfiguration while the handshake is under way");
    // --- lists of names
    let depth = c.tier(3usize, 4);
    let mut offers: Vec<Option<Vec<usize>>> = vec![None];
    let mut layer: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..depth {
        layer = layer.iter().flat_map(|l| (0..NAMES.len()).map(move |k| [&l[..], &[k]].concat())).collect();
        offers.extend(layer.iter().cloned().map(Some));
    }
    let cfg = |suite: u8, names: &[&[u8]]| {
        let mut f = Cfg::default().suites(suite);
        if !names.is_empty() {
            f = f.alpn(names);
        }
        f
    };
    let cfgs: Vec<Cfg> = offers
        .iter()
        .enumerate()
        .map(|(i, o)| {
            let n: Vec<&[u8]> = o.iter().flatten().map(|k| NAMES[*k]).collect();
            cfg(1 + (i % 2) as u8, &n)
        })
        .collect();
    let Some(ws) = worlds(c, &cfgs) else { return };
    let reps = replies();
    let (no, nr) = (ws.len() as u64, reps.len() as u64);
    // the reply alone, and after and before other legal extensions
    streams(c, "lists", no * nr * 3, |i| {
        let [o, r, k] = digits(i, [no, nr, 3]);
        let a = (16, alpn_ext(&reps[r]));
        let g = (10, vec![0, 2, 0, 23]);
        let e = match k {
            0 => vec![a],
            1 => vec![g, a],
            _ => vec![a, g],
        };
        (&ws[o], flight(&ws[o], &e))
    });
    // --- lengths
    let cfgs: Vec<Cfg> = (1..=255usize).map(|n| cfg(1 + (n % 2) as u8, &[&vec![b'p'; n]])).collect();
    let Some(wl) = worlds(c, &cfgs) else { return };
    streams(c, "lengths", 255 * 255, |i| {
        let [o, r] = digits(i, [255, 255]);
        (&wl[o], flight(&wl[o], &[(16, alpn_ext(&vec![b'p'; r + 1]))]))
    });
    // same length, one byte different, at every position; every byte value at the ends
    let near: Vec<(usize, usize, u8)> = [1usize, 2, 3, 31, 32, 33, 64, 127, 128, 254, 255].iter().flat_map(|n| (0..*n).map(|p| (*n, p, 1u8))).chain((1..=255u8).flat_map(|x| [(1, 0, x), (5, 0, x), (5, 4, x), (255, 254, x)])).collect();
    streams(c, "one-byte-off", near.len() as u64, |i| {
        let (n, p, x) = near[i as usize];
        let mut r = vec![b'p'; n];
        r[p] ^= x;
        (&wl[n - 1], flight(&wl[n - 1], &[(16, alpn_ext(&r))]))
    });
    // --- every byte value (but zero, which ends a C string), at the start, inside, at the end, and twice
    let shapes: Vec<Vec<u8>> = (1..=255u8).flat_map(|x| [vec![x], vec![x, b'y'], vec![b'y', x], vec![b'h', x, b'2'], vec![x, x]]).chain([(1..=255).collect(), (1..=255).rev().collect()]).collect();
    let cfgs: Vec<Cfg> = shapes.iter().enumerate().map(|(i, n)| cfg(1 + (i % 2) as u8, &[b"h2", n])).collect();
    let Some(wb) = worlds(c, &cfgs) else { return };
    streams(c, "byte-values", wb.len() as u64 * 2, |i| {
        let [o, k] = digits(i, [wb.len(), 2].map(|x| x as u64));
        let mut n = shapes[o].clone();
        if k == 1 {
            *n.last_mut().unwrap() ^= 0x20;
        }
        (&wb[o], flight(&wb[o], &[(16, alpn_ext(&n))]))
    });
    // --- crowded offers: (number of names, length of each), one of them or a neighbour of one chosen
    let crowds = [(100usize, 3usize), (254, 2), (255, 2), (256, 2), (257, 2), (258, 2), (300, 200), (512, 3), (1000, 5), (4096, 3), (16000, 3), (255, 255)];
    let name = |k: usize, l: usize| -> Vec<u8> {
        let mut v = vec![b'.'; l];
        (v[0], v[1]) = (1 + (k % 255) as u8, 1 + (k / 255) as u8);
        v
    };
    let cfgs: Vec<Cfg> = crowds
        .iter()
        .enumerate()
        .map(|(i, (n, l))| {
            let v: Vec<Vec<u8>> = (0..*n).map(|k| name(k, *l)).collect();
            cfg(1 + (i % 2) as u8, &v.iter().map(|x| &x[..]).collect::<Vec<_>>())
        })
        .collect();
    let Some(wc) = worlds(c, &cfgs) else { return };
    let at = [0usize, 1, 126, 127, 128, 253, 254, 255, 256, 257, 258, 511, 512, 4095];
    streams(c, "crowded-offers", wc.len() as u64 * 2 * (at.len() as u64 + 4), |i| {
        let [o, near, k] = digits(i, [wc.len() as u64, 2, at.len() as u64 + 4]);
        let (n, l) = crowds[o];
        // from the front, then from the back; those behind the end were not offered
        let k = if k < at.len() { at[k] } else { n - 2 + (k - at.len()) };
        let mut v = name(k, l);
        if near == 1 {
            *v.last_mut().unwrap() ^= 0x80;
        }
        (&wc[o], flight(&wc[o], &[(16, alpn_ext(&v))]))
    });
    // --- encodings
    let enc_cfgs = [cfg(1, &[b"h2"]), cfg(2, &[b"h", b"h2", b"hh2"]), cfg(1, &[b"\x01h"]), cfg(3, &[]), cfg(3, &[b"h"]).sni("s")];
    let Some(we) = worlds(c, &enc_cfgs) else { return };
    let sym = [0u8, 1, 2, 3, b'h', b'2'];
    let maxlen = c.tier(5u32, 6);
    let words: u64 = (0..=maxlen).map(|n| 6u64.pow(n)).sum();
    let word = |mut i: u64| {
        let mut n = 0;
        while i >= 6u64.pow(n) {
            i -= 6u64.pow(n);
            n += 1;
        }
        (0..n).map(|_| { let x = sym[(i % 6) as usize]; i /= 6; x }).collect::<Vec<u8>>()
    };
    let ne = we.len() as u64;
    // the whole extension data; or the list behind a correct outer length
    streams(c, "encodings", ne * 2 * words, |i| {
        let [w, k, x] = digits(i, [ne, 2, words]);
        let mut d = word(x as u64);
        if k == 1 {
            d = [&(d.len() as u16).to_be_bytes()[..], &d].concat();
        }
        (&we[w], flight(&we[w], &[(16, d)]))
    });
    // every one-byte change and truncation of EncryptedExtensions bodies
    let bodies = [
        exts_block(&[(16, alpn_ext(b"h2"))]),
        exts_block(&[(16, alpn_ext(b"h"))]),
        exts_block(&[(10, vec![0, 2, 0, 23]), (16, alpn_ext(b"h2"))]),
        exts_block(&[(0, vec![]), (16, alpn_ext(b"h"))]),
        exts_block(&[]),
    ];
    let mut muts: Vec<Vec<u8>> = vec![];
    for b in &bodies {
        for p in 0..b.len() {
            for x in 0..=255u8 {
                let mut m = b.clone();
                m[p] = x;
                muts.push(m);
            }
            muts.push(b[..p].to_vec());
            muts.push([&b[..p], &b[p + 1..]].concat());
            for x in [0, 1, 2, 16, 255] {
                muts.push([&b[..p], &[x], &b[p..]].concat());
            }
        }
        muts.push([&b[..], &[0]].concat());
    }
    let nm = muts.len() as u64;
    streams(c, "body-changes", ne * nm, |i| {
        let [w, m] = digits(i, [ne, nm]);
        (&we[w], body_flight(&we[w], &muts[m]))
    });
    // two replies: repeated, different, first or second bad; around others
    let dup: Vec<Vec<u8>> = [&b"h2"[..], b"h", b"hh2", b"x", b""].iter().map(|n| alpn_ext(n)).chain([vec![], vec![0, 0]]).collect();
    let nd = dup.len() as u64;
    streams(c, "two-replies", ne * nd * nd * 4, |i| {
        let [w, a, b, k] = digits(i, [ne, nd, nd, 4]);
        let (a, b) = ((16, dup[a].clone()), (16, dup[b].clone()));
        let g = (10, vec![0, 2, 0, 23]);
        let e = match k {
            0 => vec![a, b],
            1 => vec![a, g, b],
            2 => vec![a, b.clone(), b],
            // the same extension number in a second list is not a list
            _ => vec![a, (17, b.1)],
        };
        (&we[w], flight(&we[w], &e))
    });
    // the reply in a message it does not belong to
    streams(c, "in-the-server-hello", ne * nd, |i| {
        let [w, a] = digits(i, [ne, nd]);
        let mut sh = we[w].server_hello(we[w].suite());
        sh.exts.push((16, dup[a].clone()));
        (&we[w], probe_hello(&we[w], record(22, &sh.msg())))
    });
    // --- every fragmentation of the message into records and reads still reports the name
    let b = base(&wl[4], wl[4].suite());
    let m = ee(&[(16, alpn_ext(b"ppppp"))]);
    let masks = 1u64 << c.tier(14, (m.len() - 1).min(17));
    streams(c, "fragmented", masks, |i| {
        let mut d = b.keys.server.clone();
        let mut s = b.stream.clone();
        s.extend(sealed(&mut d, &cut_mask(&m, i)));
        (&wl[4], s)
    });

    // --- reuse: name of length a, then of length b, then a third attempt
    let third = |w: &World, k: usize| -> Vec<u8> {
        match k {
            0 => flight(w, &[]),
            1 => base(w, w.suite()).stream,
            2 => flight(w, &[(16, alpn_ext(b"nope"))]),
            3 => record(21, &[2, 40]),
            4 => flight(w, &[(16, vec![0, 3, 2, b'p'])]),
            _ => vec![],
        }
    };
    let step = c.tier(5u64, 1);
    let nl = 255 / step;
    c.space("reuse", nl * nl * 6, |i| {
        let [a, b, k] = digits(i, [nl, nl, 6]);
        format!("names of {} then {} bytes, then third attempt {k} (0 no protocol, 1 waiting, 2 not offered, 3 alert, 4 malformed, 5 silence)", (a as u64 + 1) * step, (b as u64 + 1) * step)
    }, |i, p| {
        let [a, b, k] = digits(i, [nl, nl, 6]);
        let idx = |x: usize| (x + 1) * step as usize - 1;
        let mut s = Sess::new(&wl[0].cfg, &[]);
        let mut label = String::new();
        for (n, w) in [&wl[idx(a)], &wl[idx(b)], &wl[idx(a)]].into_iter().enumerate() {
            let st = if n < 2 { flight(w, &[(16, alpn_ext(&w.offer.alpn[0]))]) } else { third(w, k) };
            let v = w.verdict(&st);
            s.configure(&w.cfg);
            getrandom::set_script(w.rng.clone());
            let io = s.io();
            (io.rpos, io.closes) = (0, 0);
            io.out.clear();
            io.inbound = st;
            let ret = s.connect();
            label = judge(w, &v, &mut s, &ret).map_err(|e| format!("attempt {}: {e}", n + 1))?;
            if n < 2 || ret.wants() {
                s.close();
            }
            let kept = s.app_proto()?;
            if !kept.is_empty() && !w.offer.alpn.contains(&kept) {
                return Err(format!("after attempt {} the protocol is {kept:?}, which that attempt did not offer", n + 1));
            }
        }
        done(&mut s, p, &label);
        Ok(())
    });
    // --- the configuration changes while the handshake is under way: the offer is what was sent
    let base_cfgs = [cfg(1, &[b"h2"]), cfg(2, &[b"h2", b"http/1.1"]), cfg(1, &[])];
    let Some(wr) = worlds(c, &base_cfgs) else { return };
    let others = [cfg(1, &[]), cfg(1, &[b"http/1.1"]), cfg(2, &[b"h2"]), cfg(1, &[b"x", b"y", b"z"]).sni("late")];
    let sel: [&[u8]; 5] = [b"h2", b"http/1.1", b"x", b"h", b""];
    c.space("reconfigured-while-waiting", 3 * 4 * 5 * 3, |i| {
        let [w, o, r, at] = digits(i, [3, 4, 5, 3]);
        format!("offer {:?}, then at point {at} the configuration becomes {:?}, the server answers {:?}", base_cfgs[w], others[o], sel[r])
    }, |i, p| {
        let [w, o, r, at] = digits(i, [3, 4, 5, 3]);
        let w = &wr[w];
        let st = if sel[r].is_empty() { flight(w, &[]) } else { flight(w, &[(16, alpn_ext(sel[r]))]) };
        let v = w.verdict(&st);
        let sh = base(w, w.suite()).stream.len();
        let mut s = Sess::new(&w.cfg, &w.rng);
        s.io().inbound = st[..[0, 50, sh][at]].to_vec();
        let first = s.connect();
        if !first.wants() {
            return Err(format!("first call returned {}", first.show()));
        }
        s.configure(&others[o]);
        s.io().inbound = st;
        let ret = s.connect();
        let label = judge(w, &v, &mut s, &ret)?;
        done(&mut s, p, &label);
        Ok(())
    });
}
