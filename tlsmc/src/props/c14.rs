//! C14: a connection's memory is bounded, does not grow, and is all released.
use super::*;
use crate::alloc;
use crate::gen::*;
use refmodel::tls::*;
use getrandom::Answer;

/// What one object may hold at any time.
const LIMIT: i64 = 1 << 20;

fn empty() -> Result<(), String> {
    match alloc::live() {
        (0, 0) => Ok(()),
        (b, n) => Err(format!("after turtls_free {n} blocks with {b} bytes are still allocated")),
    }
}
fn within() -> Result<(), String> {
    if alloc::peak() > LIMIT {
        return Err(format!("{} bytes were allocated at a time", alloc::peak()));
    }
    Ok(())
}
/// Points the session at another server.
fn point(s: &mut Sess, stream: &[u8]) {
    let io = s.io();
    (io.rpos, io.closes, io.rcalls, io.wcalls) = (0, 0, 0, 0);
    io.out.clear();
    io.inbound.clear();
    io.inbound.extend_from_slice(stream);
    io.track = false;
}
/// How an attempt is left.
fn leave(s: &mut Sess, how: u64) {
    match how {
        0 => (),
        1 => s.close(),
        2 => {
            s.io().wplan.extend((0..9).map(|k| (k, Ans::Err(-1))));
            s.close();
        },
        _ => {
            // one more call, which finds nothing to read, or a new attempt
            s.connect();
        },
    }
}

pub fn run(c: &mut Check) {
    c.bound("one object: every behaviour of the catalogue (56, both suites) cut off after every byte of the stream, the ClientHello cut off after every byte, every behaviour with the random source failing at every call, each left alone, closed, closed over a dead transport or called again; every announced message length around powers of two with all its data sent in several record sizes; every combination of 4 sizes of the first flight, 7 of EncryptedExtensions and 7 of the certificate within one attempt, twice on one object; histories: every pair of behaviours 12 times in turn, every behaviour 100 (thorough 1000) times, with and without closing, objects configured and never connected");
    c.assume("memory is counted at the allocator: what is allocated while the thread is inside a function of the library and outside its callbacks is the library's");
    let cfgs = [
        Cfg::default().suites(1).alpn(&[b"h2"]),
        Cfg::default().suites(2).alpn(&[b"http/1.1", b"h2"]).sni("a.example"),
        Cfg { sni: Some(vec![b'n'; 200]), alpn: Some(alpn_list(&vec![&[b'x'; 200][..]; 100])), ..Cfg::default() },
    ];
    let Some(ws) = worlds(c, &cfgs) else { return };
    let suites = [1u16, 2].map(|i| if i == 1 { ws[0].suite() } else { ws[1].suite() });
    let cats: Vec<Vec<Scene>> = (0..2).map(|k| catalogue(&ws[k], suites[k])).collect();
    let n = cats[0].len();
    // --- no attempt at all
    c.space("unused", 64, |i| format!("an object configured {} times and freed", i), |i, p| {
        alloc::reset_peak();
        {
            let mut s = Sess::new(&ws[0].cfg, &ws[0].rng);
            for k in 0..i {
                s.configure(&ws[k as usize % 3].cfg);
                if k % 5 == 4 {
                    s.close();
                }
            }
            within()?;
        }
        p.steps(i);
        p.state(i);
        p.outcome("unused");
        p.trace();
        empty()
    });
    // --- one attempt, cut off anywhere
    let mut at: Vec<(usize, usize, usize)> = vec![];
    for k in 0..2 {
        for (j, s) in cats[k].iter().enumerate() {
            let l = s.stream.len();
            at.extend((0..=l).filter(|x| *x < 1200 || l - x < 200 || x % 97 == 0).map(|x| (k, j, x)));
        }
    }
    let na = at.len() as u64;
    let how = |i: u64| ["left alone", "closed", "closed over a dead transport", "called again"][i as usize];
    c.space(
        "cut-off",
        na * 4,
        |i| {
            let (k, j, x) = at[(i / 4) as usize];
            format!("'{}' up to byte {x}, then {}\n{}", cats[k][j].name, how(i % 4), ws[k].describe(&cats[k][j].stream[..x]))
        },
        |i, p| {
            let (k, j, x) = at[(i / 4) as usize];
            alloc::reset_peak();
            {
                let mut s = Sess::new(&ws[k].cfg, &ws[k].rng);
                point(&mut s, &cats[k][j].stream[..x]);
                let r = s.connect();
                leave(&mut s, i % 4);
                within()?;
                p.state(mcrt::mix(alloc::peak() as u64, mcrt::mix(alloc::live().0 as u64, r.err as u64)));
                p.steps(s.io().steps);
                p.outcome(&r.show());
            }
            p.trace();
            empty()
        },
    );
    // --- the first flight cut off
    let nh: Vec<usize> = ws.iter().map(|w| w.hello_wire.len()).collect();
    let at: Vec<(usize, usize)> = (0..3).flat_map(|k| (0..=nh[k]).filter(move |x| k < 2 || x % 7 < 2 || (x % 16389) < 10).map(move |x| (k, x))).collect();
    c.space(
        "hello-cut-off",
        at.len() as u64 * 4,
        |i| format!("the first {} bytes of the ClientHello of {:?} are written, then {}", at[(i / 4) as usize].1, ws[at[(i / 4) as usize].0].cfg, how(i % 4)),
        |i, p| {
            let (k, x) = at[(i / 4) as usize];
            alloc::reset_peak();
            {
                let mut s = Sess::new(&ws[k].cfg, &ws[k].rng);
                point(&mut s, &[]);
                s.io().wstalls = vec![x];
                let r = s.connect();
                leave(&mut s, i % 4);
                within()?;
                p.state(mcrt::mix(alloc::peak() as u64, mcrt::mix(alloc::live().0 as u64, r.err as u64)));
                p.steps(s.io().steps);
                p.outcome(&r.show());
            }
            p.trace();
            empty()
        },
    );
    // --- the random source fails
    c.space(
        "random-failure",
        (2 * n * 6 * 4) as u64,
        |i| format!("'{}' with randomness failing in call {}, then {}", cats[0][i as usize / 24 % n].name, i / 4 % 6, how(i % 4)),
        |i, p| {
            let [k, j, f, h] = digits(i, [2, n as u64, 6, 4]);
            alloc::reset_peak();
            {
                let mut rng = ws[k].rng.clone();
                if f < 5 {
                    rng[f] = Answer::Fail;
                } else {
                    rng.iter_mut().for_each(|a| *a = Answer::Bytes(vec![0; 32]));
                }
                let mut s = Sess::new(&ws[k].cfg, &rng);
                point(&mut s, &cats[k][j].stream);
                let r = s.connect();
                leave(&mut s, h as u64);
                within()?;
                p.state(mcrt::mix(alloc::peak() as u64, mcrt::mix(alloc::live().0 as u64, r.err as u64)));
                p.steps(s.io().steps);
                p.outcome(&r.show());
            }
            p.trace();
            empty()
        },
    );
    // --- everything a server can make the client keep
    let mut lens: Vec<usize> = vec![0, 1, 3, 4, 5, 100, 10_000];
    for k in 8..24 {
        let x = 1usize << k;
        lens.extend([x - 5, x - 4, x - 3, x - 1, x, x + 1]);
    }
    lens.push((1 << 24) - 1);
    let parts = [16384usize, 16000, 4096, 1000, 100];
    let where_ = ["first", "EncryptedExtensions", "Certificate"];
    let nl = lens.len() as u64;
    let big = |i: u64| -> (usize, usize, usize, usize) {
        let [k, l, z, w] = digits(i, [2, nl, parts.len() as u64, 3]);
        (k, lens[l], parts[z], w)
    };
    c.space(
        "large-messages",
        2 * nl * parts.len() as u64 * 3,
        |i| {
            let (k, l, z, w) = big(i);
            format!("a message of {l} announced bytes as {} message, sent in records of {z} bytes, {:?}", where_[w], ws[k].cfg)
        },
        |i, p| {
            let (k, l, z, w) = big(i);
            alloc::reset_peak();
            {
                let b = base(&ws[k], suites[k]);
                let mut d = b.keys.server.clone();
                let mut st = vec![];
                let mut m = vec![[2u8, 8, 11][w], (l >> 16) as u8, (l >> 8) as u8, l as u8];
                m.resize(4 + l.min(700_000), 0);
                if w > 0 {
                    st.extend_from_slice(&b.stream);
                }
                if w > 1 {
                    st.extend(d.seal(22, &ee(&[]), 0));
                }
                for q in m.chunks(z).take(3000) {
                    st.extend(if w == 0 { record(22, q) } else { d.seal(22, q, 0) });
                }
                let mut s = Sess::new(&ws[k].cfg, &ws[k].rng);
                point(&mut s, &st);
                let r = s.connect();
                within()?;
                p.state(mcrt::mix(alloc::peak() as u64, mcrt::mix(alloc::live().0 as u64, r.err as u64)));
                p.steps(s.io().steps);
                p.outcome(&r.show());
            }
            p.trace();
            empty()
        },
    );
    // --- several large messages in one attempt: what holds them grows more than once
    let hellos = [0usize, 60, 200, 250];
    let grown: Vec<Cfg> = hellos
        .iter()
        .map(|n| {
            let mut list = vec![&b"h2"[..]];
            let long = [b'x'; 255];
            list.extend(std::iter::repeat(&long[..]).take(*n));
            Cfg { alpn: Some(alpn_list(&list)), ..Cfg::default().suites(1) }
        })
        .collect();
    let Some(gs) = worlds(c, &grown) else { return };
    let groups = |n: usize| -> Vec<(u16, Vec<u8>)> {
        let mut v = vec![(n >> 8) as u8, n as u8];
        v.extend((0..n / 2).flat_map(|_| [0u8, 23]));
        vec![(10, v)]
    };
    let sizes = [0usize, 2_000, 17_000, 20_000, 40_000, 60_000, 65_520];
    let crts = [0usize, 1_000, 17_000, 40_000, 70_000, 120_000, 130_000];
    let grown_at = |i: u64| -> (usize, usize, usize, usize, u64) {
        let [h, e, k, z, how] = digits(i, [4, 7, 7, 3, 4]);
        (h, sizes[e], crts[k], [16_384usize, 3_000, 16_000][z], how as u64)
    };
    c.space(
        "several-large-messages",
        4 * 7 * 7 * 3 * 4,
        |i| {
            let (h, e, k, z, l) = grown_at(i);
            format!("{} long protocols offered, EncryptedExtensions with {e} bytes of groups, a certificate of {k} bytes, in records of {z}, then {}; twice", hellos[h], how(l))
        },
        |i, p| {
            let (h, e, k, z, l) = grown_at(i);
            alloc::reset_peak();
            {
                let w = &gs[h];
                let b = base(w, w.suite());
                let mut d = b.keys.server.clone();
                let mut st = b.stream.clone();
                let m = if e == 0 { ee(&[]) } else { ee(&groups(e)) };
                st.extend(sealed(&mut d, &m.chunks(z).collect::<Vec<_>>()));
                let m = cert_msg_of(&vec![0x30; k]);
                st.extend(sealed(&mut d, &m.chunks(z).collect::<Vec<_>>()));
                let mut s = Sess::new(&w.cfg, &w.rng);
                for round in 0..2 {
                    getrandom::set_script(w.rng.clone());
                    s.io().wplan.clear();
                    point(&mut s, &st);
                    let r = s.connect();
                    if round == 0 {
                        leave(&mut s, l);
                        s.close();
                    }
                    p.state(mcrt::mix(alloc::peak() as u64, mcrt::mix(alloc::live().0 as u64, r.err as u64)));
                    p.outcome(&r.show());
                }
                leave(&mut s, l);
                within()?;
                p.steps(s.io().steps);
            }
            p.trace();
            empty()
        },
    );
    // --- histories: what is held after a round depends on the round, not on how many there were
    let rounds = c.tier(100u64, 1000);
    let history = |w: &World, scenes: &[&[u8]], how: u64, rounds: u64, p: &mut mcrt::Probe| -> Result<(), String> {
        alloc::reset_peak();
        {
            let mut s = Sess::new(&w.cfg, &w.rng);
            let mut held = 0;
            for r in 0..rounds {
                for (q, st) in scenes.iter().enumerate() {
                    getrandom::set_script(w.rng.clone());
                    s.io().wplan.clear();
                    point(&mut s, st);
                    s.connect();
                    // ended in any case, so that the next round starts anew
                    let h = if how == 3 { (r + q as u64) % 3 } else { how };
                    leave(&mut s, [1, 2, 3][h as usize]);
                    s.close();
                }
                // period 3 in the ways of leaving
                if r == 5 {
                    held = alloc::live().0;
                } else if r > 5 && r % 3 == 2 && alloc::live().0 > held {
                    return Err(format!("after {} rounds {} bytes are held, after 6 rounds it was {held}", r + 1, alloc::live().0));
                }
            }
            within()?;
            p.state(mcrt::mix(alloc::peak() as u64, alloc::live().0 as u64));
            p.steps(s.io().steps);
            p.outcome("history");
        }
        p.trace();
        empty()
    };
    c.space(
        "repetitions",
        (2 * n * 4) as u64,
        |i| format!("'{}' {rounds} times in a row, each {}", cats[0][i as usize / 4 % n].name, ["closed", "closed over a dead transport", "called again and closed", "closed in turn in these three ways"][i as usize % 4]),
        |i, p| {
            let [k, j, h] = digits(i, [2, n as u64, 4]);
            history(&ws[k], &[&cats[k][j].stream], h as u64, rounds, p)
        },
    );
    c.space(
        "alternations",
        (2 * n * n * 2) as u64,
        |i| {
            let [k, a, b, h] = digits(i, [2, n as u64, n as u64, 2]);
            format!("'{}' and '{}' 12 times in turn, {}", cats[k][a].name, cats[k][b].name, ["closed", "closed in three ways"][h])
        },
        |i, p| {
            let [k, a, b, h] = digits(i, [2, n as u64, n as u64, 2]);
            history(&ws[k], &[&cats[k][a].stream, &cats[k][b].stream], [0, 3][h], 12, p)
        },
    );
}
