//! C08: a reused connection object behaves like a fresh one.
use super::*;
use crate::gen::*;
use getrandom::Answer;

/// How one connection attempt goes and is ended.
#[derive(Clone, Debug, Default)]
struct Act {
    world: usize,
    scene: usize,
    /// Only this much of the scene arrives.
    upto: Option<usize>,
    /// The write of the ClientHello stops here.
    wstop: Option<usize>,
    /// Sizes and failures of the transport.
    rsize: usize,
    stalls: bool,
    /// The random source misbehaves instead: see `bad`.
    bad: Option<usize>,
    /// End with a failing transport (the alert of an error or of close cannot be written).
    dead: bool,
    /// Not closed where the attempt ended by itself.
    left: bool,
}
/// Everything an observer can tell about one attempt.
#[derive(PartialEq, Eq)]
struct Seen {
    out: Vec<u8>,
    rets: Vec<Ret>,
    proto: Vec<u8>,
    consumed: usize,
    closes: u32,
    late: u32,
    /// What turtls_close added.
    closed: Vec<u8>,
    closes_after: u32,
}
impl Seen {
    fn show(&self) -> String {
        let r: Vec<_> = self.rets.iter().map(|r| r.show()).collect();
        format!("results {r:?}, protocol {:?}, read {} bytes, {} closes, wrote {}, then on close {} closes and {}", String::from_utf8_lossy(&self.proto), self.consumed, self.closes, short_hex(&self.out), self.closes_after, short_hex(&self.closed))
    }
}
fn bad(k: usize, rng: &[Answer]) -> Vec<Answer> {
    let mut r = rng.to_vec();
    match k {
        0 => r.iter_mut().for_each(|a| *a = Answer::Fail),
        1 => r[0] = Answer::Fail,
        2 => r[1] = Answer::Fail,
        3 => r[2] = Answer::Fail,
        _ => r.iter_mut().for_each(|a| *a = Answer::Bytes(vec![0; 32])),
    }
    r
}
/// One attempt on this object: fresh transport, the given inputs.
fn attempt(s: &mut Sess, ws: &[World], cats: &[Vec<Scene>], a: &Act) -> Result<Seen, String> {
    let w = &ws[a.world];
    s.configure(&w.cfg);
    getrandom::set_script(match a.bad {
        None => w.rng.clone(),
        Some(k) => bad(k, &w.rng),
    });
    let io = s.io();
    (io.rpos, io.closes, io.io_after_close, io.rcalls, io.wcalls, io.faults) = (0, 0, 0, 0, 0, 0);
    io.out.clear();
    io.inbound = cats[a.world][a.scene].stream.clone();
    if let Some(n) = a.upto {
        io.inbound.truncate(n);
    }
    io.rdefault = if a.rsize > 0 { Ans::Short(a.rsize) } else { Ans::Full };
    io.wdefault = if a.rsize > 0 { Ans::Short(a.rsize + 6) } else { Ans::Full };
    io.rstalls = if a.stalls { (0..io.inbound.len()).step_by(a.rsize.max(1)).collect() } else { vec![] };
    io.wstalls = match a.wstop {
        Some(n) => vec![n],
        None if a.stalls => (0..w.hello_wire.len()).step_by(37).collect(),
        None => vec![],
    };
    io.wplan.clear();
    if a.dead {
        io.wplan.extend((1..9).map(|k| (k, Ans::Err(-1))));
    }
    let mut rets = vec![];
    loop {
        let before = s.io().faults;
        let r = s.connect();
        if !a.stalls || rets.last() != Some(&r) {
            rets.push(r);
        }
        if !a.stalls || !r.wants() || s.io().faults == before {
            break;
        }
    }
    let proto = s.app_proto()?;
    let io = s.io();
    let (out, consumed, closes, n) = (io.out.clone(), io.rpos, io.closes, io.out.len());
    // what has ended by itself needs no close
    if !a.left || rets.last().unwrap().wants() {
        s.close();
    }
    let io = s.io();
    Ok(Seen { out, rets, proto, consumed, closes, late: io.io_after_close, closed: io.out[n..].to_vec(), closes_after: io.closes })
}
fn history(ws: &[World], cats: &[Vec<Scene>], h: &[Act], p: &mut mcrt::Probe) -> Result<(), String> {
    let mut s = Sess::new(&ws[h[0].world].cfg, &[]);
    let last = h.last().unwrap();
    let mut got = attempt(&mut s, ws, cats, &h[0])?;
    for a in &h[1..] {
        got = attempt(&mut s, ws, cats, a)?;
    }
    let mut f = Sess::new(&Cfg::default(), &[]);
    f.io().track = false;
    let want = attempt(&mut f, ws, cats, last)?;
    if got.late > 0 {
        return Err("transport used after the close callback".into());
    }
    if got != want {
        return Err(format!("a fresh object: {}\nthe reused one: {}", want.show(), got.show()));
    }
    let label = format!("attempt {} {}", h.len(), got.rets.last().unwrap().show());
    done(&mut s, p, &label);
    Ok(())
}

pub fn run(c: &mut Check) {
    c.bound("histories of 2 attempts over all pairs, and of 3 attempts over all triples, of the catalogue of server behaviours (56) with changing configurations; first attempts broken off by turtls_close after every number of inbound bytes and every number of written bytes; first attempts failing locally (random source, missing extensions, dead transport); one attempt of every behaviour after 1000 (thorough 5000) others, after 66000 for local failures and for some other ways to end; second attempts with segmented and stalling transports");
    let mk = |cfg: Cfg, n: u8, key: u8| {
        let rng = distinct_rng(n, key);
        (cfg, rng, [5, 0, 0, 0], Some([key as u64, 0, 0, 0]))
    };
    let mut long = Cfg::default().suites(3).alpn(&[b"x", b"h2"]);
    long.sni = Some(vec![b'a'; 17000]);
    let setups = [
        mk(Cfg::default().suites(1).alpn(&[b"h2"]), 1, 3),
        mk(Cfg::default().suites(2).alpn(&[b"h2", b"http/1.1"]).sni("host.example"), 2, 6),
        mk(long, 3, 7),
        mk(Cfg::default().suites(3).alpn(&[b"spdy", b"h2"]).sni("a"), 4, 9),
    ];
    let Some(ws) = worlds_with(c, &setups) else { return };
    let nw = ws.len() as u64;
    let cats: Vec<Vec<Scene>> = ws.iter().map(|w| catalogue(w, w.suite())).collect();
    let nc = cats[0].len() as u64;
    let describe = |h: &[Act]| {
        let mut o = String::new();
        for a in h {
            o += &format!("attempt '{}' {a:?}\n{}\n", cats[a.world][a.scene].name, ws[a.world].describe(&cats[a.world][a.scene].stream));
        }
        o
    };
    let space = |c: &mut Check, name: &str, n: u64, mk: &dyn Fn(u64) -> Vec<Act>| {
        c.space(name, n, |i| describe(&mk(i)), |i, p| history(&ws, &cats, &mk(i), p));
    };
    let act = |world: usize, scene: usize| Act { world, scene, ..Act::default() };

    space(c, "pairs", nw * nc * nw * nc, &|i| {
        let [a, b, d, e] = digits(i, [nw, nc, nw, nc]);
        vec![act(a, b), act(d, e)]
    });
    // three attempts: worlds 0 1 0 and 1 1 1
    let shapes = c.tier(vec![[0, 1, 0]], vec![[0, 1, 0], [1, 1, 1], [0, 0, 0], [1, 0, 3], [3, 1, 1], [2, 0, 1]]);
    space(c, "triples", shapes.len() as u64 * nc * nc * nc, &|i| {
        let [s, a, b, d] = digits(i, [shapes.len() as u64, nc, nc, nc]);
        vec![Act { left: true, ..act(shapes[s][0], a) }, Act { left: true, ..act(shapes[s][1], b) }, act(shapes[s][2], d)]
    });
    // broken off after every inbound byte
    let scene = |n: &str| cats[0].iter().position(|s| s.name == n).unwrap();
    let flights: Vec<usize> = ["flight", "fragmented flight with change_cipher_spec", "coalesced flight"].iter().map(|n| scene(n)).collect();
    let next: Vec<(usize, usize)> = (0..2).flat_map(|w| (0..nc as usize).step_by(c.tier(5, 1)).map(move |k| (w, k))).chain([(0, flights[1]), (1, flights[0]), (0, 3), (1, 4), (3, flights[0])]).collect();
    let mut cut = vec![];
    for w in 0..2 {
        for &k in &flights {
            for n in 0..cats[w][k].stream.len() {
                cut.push(Act { upto: Some(n), ..act(w, k) });
                cut.push(Act { upto: Some(n), dead: true, ..act(w, k) });
            }
        }
    }
    let nn = next.len() as u64;
    space(c, "broken-off-reading", cut.len() as u64 * nn, &|i| {
        let [a, b] = digits(i, [cut.len() as u64, nn]);
        vec![cut[a].clone(), act(next[b].0, next[b].1)]
    });
    // while writing
    let mut cut = vec![];
    for w in 0..ws.len() {
        let n = ws[w].hello_wire.len();
        for x in (0..n).filter(|x| n < 1000 || *x < 40 || n - x < 300 || x % 997 == 0 || (16380..16400).contains(x)) {
            cut.push(Act { wstop: Some(x), ..act(w, flights[0]) });
            cut.push(Act { wstop: Some(x), dead: true, ..act(w, flights[0]) });
        }
    }
    space(c, "broken-off-writing", cut.len() as u64 * nn, &|i| {
        let [a, b] = digits(i, [cut.len() as u64, nn]);
        vec![cut[a].clone(), act(next[b].0, next[b].1)]
    });
    // local failures and dead transports first
    let mut first: Vec<Act> = vec![];
    for w in 0..ws.len() {
        for k in 0..5 {
            first.push(Act { bad: Some(k), ..act(w, 6) });
        }
        for k in 0..nc as usize {
            first.push(Act { dead: true, ..act(w, k) });
            first.push(Act { rsize: 1, stalls: true, ..act(w, k) });
        }
    }
    let nf = first.len() as u64;
    space(c, "after-local-failures", nf * 2 * nc * 2, &|i| {
        let [a, w, k, left] = digits(i, [nf, 2, nc, 2]);
        vec![Act { left: left == 1, ..first[a].clone() }, act(w, k)]
    });
    // many attempts of one kind first: beyond one-byte and two-byte counts
    let mut many: Vec<(Act, u32)> = vec![];
    many.push((act(0, 3), 66000));
    many.push((act(0, flights[0]), 66000));
    many.push((Act { upto: Some(200), ..act(1, flights[0]) }, 66000));
    for k in 0..nc as usize {
        many.push((act(k % 2, k), c.tier(1000, 5000)));
        many.push((Act { upto: Some(cats[0][flights[0]].stream.len() * k / nc as usize), ..act(0, flights[0]) }, c.tier(1000, 5000)));
    }
    for x in [0, 1, 5, 40] {
        many.push((Act { wstop: Some(x), ..act(1, flights[0]) }, c.tier(1000, 5000)));
    }
    for k in 0..5 {
        many.push((Act { bad: Some(k), ..act(k % 2, flights[0]) }, 66000));
    }
    c.case_seconds = 600;
    c.items("many-attempts", &many, |(a, n)| format!("{n} times, then a flight for the other configuration\n{}", describe(&[a.clone()])), |(a, n), p| {
        let mut s = Sess::new(&ws[a.world].cfg, &[]);
        for _ in 0..*n {
            attempt(&mut s, &ws, &cats, a)?;
        }
        let last = act(1 - a.world.min(1), flights[0]);
        let got = attempt(&mut s, &ws, &cats, &last)?;
        let mut f = Sess::new(&Cfg::default(), &[]);
        f.io().track = false;
        let want = attempt(&mut f, &ws, &cats, &last)?;
        if got != want {
            return Err(format!("a fresh object: {}\nthe reused one: {}", want.show(), got.show()));
        }
        p.steps(*n as u64);
        done(&mut s, p, "attempt after many");
        Ok(())
    });
    c.case_seconds = 30;
    // the second attempt in pieces
    let sizes = c.tier(vec![1, 2, 5, 16], (1..40).collect::<Vec<_>>());
    let ns = sizes.len() as u64;
    space(c, "pieces", nc * 2 * nc * ns * 2, &|i| {
        let [a, w, b, r, st] = digits(i, [nc, 2, nc, ns, 2]);
        vec![act(0, a), Act { rsize: sizes[r], stalls: st == 1, ..act(w, b) }]
    });
}
