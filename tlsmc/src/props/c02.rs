//! C02: the outcome does not depend on how the transport segments and stalls.
use super::*;
use crate::gen::*;
use getrandom::Answer;

/// Everything an observer can tell about a finished run.
#[derive(PartialEq, Eq, Debug, Clone)]
struct Seen {
    out: Vec<u8>,
    ret: Ret,
    proto: Vec<u8>,
    closes: u32,
    consumed: usize,
}
impl Seen {
    fn show(&self) -> String {
        format!("{}, protocol {:?}, {} closes, read {} bytes, wrote {} bytes: {}", self.ret.show(), String::from_utf8_lossy(&self.proto), self.closes, self.consumed, self.out.len(), short_hex(&self.out))
    }
}
#[derive(Clone, Debug, Default)]
struct Plan {
    rdefault: Option<Ans>,
    wdefault: Option<Ans>,
    rplan: Vec<(u64, Ans)>,
    wplan: Vec<(u64, Ans)>,
    rstalls: Vec<usize>,
    wstalls: Vec<usize>,
    eof: isize,
}
fn observe(w: &World, stream: &[u8], pl: &Plan, p: Option<&mut mcrt::Probe>) -> Result<(Seen, u64), String> {
    let mut s = Sess::new(&w.cfg, &w.rng);
    let io = s.io();
    io.track = p.is_some();
    io.inbound = stream.to_vec();
    io.rdefault = pl.rdefault.unwrap_or(Ans::Full);
    io.wdefault = pl.wdefault.unwrap_or(Ans::Full);
    io.rplan = pl.rplan.iter().copied().collect();
    io.wplan = pl.wplan.iter().copied().collect();
    io.rstalls = pl.rstalls.clone();
    io.wstalls = pl.wstalls.clone();
    io.eof_value = pl.eof;
    let ret = s.connect_through_faults();
    if s.io().io_after_close > 0 {
        return Err("transport used after the close callback".into());
    }
    let proto = s.app_proto()?;
    let io = s.io();
    let seen = Seen { out: io.out.clone(), ret, proto, closes: io.closes, consumed: io.rpos };
    let calls = io.rcalls + io.wcalls;
    if let Some(p) = p {
        let label = format!("{} after {} interruptions", if ret.wants() { "waits" } else { "ends" }, io.faults.min(3));
        done(&mut s, p, &label);
    }
    Ok((seen, calls))
}
fn compare(w: &World, stream: &[u8], want: &Seen, pl: &Plan, p: &mut mcrt::Probe) -> Result<(), String> {
    let (got, _) = observe(w, stream, pl, Some(p))?;
    if got != *want {
        return Err(format!("with an undisturbed transport: {}\nwith this one: {}", want.show(), got.show()));
    }
    Ok(())
}

pub fn run(c: &mut Check) {
    c.bound("every server behaviour of the catalogue (56, both suites) with: every uniform read and write size to the stated bound, every single transport call answered short or with a failure (and every pair of such deviations), a failure at every byte offset of the inbound and of the outbound stream, at every pair of inbound offsets, of outbound offsets, and of an inbound and an outbound one for selected behaviours, at every byte of both streams at once, with every failing return value of a small set, 300 and 70000 failures in a row at one place; a multi-record ClientHello with failures around its record boundaries");
    // every answer of the random source differs, so that drawing again on resumption would show
    let rng = distinct_rng(1, 3);
    let mk = |cfg: Cfg| (cfg, rng.clone(), [5, 0, 0, 0], Some([3, 0, 0, 0]));
    let mut long = Cfg::default().suites(3).alpn(&[b"h2"]);
    long.sni = Some(vec![b'a'; 33000]);
    let setups = [mk(Cfg::default().suites(1).alpn(&[b"h2"])), mk(Cfg::default().suites(2).alpn(&[b"h2", b"http/1.1"]).sni("host.example")), mk(long)];
    let Some(ws) = worlds_with(c, &setups) else { return };
    let cats: Vec<Vec<Scene>> = ws.iter().map(|w| catalogue(w, w.suite())).collect();
    let nc = cats[0].len() as u64;
    // undisturbed runs, themselves judged against the reference
    c.space("undisturbed", 3 * nc, |i| {
        let [b, k] = digits(i, [3, nc]);
        format!("{}\n{}", cats[b][k].name, ws[b].describe(&cats[b][k].stream))
    }, |i, p| {
        let [b, k] = digits(i, [3, nc]);
        run_stream(&ws[b], &cats[b][k].stream, p)
    });
    if c.failed() {
        return;
    }
    let base: Vec<Vec<(Seen, u64)>> = (0..3).map(|b| cats[b].iter().map(|s| observe(&ws[b], &s.stream, &Plan::default(), None).unwrap()).collect()).collect();
    let describe = |b: usize, k: usize, pl: &Plan| format!("'{}' with transport {pl:?}\n{}", cats[b][k].name, ws[b].describe(&cats[b][k].stream));
    let go = |c: &mut Check, name: &str, v: &[(usize, usize, Plan)]| {
        c.items(name, v, |(b, k, pl)| describe(*b, *k, pl), |(b, k, pl), p| compare(&ws[*b], &cats[*b][*k].stream, &base[*b][*k].0, pl, p));
    };

    // --- uniform sizes
    let sizes: Vec<usize> = (1..=c.tier(24, 200)).chain([31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 16383, 16384, 16385]).collect();
    let mut v = vec![];
    for b in 0..3 {
        for k in 0..nc as usize {
            for &r in &sizes {
                for wr in [1, 2, 3, 5, 7, 100, 5000] {
                    if b == 2 && r % 5 != 1 {
                        continue;
                    }
                    v.push((b, k, Plan { rdefault: Some(Ans::Short(r)), wdefault: Some(Ans::Short(wr)), ..Plan::default() }));
                }
            }
        }
    }
    go(c, "uniform-sizes", &v);

    // --- single and double deviations by call number
    let devs = [Ans::Short(1), Ans::Short(2), Ans::Short(3), Ans::Short(4), Ans::Err(0), Ans::Err(-1), Ans::Err(isize::MIN)];
    let mut v = vec![];
    for b in 0..2 {
        for k in 0..nc as usize {
            let calls = base[b][k].1.min(40) + 2;
            for x in 0..calls {
                for d in devs {
                    v.push((b, k, Plan { rplan: vec![(x, d)], ..Plan::default() }));
                    for y in x + 1..calls + 1 {
                        for e in [Ans::Short(1), Ans::Err(0), Ans::Err(-1)] {
                            v.push((b, k, Plan { rplan: vec![(x, d), (y, e)], ..Plan::default() }));
                        }
                    }
                }
            }
            // the ClientHello's writes: shorten, then fail or shorten again
            for n in 1..w_len(&ws[b]) {
                for e in [Ans::Err(0), Ans::Err(-1), Ans::Short(1), Ans::Short(5)] {
                    if k % 8 == 0 || n < 12 {
                        v.push((b, k, Plan { wplan: vec![(0, Ans::Short(n)), (1, e)], ..Plan::default() }));
                    }
                }
            }
            for e in [0, -1, isize::MIN] {
                v.push((b, k, Plan { wplan: vec![(0, Ans::Err(e)), (1, Ans::Err(e))], ..Plan::default() }));
            }
        }
    }
    go(c, "call-deviations", &v);

    // --- one failure per byte offset, all behaviours
    let mut v = vec![];
    for b in 0..2 {
        for k in 0..nc as usize {
            let n = cats[b][k].stream.len();
            for x in (0..=n).filter(|x| n < 3000 || *x < 500 || x % 97 == 0 || (16384..16900).contains(x) || n - x < 40) {
                v.push((b, k, Plan { rstalls: vec![x], ..Plan::default() }));
                v.push((b, k, Plan { rstalls: vec![x, x, x + 1], eof: -1, ..Plan::default() }));
            }
            for x in 0..w_len(&ws[b]) {
                v.push((b, k, Plan { wstalls: vec![x], ..Plan::default() }));
                // (a failure past the ClientHello would hit the alert, which C07 deals with)
                let twice = [x, x, x + 1].into_iter().filter(|y| *y < w_len(&ws[b])).collect();
                v.push((b, k, Plan { wstalls: twice, eof: -7, ..Plan::default() }));
            }
            // and at every byte
            for step in 1..=c.tier(7, 40) {
                v.push((b, k, Plan { rstalls: (0..=n).step_by(step).collect(), wstalls: (0..w_len(&ws[b])).step_by(step).collect(), ..Plan::default() }));
            }
        }
    }
    go(c, "one-failure", &v);

    // --- a transport that fails at one place more often than a byte or two can count
    let mut v = vec![];
    for b in 0..2 {
        for k in [cats[b].iter().position(|s| s.name == "flight").unwrap(), cats[b].iter().position(|s| s.name == "fragmented flight with change_cipher_spec").unwrap()] {
            let n = cats[b][k].stream.len();
            for j in 0..c.tier(8, 60) {
                let (x, y) = (n * j / c.tier(8, 60), (w_len(&ws[b]) - 1) * j / c.tier(8, 60));
                v.push((b, k, Plan { rstalls: vec![x; 300], wstalls: vec![y; 300], ..Plan::default() }));
                v.push((b, k, Plan { rstalls: vec![x; 70000], eof: -1, ..Plan::default() }));
                v.push((b, k, Plan { wstalls: vec![y; 70000], ..Plan::default() }));
            }
        }
    }
    c.items("patience", &v, |(b, k, pl)| format!("'{}' with transport failures: reads {:?} x {}, writes {:?} x {}", cats[*b][*k].name, pl.rstalls.first(), pl.rstalls.len(), pl.wstalls.first(), pl.wstalls.len()), |(b, k, pl), p| compare(&ws[*b], &cats[*b][*k].stream, &base[*b][*k].0, pl, p));

    // --- pairs of failures for selected behaviours
    let pick: Vec<(usize, usize)> = (0..2)
        .flat_map(|b| {
            let cats = &cats;
            ["flight", "fragmented flight with change_cipher_spec", "coalesced flight", "bad tag", "handshake_failure instead of the Certificate", "EncryptedExtensions without protocol"]
                .iter()
                .take(c.tier(2, 6))
                .map(move |n| (b, cats[b].iter().position(|s| s.name == *n).unwrap()))
        })
        .collect();
    let pick = &pick;
    // records of a fixed shape, so the spaces are addressed by number
    let mut tot: Vec<(usize, usize, u64)> = vec![];
    for &(b, k) in pick {
        let n = cats[b][k].stream.len() as u64 + 1;
        tot.push((b, k, n * n));
    }
    let sum: u64 = tot.iter().map(|t| t.2).sum();
    let find = |mut i: u64| {
        for &(b, k, n) in &tot {
            if i < n {
                return (b, k, i, n);
            }
            i -= n;
        }
        unreachable!()
    };
    let rpair = |i: u64| {
        let (b, k, i, n) = find(i);
        let n = (n as f64).sqrt() as u64;
        (b, k, Plan { rstalls: vec![(i / n) as usize, (i % n) as usize], ..Plan::default() })
    };
    c.space("two-read-failures", sum, |i| { let (b, k, pl) = rpair(i); describe(b, k, &pl) }, |i, p| {
        let (b, k, pl) = rpair(i);
        if pl.rstalls[0] > pl.rstalls[1] {
            p.outcome("same as the other order");
            return Ok(());
        }
        compare(&ws[b], &cats[b][k].stream, &base[b][k].0, &pl, p)
    });
    let mut v = vec![];
    for &(b, k) in pick.iter().step_by(c.tier(2, 1)) {
        for x in 0..w_len(&ws[b]) {
            for y in x + 1..w_len(&ws[b]) {
                v.push((b, k, Plan { wstalls: vec![x, y], ..Plan::default() }));
            }
            for y in (0..=cats[b][k].stream.len()).step_by(c.tier(3, 1)) {
                v.push((b, k, Plan { wstalls: vec![x], rstalls: vec![y], ..Plan::default() }));
            }
        }
    }
    go(c, "write-and-mixed-failures", &v);

    // --- the ClientHello of several records
    let n = w_len(&ws[2]);
    let near = |x: &usize| *x < 300 || n - x < 200 || [16389usize, 32778].iter().any(|b| x.abs_diff(*b) < 60) || x % c.tier(97, 7) == 0;
    let mut v = vec![];
    for x in (0..n).filter(near) {
        v.push((2, 6, Plan { wstalls: vec![x], ..Plan::default() }));
        for y in [x + 1, x + 5, x + 16384, x + 16389, x + 16390] {
            if y < n {
                v.push((2, 6, Plan { wstalls: vec![x, y], eof: -1, ..Plan::default() }));
            }
        }
    }
    for sz in (1..300).chain([16383, 16384, 16385, 16388, 16389, 16390]) {
        v.push((2, 6, Plan { wdefault: Some(Ans::Short(sz)), ..Plan::default() }));
        v.push((2, 6, Plan { wstalls: (0..n).step_by(sz).collect(), ..Plan::default() }));
    }
    go(c, "long-hello", &v);
}
fn w_len(w: &World) -> usize {
    w.hello_wire.len()
}
