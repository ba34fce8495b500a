//! C13: connections do not influence each other.
//!
//! A program is what an application does with one connection object. Several programs run
//! interleaved: alternating between calls on one thread, one inside another's callbacks, and on
//! threads of their own that a scheduler switches at every callback and every request for randomness.
//! Whatever the schedule, each program has to observe what it observes alone.
use super::*;
use crate::gen::*;
use getrandom::Source;
use refmodel::model::End;
use refmodel::tls::*;
use std::cell::RefCell;
use std::rc::Rc;
use std::sync::{mpsc, Arc, Condvar, Mutex};
use std::time::Duration;

#[derive(Clone, Debug)]
enum Op {
    /// Another server and, for the next attempt, the configuration and randomness of this world.
    Server { world: usize, stream: Vec<u8>, rstalls: Vec<usize>, wstalls: Vec<usize> },
    Connect,
    Close,
}
#[derive(Clone)]
struct Prog {
    name: String,
    world: usize,
    ops: Vec<Op>,
}
/// A program in execution.
struct Run<'a> {
    ws: &'a [World],
    prog: &'a Prog,
    next: usize,
    sess: Option<Sess>,
    source: Option<Source>,
    hook: bool,
    /// Everything it observed.
    log: Vec<String>,
    h: Vec<u64>,
}
impl<'a> Run<'a> {
    fn new(ws: &'a [World], prog: &'a Prog, hook: bool) -> Run<'a> {
        Run { ws, prog, next: 0, sess: None, source: Some(Source::new(ws[prog.world].rng.clone())), hook, log: vec![], h: vec![] }
    }
    /// Creating and releasing the object are steps as well.
    fn steps(prog: &Prog) -> usize {
        prog.ops.len() + 2
    }
    fn done(&self) -> bool {
        self.next == Run::steps(self.prog)
    }
    fn step(&mut self) {
        let outer = getrandom::exchange(self.source.take().unwrap());
        let k = self.next;
        self.next += 1;
        if k == 0 {
            let w = &self.ws[self.prog.world];
            let mut s = Sess::new(&w.cfg, &w.rng);
            s.io().hook = self.hook;
            s.io().scribble = Some(0x5a);
            self.sess = Some(s);
        } else if k == self.prog.ops.len() + 1 {
            let s = self.sess.as_mut().unwrap();
            self.h = std::mem::take(&mut s.io().states);
            self.sess = None;
        } else {
            let s = self.sess.as_mut().unwrap();
            match &self.prog.ops[k - 1] {
                Op::Server { world, stream, rstalls, wstalls } => {
                    let w = &self.ws[*world];
                    s.configure(&w.cfg);
                    getrandom::set_script(w.rng.clone());
                    let io = s.io();
                    (io.rpos, io.closes, io.rcalls, io.wcalls) = (0, 0, 0, 0);
                    io.out.clear();
                    io.inbound = stream.clone();
                    io.rstalls = rstalls.clone();
                    io.wstalls = wstalls.clone();
                },
                Op::Connect => {
                    let r = s.connect();
                    self.log.push(r.show());
                },
                Op::Close => {
                    s.close();
                    self.log.push("close".into());
                },
            }
            let proto = s.app_proto();
            let io = s.io();
            self.log.push(format!("{:?} {} {} {} {} {}", proto, refmodel::hex(&io.out), io.rpos, io.closes, io.io_after_close, io.faults));
        }
        self.source = Some(getrandom::exchange(outer));
    }
    fn all(mut self) -> Seen {
        while !self.done() {
            self.step();
        }
        self.seen()
    }
    fn seen(self) -> Seen {
        Seen { log: self.log, h: self.h }
    }
}
#[derive(Clone, PartialEq, Eq, Debug, Default)]
struct Seen {
    log: Vec<String>,
    h: Vec<u64>,
}
fn compare(prog: &Prog, want: &Seen, got: &Seen) -> Result<(), String> {
    if want == got {
        return Ok(());
    }
    for (i, (a, b)) in want.log.iter().zip(&got.log).enumerate() {
        if a != b {
            return Err(format!("program '{}', observation {i}: {} instead of {} (alone)", prog.name, short(b), short(a)));
        }
    }
    Err(format!("program '{}': the history of transport calls differs from that alone", prog.name))
}
fn short(s: &str) -> String {
    if s.len() > 900 {
        format!("{}...{}", &s[..500], &s[s.len() - 300..])
    } else {
        s.into()
    }
}

/// Runs something on a thread of its own, so that a deadlock is seen.
fn watched<T: Send>(f: impl FnOnce() -> T + Send) -> Result<T, String> {
    // SAFETY (of extending the closure's life): on a timeout the process ends before the frame does.
    let (tx, rx) = mpsc::channel();
    std::thread::scope(|s| {
        s.spawn(move || {
            let _ = tx.send(f());
        });
        match rx.recv_timeout(Duration::from_secs(30)) {
            Ok(x) => Ok(x),
            Err(_) => {
                eprintln!("deadlock: a call on one connection waits for another one's callback to return");
                std::process::abort();
            },
        }
    })
}

// --- the scheduler for threads
struct Sched {
    /// (thread, points it may pass), then whoever is left in order.
    plan: Vec<(usize, usize)>,
    now: Mutex<State>,
    cond: Condvar,
}
struct State {
    seg: usize,
    left: usize,
    turn: usize,
    done: Vec<bool>,
    points: Vec<usize>,
}
impl Sched {
    fn new(n: usize, plan: Vec<(usize, usize)>) -> Sched {
        let (turn, left) = plan.first().copied().unwrap_or((0, usize::MAX));
        Sched { plan, now: Mutex::new(State { seg: 0, left, turn, done: vec![false; n], points: vec![0; n] }), cond: Condvar::new() }
    }
    fn advance(&self, st: &mut State) {
        loop {
            st.seg += 1;
            match self.plan.get(st.seg) {
                Some(&(t, k)) if !st.done[t] => {
                    (st.turn, st.left) = (t, k);
                    break;
                },
                Some(_) => continue,
                None => {
                    if let Some(t) = st.done.iter().position(|d| !d) {
                        (st.turn, st.left) = (t, usize::MAX);
                    } else {
                        st.turn = usize::MAX;
                    }
                    break;
                },
            }
        }
        self.cond.notify_all();
    }
    fn wait(&self, me: usize) {
        let mut st = self.now.lock().unwrap();
        while st.turn != me {
            st = self.cond.wait(st).unwrap();
        }
    }
    /// A point at which another thread may go on.
    fn point(&self, me: usize) {
        {
            let mut st = self.now.lock().unwrap();
            st.points[me] += 1;
            if st.left == 0 {
                self.advance(&mut st);
            } else {
                st.left -= 1;
            }
        }
        self.wait(me);
    }
    fn end(&self, me: usize) {
        let mut st = self.now.lock().unwrap();
        st.done[me] = true;
        if st.turn == me {
            self.advance(&mut st);
        }
    }
}
fn threads(ws: &[World], progs: &[&Prog], plan: Vec<(usize, usize)>) -> (Vec<Seen>, Vec<usize>) {
    let sc = Arc::new(Sched::new(progs.len(), plan));
    let seen = std::thread::scope(|s| {
        let hs: Vec<_> = progs
            .iter()
            .enumerate()
            .map(|(me, prog)| {
                let sc = sc.clone();
                s.spawn(move || {
                    sc.wait(me);
                    let sc2 = sc.clone();
                    set_thread_hook(Some(Box::new(move || sc2.point(me))));
                    let mut r = Run::new(ws, prog, true);
                    while !r.done() {
                        r.step();
                        sc.point(me);
                    }
                    set_thread_hook(None);
                    sc.end(me);
                    r.seen()
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let points = sc.now.lock().unwrap().points.clone();
    (seen, points)
}

/// All programs, for one world each.
fn programs(w: &World, world: usize, other: usize) -> Vec<Prog> {
    let suite = w.suite();
    let cat = catalogue(w, suite);
    let scene = |n: &str| cat.iter().find(|s| s.name == n).unwrap_or_else(|| panic!("no scene {n}")).stream.clone();
    let sh = base(w, suite).stream.len();
    let srv = |stream: Vec<u8>, rstalls: &[usize], wstalls: &[usize]| Op::Server { world, stream, rstalls: rstalls.to_vec(), wstalls: wstalls.to_vec() };
    let flight = scene("flight");
    let mut v = vec![];
    let mut put = |n: &str, ops: Vec<Op>| v.push(Prog { name: format!("{n} (configuration {world})"), world, ops });
    use Op::*;
    put("flight", vec![srv(flight.clone(), &[], &[]), Connect]);
    put("flight with stalls", vec![srv(flight.clone(), &[0, 3, 60, sh, sh + 20, sh + 80], &[40]), Connect, Connect, Connect, Connect, Connect, Connect, Connect, Connect]);
    put("close while waiting, then again", vec![srv(scene("EncryptedExtensions"), &[], &[]), Connect, Close, srv(flight.clone(), &[sh], &[]), Connect, Connect]);
    put("alert, then again", vec![srv(scene("handshake_failure after the ServerHello"), &[], &[]), Connect, srv(scene("coalesced flight"), &[], &[]), Connect]);
    put("hello in pieces, closed", vec![srv(vec![], &[], &[1, 50, 90]), Connect, Connect, Close, srv(scene("half a Certificate"), &[], &[]), Connect, Close]);
    put("local error, waiting, freed", vec![srv(scene("point not on the curve"), &[], &[]), Connect, srv(scene("half a ServerHello"), &[30], &[]), Connect, Connect]);
    put("fragments", vec![srv(scene("fragmented flight with change_cipher_spec"), &[sh + 30], &[]), Connect, Connect]);
    // the same object with the other configuration afterwards
    put("reconfigured", vec![srv(scene("EncryptedExtensions without protocol"), &[], &[]), Connect, Close, Op::Server { world: other, stream: vec![], rstalls: vec![], wstalls: vec![] }, Connect]);
    v
}

pub fn run(c: &mut Check) {
    c.bound("16 programs (8 kinds: complete flights, stalls, closes, alerts, errors, fragments, reuse, reconfiguration; two configurations with different suites, names, keys): every pair whose calls have at most 5000 (thorough 50000) merges, with all of them, on one thread; every triple of the short ones in every order and up to 3 calls at a time; crowds of 300 (thorough 3000) objects in three orders, single objects after up to 10000 (thorough 66000) others; every program inside every single callback of every other, and split (thorough: everywhere) over every pair of callbacks of six (thorough: all) others; every pair on two threads with up to 2 switches, selected pairs with 3 (thorough: 4), and selected triples on three threads with every first switch of each thread, switching at every callback, request for randomness and end of a call");
    c.assume("threads are switched at callbacks, requests for randomness and between calls only; between these the library's code runs without interruption");
    // worlds that differ in everything
    let k = |x: u8| {
        let mut k = vec![0; 32];
        k[0] = x;
        vec![getrandom::Answer::Bytes(k); 64]
    };
    let setups: Vec<Setup> = vec![
        (Cfg::default().suites(1).alpn(&[b"h2"]), k(3), [5, 0, 0, 0], Some([3, 0, 0, 0])),
        (Cfg::default().suites(2).alpn(&[b"http/1.1", b"h2"]).sni("b.example"), k(7), [9, 0, 0, 0], Some([7, 0, 0, 0])),
    ];
    let Some(ws) = worlds_with(c, &setups) else { return };
    let ws = &ws[..];
    let mut progs = vec![];
    for i in 0..2 {
        progs.extend(programs(&ws[i], i, 1 - i));
    }
    let progs = &progs[..];
    let np = progs.len();
    let half = np / 2;
    // --- alone; the complete flights are compared with the reference
    c.space("alone", np as u64, |i| format!("program '{}' alone: {:?}", progs[i as usize].name, progs[i as usize].ops), |i, p| {
        let prog = &progs[i as usize];
        let a = watched(|| Run::new(ws, prog, false).all())?;
        let b = watched(|| Run::new(ws, prog, false).all())?;
        compare(prog, &a, &b)?;
        if let Op::Server { stream, rstalls, .. } = &prog.ops[0] {
            let v = ws[prog.world].verdict(stream);
            if rstalls.is_empty() && !stream.is_empty() && v.ends.len() == 1 {
                let want = match &v.ends[0] {
                    End::More => "WantRead",
                    End::Fatal(_) => "Tls(",
                    End::Peer(_) => "TlsPeer(",
                };
                if !a.log[1].starts_with(want) {
                    return Err(format!("alone it ends with {}, the reference expects {:?}", a.log[1], v.ends));
                }
            }
        }
        a.h.iter().for_each(|h| p.state(*h));
        p.steps(a.h.len() as u64);
        p.outcome("alone");
        p.trace();
        Ok(())
    });
    if c.failed() {
        return;
    }
    let alone: Vec<Seen> = (0..np).map(|i| watched(|| Run::new(ws, &progs[i], false).all()).unwrap_or_default()).collect();
    let alone = &alone[..];
    let book = |p: &mut mcrt::Probe, seen: &[Seen], label: &str| {
        let mut m = 0;
        for s in seen {
            p.steps(s.h.len() as u64 + s.log.len() as u64);
            for h in &s.h {
                m = mcrt::mix(m, *h);
            }
        }
        p.state(m);
        p.trace();
        p.outcome(label);
    };
    // --- calls alternate on one thread
    let mut merges: Vec<(usize, usize, u64)> = vec![]; // (a, b, number of merges before)
    let mut total = 0;
    for a in 0..np {
        for b in 0..np {
            let (x, y) = (Run::steps(&progs[a]), Run::steps(&progs[b]));
            let n = binom(x + y, x);
            if n > c.tier(5000, 50000) || (a % half) > (b % half) {
                continue;
            }
            merges.push((a, b, total));
            total += n;
        }
    }
    let pick = |i: u64| {
        let j = merges.partition_point(|m| m.2 <= i) - 1;
        let (a, b, s) = merges[j];
        (a, b, unrank(Run::steps(&progs[a]), Run::steps(&progs[b]), i - s))
    };
    c.space(
        "alternating-calls",
        total,
        |i| {
            let (a, b, m) = pick(i);
            let m: String = m.iter().map(|x| if *x { 'B' } else { 'A' }).collect();
            format!("A: '{}' {:?}\nB: '{}' {:?}\norder of the steps (create, operations, free): {m}", progs[a].name, progs[a].ops, progs[b].name, progs[b].ops)
        },
        |i, p| {
            let (a, b, m) = pick(i);
            let mut r = [Run::new(ws, &progs[a], false), Run::new(ws, &progs[b], false)];
            for x in &m {
                r[*x as usize].step();
            }
            let [ra, rb] = r.map(|r| r.seen());
            compare(&progs[a], &alone[a], &ra)?;
            compare(&progs[b], &alone[b], &rb)?;
            book(p, &[ra, rb], "two on one thread");
            Ok(())
        },
    );
    // --- three objects, calls in turn, every rotation and block length
    let short_ones = [0usize, 3, 6, half, half + 3, half + 2];
    let ns = short_ones.len() as u64;
    let three = |i: u64| {
        let [a, b, d, o, x, y, z] = digits(i, [ns, ns, ns, 6, 3, 3, 3]);
        let order = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]][o];
        ([a, b, d].map(|q| short_ones[q]), order, [x + 1, y + 1, z + 1])
    };
    c.space(
        "three-objects",
        ns * ns * ns * 6 * 27,
        |i| {
            let (t, o, l) = three(i);
            format!("{:?} in the order {o:?}, {l:?} steps at a time", t.map(|q| &progs[q].name[..]))
        },
        |i, p| {
            let (t, o, l) = three(i);
            let mut r = t.map(|q| Run::new(ws, &progs[q], false));
            while r.iter().any(|r| !r.done()) {
                for q in o {
                    for _ in 0..l[q] {
                        if !r[q].done() {
                            r[q].step();
                        }
                    }
                }
            }
            let seen = r.map(|r| r.seen());
            for (q, s) in t.iter().zip(&seen) {
                compare(&progs[*q], &alone[*q], s)?;
            }
            book(p, &seen, "three on one thread");
            Ok(())
        },
    );
    // --- crowds: many objects at once, and many before one
    let crowds: Vec<(usize, usize, usize)> = (0..c.tier(8, 40)).flat_map(|k| [(c.tier(300, 3000), k, 0), (c.tier(300, 3000), k, 1), (c.tier(300, 3000), k, 2)]).chain([(c.tier(10_000, 66_000), 0, 3), (c.tier(3_000, 66_000), 1, 4)]).collect();
    c.case_seconds = 600;
    c.items(
        "crowds",
        &crowds,
        |(n, k, how)| {
            let how = ["one step of each in turn", "one after the other, kept until all are done", "all created, then run from the last to the first", "created and released, then run one", "run one after the other"][*how];
            format!("{n} objects, program number i + {k} each; {how}")
        },
        |&(n, k, how), p| {
            let prog = |i: usize| (i * (k + 1) + k) % np;
            let mut keep: Vec<Run> = vec![];
            let mut seen: Vec<(usize, Seen)> = vec![];
            let new = |i: usize| Run::new(ws, &progs[prog(i)], false);
            match how {
                0 => {
                    keep.extend((0..n).map(new));
                    while keep.iter().any(|r| !r.done()) {
                        keep.iter_mut().filter(|r| !r.done()).for_each(|r| r.step());
                    }
                },
                1 => {
                    for i in 0..n {
                        keep.push(new(i));
                        for _ in 1..Run::steps(&progs[prog(i)]) {
                            keep[i].step();
                        }
                    }
                    keep.iter_mut().for_each(|r| r.step());
                },
                2 => {
                    keep.extend((0..n).map(new));
                    keep.iter_mut().for_each(|r| r.step());
                    for r in keep.iter_mut().rev() {
                        while !r.done() {
                            r.step();
                        }
                    }
                },
                3 => {
                    for _ in 0..n {
                        drop(Sess::new(&ws[0].cfg, &ws[0].rng));
                    }
                    seen.extend((0..np).map(|i| (i, Run::new(ws, &progs[i], false).all())));
                },
                _ => seen.extend((0..n).map(|i| (prog(i), new(i).all()))),
            }
            seen.extend(keep.into_iter().enumerate().map(|(i, r)| (prog(i), r.seen())));
            for (i, (q, s)) in seen.iter().enumerate() {
                compare(&progs[*q], &alone[*q], s).map_err(|e| format!("object {}: {e}", i + 1))?;
            }
            let all: Vec<Seen> = seen.into_iter().map(|(_, s)| s).collect();
            book(p, &all, "crowd");
            Ok(())
        },
    );
    c.case_seconds = 30;
    // --- inside callbacks
    let points: Vec<usize> = (0..np).map(|a| watched(|| threads(ws, &[&progs[a]], vec![]).1[0]).unwrap_or(0)).collect();
    let points = &points[..];
    // (outer, inner, first callback, second callback (inner goes on), steps of the inner in the first)
    let mut nests: Vec<(usize, usize, usize, usize, usize)> = vec![];
    for a in 0..np {
        for b in 0..np {
            for x in 0..points[a] {
                nests.push((a, b, x, x, Run::steps(&progs[b])));
                if (a % half) % 3 != 0 && !c.thorough {
                    continue;
                }
                for y in x + 1..points[a] {
                    for k in 1..Run::steps(&progs[b]) {
                        if k == 3 || c.thorough {
                            nests.push((a, b, x, y, k));
                        }
                    }
                }
            }
        }
    }
    c.space(
        "inside-callbacks",
        nests.len() as u64,
        |i| {
            let (a, b, x, y, k) = nests[i as usize];
            format!("'{}' {:?}\nwith the first {k} steps of '{}' {:?} inside callback {x} and the rest in callback {y}", progs[a].name, progs[a].ops, progs[b].name, progs[b].ops)
        },
        |i, p| {
            let (a, b, x, y, k) = nests[i as usize];
            let (ra, rb) = watched(|| {
                let inner = Rc::new(RefCell::new(Run::new(ws, &progs[b], false)));
                // SAFETY: the hook is removed before anything it refers to goes away.
                let cell: Rc<RefCell<Run<'static>>> = unsafe { std::mem::transmute(inner.clone()) };
                let mut n = 0;
                set_thread_hook(Some(Box::new(move || {
                    let mut r = cell.borrow_mut();
                    if n == x {
                        for _ in 0..k {
                            r.step();
                        }
                    }
                    if n == y {
                        while !r.done() {
                            r.step();
                        }
                    }
                    n += 1;
                })));
                let ra = Run::new(ws, &progs[a], true).all();
                set_thread_hook(None);
                let mut r = Rc::try_unwrap(inner).ok().unwrap().into_inner();
                while !r.done() {
                    r.step();
                }
                (ra, r.seen())
            })?;
            compare(&progs[a], &alone[a], &ra)?;
            compare(&progs[b], &alone[b], &rb)?;
            book(p, &[ra, rb], "one inside the other");
            Ok(())
        },
    );
    // --- threads
    let mut plans: Vec<(Vec<usize>, Vec<(usize, usize)>)> = vec![];
    for a in 0..np {
        for b in 0..np {
            for x in 0..points[a] {
                for y in 0..points[b] {
                    plans.push((vec![a, b], vec![(0, x), (1, y), (0, usize::MAX)]));
                }
            }
        }
    }
    let deep: &[(usize, usize)] = &[(0, half), (0, 0), (half, half + 3), (3, half)];
    for &(a, b) in deep {
        for x in 0..points[a] {
            for y in 0..points[b] {
                for z in 0..points[a] - x {
                    plans.push((vec![a, b], vec![(0, x), (1, y), (0, z), (1, usize::MAX)]));
                    if c.thorough && points[a] < 22 && points[b] < 22 {
                        for u in 0..points[b] - y {
                            plans.push((vec![a, b], vec![(0, x), (1, y), (0, z), (1, u), (0, usize::MAX)]));
                        }
                    }
                }
            }
        }
    }
    for t in [[0, half, 0], [half, 0, half], [0, half, 3]] {
        for x in 0..points[t[0]] {
            for y in 0..points[t[1]] {
                for z in 0..points[t[2]] {
                    plans.push((t.to_vec(), vec![(0, x), (1, y), (2, z)]));
                }
            }
        }
    }
    c.space(
        "threads",
        plans.len() as u64,
        |i| {
            let (t, pl) = &plans[i as usize];
            let n: Vec<_> = t.iter().map(|q| (&progs[*q].name, &progs[*q].ops)).collect();
            format!("on a thread each: {n:?}\nschedule (thread, points passed before the switch): {pl:?}, then the rest in order")
        },
        |i, p| {
            let (t, pl) = &plans[i as usize];
            let ps: Vec<&Prog> = t.iter().map(|q| &progs[*q]).collect();
            let (seen, _) = watched(|| threads(ws, &ps, pl.clone()))?;
            for (q, s) in t.iter().zip(&seen) {
                compare(&progs[*q], &alone[*q], s)?;
            }
            book(p, &seen, if t.len() == 2 { "two threads" } else { "three threads" });
            Ok(())
        },
    );
}

fn binom(n: usize, k: usize) -> u64 {
    (0..k as u64).fold(1, |r, i| r * (n as u64 - i) / (i + 1))
}
/// The i-th sequence of x false and y true.
fn unrank(mut x: usize, mut y: usize, mut i: u64) -> Vec<bool> {
    let mut v = vec![];
    while x + y > 0 {
        let n = if x == 0 { 0 } else { binom(x + y - 1, y) };
        if i < n {
            v.push(false);
            x -= 1;
        } else {
            i -= n;
            v.push(true);
            y -= 1;
        }
    }
    v
}
