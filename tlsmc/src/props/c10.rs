//! C10: the connection life cycle fails closed.
use super::c07::check_close;
use super::*;
use crate::gen::*;
use getrandom::Answer;
use refmodel::model::End;
use refmodel::tls::*;

pub(super) const OPS: [&str; 11] = [
    "connect", "close", "server sends the rest of its next record", "server sends an alert", "server sends garbage", "the other configuration", "toggle a configuration without groups",
    "random source: next of good, failing late, failing, zero", "toggle a blocked transport", "server sends half of its next record", "server sends its next record with a changed last byte",
];
/// How much of the first flight a blocked transport still takes.
const BLOCK: usize = 30;

static DRAWS: std::sync::OnceLock<usize> = std::sync::OnceLock::new();

/// An attempt under way.
struct Att {
    world: usize,
    hello_done: bool,
    /// Where the server is in its flight: record and whether half of it went out.
    rec: usize,
    half: bool,
}
pub(super) struct Model<'a> {
    ws: &'a [World],
    flights: &'a [Vec<Vec<u8>>],
    cfg: usize,
    badcfg: bool,
    rng: usize,
    blocked: bool,
    block_at: usize,
    att: Option<Att>,
}

impl<'a> Model<'a> {
    pub(super) fn new(ws: &'a [World], flights: &'a [Vec<Vec<u8>>]) -> Model<'a> {
        Model { ws, flights, cfg: 0, badcfg: false, rng: 0, blocked: false, block_at: BLOCK, att: None }
    }
    /// With a transport that takes nothing at all when it is blocked.
    fn stuck(mut self) -> Model<'a> {
        self.block_at = 0;
        self
    }
    fn block(&self, s: &mut Sess) {
        let io = s.io();
        io.wstalls = if self.blocked { vec![io.out.len().max(self.block_at); 8] } else { vec![] };
    }
    /// Applies one operation; None if it would not change anything.
    pub(super) fn step(&mut self, s: &mut Sess, op: usize) -> Result<Option<String>, String> {
        match op {
            0 => return self.connect(s).map(Some),
            1 => return self.close(s).map(Some),
            5 => self.cfg ^= 1,
            6 => self.badcfg ^= true,
            7 => self.rng = (self.rng + 1) % 4,
            8 => {
                self.blocked ^= true;
                self.block(s);
            },
            _ => {
                let Some(a) = &mut self.att else { return Ok(None) };
                if !a.hello_done {
                    return Ok(None);
                }
                let io = s.io();
                let fl = &self.flights[a.world];
                match op {
                    3 => {
                        // protected when the client can open it
                        let w = &self.ws[a.world];
                        let v = w.verdict(&io.inbound);
                        match v.keys {
                            Some(k) => {
                                let mut d = k.server;
                                d.seq = a.rec.saturating_sub(1) as u64;
                                io.inbound.extend(d.seal(21, &[2, 40], 0));
                            },
                            None => io.inbound.extend(record(21, &[2, 40])),
                        }
                    },
                    4 => io.inbound.extend([22, 3, 3, 0, 6, 9, 9, 0, 1, 1, 1]),
                    _ => {
                        let Some(r) = fl.get(a.rec) else { return Ok(None) };
                        let m = r.len() / 2;
                        let from = if a.half { m } else { 0 };
                        match op {
                            9 if a.half => return Ok(None),
                            9 => {
                                io.inbound.extend_from_slice(&r[..m]);
                                a.half = true;
                            },
                            _ => {
                                io.inbound.extend_from_slice(&r[from..]);
                                if op == 10 {
                                    *io.inbound.last_mut().unwrap() ^= 1;
                                }
                                a.half = false;
                                a.rec += 1;
                            },
                        }
                    },
                }
            },
        }
        if op == 5 || op == 6 {
            let mut c = self.ws[self.cfg].cfg.clone();
            if self.badcfg {
                c.groups = 0;
            }
            s.configure(&c);
        }
        Ok(Some(String::new()))
    }
    fn connect(&mut self, s: &mut Sess) -> Result<String, String> {
        if self.att.is_none() {
            let w = &self.ws[self.cfg];
            let io = s.io();
            (io.rpos, io.closes, io.io_after_close, io.rcalls, io.wcalls) = (0, 0, 0, 0, 0);
            io.out.clear();
            io.inbound.clear();
            self.block(s);
            getrandom::set_script(match self.rng {
                0 => w.rng.clone(),
                1 => {
                    // only what is asked last
                    let mut r = w.rng.clone();
                    r[*DRAWS.get().unwrap() - 1..].fill(Answer::Fail);
                    r
                },
                2 => vec![Answer::Fail; 64],
                _ => vec![Answer::Bytes(vec![0; 32]); 64],
            });
            let mut may: Vec<i32> = vec![];
            if self.badcfg {
                may.push(E_EXTS);
            }
            match self.rng {
                1 | 2 => may.push(E_RNG),
                3 => may.extend([E_ZERO, E_RNG]),
                _ => (),
            }
            if !may.is_empty() {
                let ret = s.connect();
                if ret.code == 1 || !may.contains(&ret.err) {
                    return Err(format!("connect returned {}", ret.show()));
                }
                self.quiet_end(s)?;
                return Ok(format!("fails with {}", ret.show()));
            }
            self.att = Some(Att { world: self.cfg, hello_done: false, rec: 0, half: false });
        }
        let a = self.att.as_mut().unwrap();
        let w = &self.ws[a.world];
        let sent = s.io().out.len();
        let ret = s.connect();
        if ret.code == 1 {
            return Err("connect reported success".into());
        }
        let out = s.io().out.clone();
        if !a.hello_done && self.blocked {
            let upto = sent.max(self.block_at);
            if ret.err != E_WRITE || out != w.hello_wire[..upto] || s.io().closes != 0 {
                return Err(format!("blocked at {upto} bytes connect returned {} with {} bytes written, {} closes", ret.show(), out.len(), s.io().closes));
            }
            return Ok("blocked".into());
        }
        a.hello_done = true;
        let v = w.verdict(&s.io().inbound.clone());
        let label;
        if self.blocked && ret.err == E_TLS {
            // the alert could not be written (the hello was complete before)
            let ok = v.ends.iter().any(|e| matches!(e, End::Fatal(set) if set.is_empty() || set.contains(&(ret.alert as u8))));
            if !ok || s.io().closes != 1 || s.io().io_after_close > 0 || out != w.hello_wire {
                return Err(format!("with a blocked transport connect returned {}, {} closes; reference {:?} ({})", ret.show(), s.io().closes, v.ends, v.why));
            }
            label = format!("fatal alert {} unsent", ret.alert);
        } else {
            label = judge(w, &v, s, &ret)?;
        }
        if !ret.wants() {
            self.att = None;
        }
        Ok(label)
    }
    fn close(&mut self, s: &mut Sess) -> Result<String, String> {
        let before = {
            let io = s.io();
            (io.out.len(), io.closes, io.rcalls, io.wcalls)
        };
        s.close();
        let io = s.io();
        let Some(a) = self.att.take() else {
            if (io.out.len(), io.closes, io.rcalls, io.wcalls) != before {
                return Err("turtls_close on an idle object used the transport".into());
            }
            return Ok("idle close".into());
        };
        let w = &self.ws[a.world];
        let n = w.hello_wire.len();
        if a.hello_done {
            // closing works on what connect has seen: the inbound data behind it does not count
            let seen = io.inbound[..io.rpos].to_vec();
            check_close(w, &w.verdict(&seen), s, self.blocked, n)?;
        } else {
            let tail = &io.out[before.0..];
            let fresh = before.0 == 0 && (tail == [21, 3, 3, 0, 2, 2, 0] || tail == [21, 3, 3, 0, 2, 1, 0]);
            if io.closes != 1 || io.io_after_close > 0 || !(tail.is_empty() || fresh) {
                return Err(format!("turtls_close inside the ClientHello: {} closes, wrote {}", io.closes, refmodel::hex(tail)));
            }
        }
        Ok("close".into())
    }
    fn quiet_end(&self, s: &mut Sess) -> Result<(), String> {
        let io = s.io();
        if !io.out.is_empty() || io.rcalls > 0 {
            return Err(format!("a connection that cannot start wrote {} bytes and read {} times", io.out.len(), io.rcalls));
        }
        if io.closes != 1 || io.io_after_close > 0 {
            return Err(format!("close callback ran {} times", io.closes));
        }
        Ok(())
    }
}

/// Two worlds and the records of their servers.
pub(super) fn setup(c: &mut Check) -> Option<(Vec<World>, Vec<Vec<Vec<u8>>>)> {
    // whatever connection a record is for, a stale one would show: different keys per world
    let cfgs = [Cfg::default().suites(1).alpn(&[b"h2"]), Cfg::default().suites(2).alpn(&[b"h2"]).sni("other.example")];
    let mk = |cfg: &Cfg, key: u8| {
        let rng = distinct_rng(key, key);
        (cfg.clone(), rng, [5, 0, 0, 0], Some([key as u64, 0, 0, 0]))
    };
    let Some(ws) = worlds_with(c, &[mk(&cfgs[0], 3), mk(&cfgs[1], 6)]) else { return None };
    // how often a connection asks for randomness
    let mut s = Sess::new(&ws[0].cfg, &ws[0].rng);
    s.connect();
    DRAWS.get_or_init(|| getrandom::calls().len().max(1));
    drop(s);
    let crt = cert_msg();
    let flights: Vec<Vec<Vec<u8>>> = ws
        .iter()
        .map(|w| {
            let b = base(w, w.suite());
            let mut d = b.keys.server.clone();
            let mut f = vec![b.stream];
            f.push(d.seal(22, &ee(&[(16, alpn_ext(b"h2"))]), 0));
            f.push(d.seal(22, &crt, 0));
            f.push(d.seal(22, &hs_msg(15, &[4, 3, 0, 8, 0x30, 6, 2, 1, 1, 2, 1, 1]), 0));
            f.push(d.seal(22, &hs_msg(20, &[0; 32]), 0));
            f.push(d.seal(23, b"hello", 0));
            f
        })
        .collect();
    Some((ws, flights))
}

pub fn run(c: &mut Check) {
    c.bound("every sequence of up to 7 (thorough 8) operations out of 11 (connect, close, reconfigure, good/failing late/failing/zero random source, blocked transport, half or whole or changed server records, alerts, garbage), up to 9 (thorough 11) out of the 5 that move a handshake, up to 5 (thorough 6) with a transport that blocks before the first byte, compared after every operation with a model of the life cycle; closing at every point of writing a ClientHello; every handshake message type at every stage, complete flights up to application data, followed by up to 3 more calls");
    let Some((ws, flights)) = setup(c) else { return };
    let k = OPS.len() as u64;
    let show = |ops: &[usize]| ops.iter().map(|o| OPS[*o]).collect::<Vec<_>>().join("; ");
    let play = |ops: &[usize], stuck: bool, p: &mut mcrt::Probe| -> Result<(), String> {
        let mut s = Sess::new(&ws[0].cfg, &[]);
        let mut m = Model::new(&ws, &flights);
        if stuck {
            m = m.stuck();
        }
        let mut label = String::new();
        for (n, op) in ops.iter().enumerate() {
            match m.step(&mut s, *op).map_err(|e| format!("operation {}: {e}", n + 1))? {
                None => {
                    p.outcome("without effect");
                    return Ok(());
                },
                Some(l) if l.is_empty() => (),
                Some(l) => label = l,
            }
        }
        done(&mut s, p, &label);
        Ok(())
    };
    // The last operation is connect or close, the others show nothing by themselves.
    for depth in 1..=c.tier(7u32, 8) {
        let pre = depth - 1;
        let n = k.pow(pre) * 2;
        let ops = |i: u64| {
            let mut x = i / 2;
            let mut v = vec![];
            for _ in 0..pre {
                v.push((x % k) as usize);
                x /= k;
            }
            v.push((i % 2) as usize);
            v
        };
        c.space(&format!("operations-{depth}"), n, |i| show(&ops(i)), |i, p| play(&ops(i), false, p));
        if depth <= c.tier(5, 6) {
            c.space(&format!("operations-{depth}-stuck"), n, |i| format!("{} (a blocked transport takes nothing)", show(&ops(i))), |i, p| play(&ops(i), true, p));
        }
        if c.failed() {
            return;
        }
    }
    // Deeper, on the operations that move the handshake: 1 + 9 operations out of connect, close, record, changed record, block
    let few = [0usize, 1, 2, 8, 10];
    let depth = c.tier(9u32, 11);
    let ops = |i: u64| {
        let mut x = i;
        let mut v = vec![0];
        for _ in 0..depth - 1 {
            v.push(few[(x % 5) as usize]);
            x /= 5;
        }
        v.push(0);
        v
    };
    c.space(&format!("operations-{depth}-of-5"), 5u64.pow(depth - 1), |i| show(&ops(i)), |i, p| play(&ops(i), false, p));

    super::c07::close_while_writing(c);

    // every message type at every stage, then more calls
    let crt = cert_msg();
    let mk = |i: u64| {
        let [w, st, t, body, full] = digits(i, [2, 4, 256, 4, 2]);
        let b = base(&ws[w], ws[w].suite());
        let mut d = b.keys.server.clone();
        let h2 = ee(&[(16, alpn_ext(b"h2"))]);
        let m = hs_msg(t as u8, &[vec![], vec![0], vec![0; 36], vec![0, 0]][body]);
        let mut s = vec![];
        match st {
            0 => s.extend(record(22, &m)),
            1 => {
                s.extend(b.stream);
                s.extend(d.seal(22, &m, 0));
            },
            2 => {
                s.extend(b.stream);
                s.extend(d.seal(22, &[&h2[..], &m].concat(), 0));
            },
            _ => {
                s.extend(b.stream);
                s.extend(d.seal(22, &h2, 0));
                s.extend(d.seal(22, &m, 0));
            },
        }
        if full == 1 {
            for (t, m) in [(22, crt.clone()), (22, hs_msg(15, &[4, 3, 0, 0])), (22, hs_msg(20, &[0; 32])), (23, b"data".to_vec())] {
                s.extend(d.seal(t, &m, 0));
            }
        }
        (w, s)
    };
    c.space("message-types", 2 * 4 * 256 * 4 * 2, |i| { let (w, s) = mk(i); ws[w].describe(&s) }, |i, p| {
        let (w, st) = mk(i);
        let w = &ws[w];
        let v = w.verdict(&st);
        let mut s = Sess::new(&w.cfg, &w.rng);
        s.io().inbound = st;
        let ret = s.connect();
        let label = judge(w, &v, &mut s, &ret)?;
        for call in 0..3 {
            let ended = !ret.wants();
            if ended {
                // a new connection, which the rest of the old stream must not complete
                s.io().closes = 0;
                getrandom::set_script(w.rng.clone());
            }
            let r = s.connect();
            if r.code == 1 {
                return Err(format!("call {} reported success", call + 2));
            }
            if !ended && r != ret {
                return Err(format!("without new data call {} returned {} after {}", call + 2, r.show(), ret.show()));
            }
            if ended && r.wants() {
                break;
            }
        }
        done(&mut s, p, &label);
        Ok(())
    });
}
