//! C07: errors are signalled once, truthfully, to both sides.
use super::*;
use crate::gen::*;
use refmodel::model::{End, Verdict};
use refmodel::tls::*;

/// After an ended connection: closing again changes nothing.
fn idle_close(s: &mut Sess) -> Result<(), String> {
    let (o, cl, r, w) = (s.io().out.len(), s.io().closes, s.io().rcalls, s.io().wcalls);
    s.close();
    let io = s.io();
    if (io.out.len(), io.closes, io.rcalls, io.wcalls) != (o, cl, r, w) {
        return Err("turtls_close on an ended connection used the transport".into());
    }
    Ok(())
}

fn ended(w: &World, stream: &[u8], p: &mut mcrt::Probe) -> Result<(), String> {
    let v = w.verdict(stream);
    let mut s = Sess::new(&w.cfg, &w.rng);
    s.io().inbound = stream.to_vec();
    let ret = s.connect();
    let label = judge(w, &v, &mut s, &ret)?;
    if !ret.wants() {
        idle_close(&mut s)?;
    }
    done(&mut s, p, &label);
    Ok(())
}

pub fn run(c: &mut Check) {
    c.bound("all 65536 alert level and code pairs at five points of the handshake, clear or protected, and all alert lengths 0..=5; a catalogue of server behaviours (every class of local error) with the transport failing, or moving every possible number of bytes and then failing or continuing, at the alert's write; turtls_close after every number of inbound bytes and every number of written bytes, with the same transport failures");
    let cfgs = [Cfg::default().suites(1).alpn(&[b"h2"]), Cfg::default().suites(2).alpn(&[b"h2"])];
    let Some(ws) = worlds(c, &cfgs) else { return };
    let bases: Vec<Base> = ws.iter().map(|w| base(w, w.suite())).collect();
    let h2 = ee(&[(16, alpn_ext(b"h2"))]);
    let crt = cert_msg();
    // a point of the handshake: the stream so far and how to send one more record
    let point = |b: usize, st: usize, typ: u8, content: &[u8]| -> Vec<u8> {
        let bs = &bases[b];
        let mut d = bs.keys.server.clone();
        let mut s = vec![];
        match st {
            0 => (),
            1 => s.extend(record(22, &bs.sh[..70])),
            2 => s.extend_from_slice(&bs.stream),
            3 => {
                s.extend_from_slice(&bs.stream);
                s.extend(d.seal(22, &h2[..9], 0));
            },
            4 => {
                s.extend_from_slice(&bs.stream);
                s.extend(d.seal(22, &h2, 0));
            },
            _ => {
                s.extend_from_slice(&bs.stream);
                s.extend(d.seal(22, &[&h2[..], &crt[..60]].concat(), 0));
            },
        }
        s.extend(if st < 2 { record(typ, content) } else { d.seal(typ, content, 0) });
        s
    };
    let describe = |b: usize, s: &[u8]| ws[b].describe(s);
    let all = c.tier(1u64, 2);
    c.space("peer-alerts", all * 6 * 65536, |i| {
        let [b, st, l, a] = digits(i, [all, 6, 256, 256]);
        describe(b, &point(b, st, 21, &[l as u8, a as u8]))
    }, |i, p| {
        let [b, st, l, a] = digits(i, [all, 6, 256, 256]);
        ended(&ws[b], &point(b, st, 21, &[l as u8, a as u8]), p)
    });
    let bodies = |len: usize, k: usize| -> Vec<u8> {
        let mut v = vec![2, [0u8, 10, 40, 0][k], 1, 2, 21, 3];
        if k == 3 {
            v[0] = 0;
        }
        v.truncate(len);
        v
    };
    c.space("peer-alert-lengths", 2 * 6 * 7 * 4, |i| {
        let [b, st, l, k] = digits(i, [2, 6, 7, 4]);
        describe(b, &point(b, st, 21, &bodies(l, k)))
    }, |i, p| {
        let [b, st, l, k] = digits(i, [2, 6, 7, 4]);
        ended(&ws[b], &point(b, st, 21, &bodies(l, k)), p)
    });
    // more data behind the alert must not matter
    c.space("behind-the-alert", 2 * 6 * 27 * 3, |i| {
        let [b, st, a, k] = digits(i, [2, 6, 27, 3]);
        format!("alert {} at point {st}, followed by data {k}, suite {b}", all_alerts()[a])
    }, |i, p| {
        let [b, st, a, k] = digits(i, [2, 6, 27, 3]);
        let mut s = point(b, st, 21, &[2, all_alerts()[a]]);
        match k {
            0 => s.extend(record(21, &[2, 80])),
            1 => s.extend_from_slice(&bases[b].stream),
            _ => s.extend([0xff; 40]),
        }
        ended(&ws[b], &s, p)
    });

    // --- local errors with a failing transport
    let cats: Vec<Vec<Scene>> = ws.iter().map(|w| catalogue(w, w.suite())).collect();
    let nc = cats[0].len() as u64;
    c.space("catalogue", 2 * nc, |i| {
        let [b, k] = digits(i, [2, nc]);
        format!("{}\n{}", cats[b][k].name, describe(b, &cats[b][k].stream))
    }, |i, p| {
        let [b, k] = digits(i, [2, nc]);
        ended(&ws[b], &cats[b][k].stream, p)
    });
    if c.failed() {
        return;
    }
    // 29 = the longest alert record: header, two bytes, type, tag
    let errs = [0isize, -1, -2, isize::MIN];
    let plans = 30 * 6;
    let plan = |k: usize| -> Vec<(u64, Ans)> {
        let (short, then) = (k / 6, k % 6);
        let mut v = vec![];
        let mut call = 1;
        if short > 0 {
            v.push((call, Ans::Short(short)));
            call += 1;
        }
        match then {
            0 => v.push((call, Ans::Err(errs[short % 4]))),
            1 => (),
            2 => v.extend([(call, Ans::Short(1)), (call + 1, Ans::Err(0))]),
            3 => v.extend((0..40).map(|j| (call + j, Ans::Short(1)))),
            4 => v.extend([(call, Ans::Err(-1)), (call + 1, Ans::Err(-1)), (call + 2, Ans::Err(-1))]),
            _ => v.extend([(call, Ans::Short(2)), (call + 1, Ans::Short(2)), (call + 2, Ans::Err(0))]),
        }
        v
    };
    let has_err = |pl: &[(u64, Ans)], calls: u64| pl.iter().any(|(n, a)| matches!(a, Ans::Err(_)) && *n < calls);
    c.space("failing-alert-writes", 2 * nc * plans, |i| {
        let [b, k, f] = digits(i, [2, nc, plans]);
        format!("{} with the writes after the ClientHello answering {:?}\n{}", cats[b][k].name, plan(f), describe(b, &cats[b][k].stream))
    }, |i, p| {
        let [b, k, f] = digits(i, [2, nc, plans]);
        let (w, st) = (&ws[b], &cats[b][k].stream);
        let mut s = Sess::new(&w.cfg, &w.rng);
        s.io().inbound = st.clone();
        let want = s.connect();
        let full = s.io().out.clone();
        if want.wants() {
            p.outcome("waits");
            return Ok(());
        }
        let closes = s.io().closes;
        let mut s = Sess::new(&w.cfg, &w.rng);
        s.io().inbound = st.clone();
        let pl = plan(f);
        s.io().wplan = pl.iter().copied().collect();
        let got = s.connect();
        let io = s.io();
        let failed = has_err(&pl, io.wcalls);
        if got != want {
            return Err(format!("returned {} instead of {}", got.show(), want.show()));
        }
        if io.closes != closes || closes != 1 {
            return Err(format!("close callback ran {} times", io.closes));
        }
        if io.io_after_close > 0 {
            return Err("transport used after the close callback".into());
        }
        if !full.starts_with(&io.out) || (!failed && io.out != full) {
            return Err(format!("wrote {} instead of {}", short_hex(&io.out[w.hello_wire.len().min(io.out.len())..]), short_hex(&full[w.hello_wire.len()..])));
        }
        idle_close(&mut s)?;
        let label = if failed { "alert write failed" } else { "alert written in pieces" };
        done(&mut s, p, label);
        Ok(())
    });

    // --- close
    // (scene, inbound bytes available): after that many bytes connect waits, then the caller closes
    let mut closes: Vec<(usize, usize, usize)> = vec![];
    for b in 0..2 {
        for (k, sc) in cats[b].iter().enumerate() {
            if ["flight", "fragmented flight with change_cipher_spec", "coalesced flight"].contains(&&sc.name[..]) {
                closes.extend((0..sc.stream.len()).map(|n| (b, k, n)));
            }
        }
    }
    let ncl = closes.len() as u64;
    let cplans = c.tier(4u64, 30);
    c.space("close-while-reading", ncl * cplans, |i| {
        let [j, f] = digits(i, [ncl, cplans]);
        let (b, k, n) = closes[j];
        format!("turtls_close after {n} bytes of '{}', writes then answering {:?}\n{}", cats[b][k].name, plan(f * 7), describe(b, &cats[b][k].stream[..n]))
    }, |i, p| {
        let [j, f] = digits(i, [ncl, cplans]);
        let (b, k, n) = closes[j];
        let (w, st) = (&ws[b], &cats[b][k].stream[..n]);
        let v = w.verdict(st);
        let mut s = Sess::new(&w.cfg, &w.rng);
        s.io().inbound = st.to_vec();
        let pl = if f == 0 { vec![] } else { plan(f * 7) };
        s.io().wplan = pl.iter().copied().collect();
        let ret = s.connect();
        if !ret.wants() {
            // a prefix of a good flight can only be waited for, unless the reference disagrees
            if !v.ends.iter().any(|e| !matches!(e, End::More)) {
                return Err(format!("connect returned {}", ret.show()));
            }
            p.outcome("ended before the close");
            return Ok(());
        }
        s.close();
        check_close(w, &v, &mut s, has_err(&pl, u64::MAX), w.hello_wire.len())?;
        idle_close(&mut s)?;
        done(&mut s, p, if v.keys.is_some() { "closed under keys" } else { "closed before keys" });
        Ok(())
    });
    close_while_writing(c);
    // close without any connection
    c.space("close-idle", 4, |i| format!("case {i}"), |i, p| {
        let w = &ws[0];
        let mut s = Sess::new(&w.cfg, &w.rng);
        for _ in 0..i {
            idle_close(&mut s)?;
        }
        // and the object still works
        s.io().inbound = cats[0][2].stream.clone();
        let v = w.verdict(&cats[0][2].stream);
        let ret = s.connect();
        let label = judge(w, &v, &mut s, &ret)?;
        done(&mut s, p, &label);
        Ok(())
    });
}

/// What `turtls_close` has to leave behind on a connection whose first flight was written.
pub(super) fn check_close(w: &World, v: &Verdict, s: &mut Sess, faults: bool, from: usize) -> Result<(), String> {
    let io = s.io();
    if io.closes != 1 {
        return Err(format!("close callback ran {} times", io.closes));
    }
    if io.io_after_close > 0 {
        return Err("transport used after the close callback".into());
    }
    let out = io.out.clone();
    if from == w.hello_wire.len() && !out.starts_with(&w.hello_wire) {
        return Err("first flight differs".into());
    }
    let tail = &out[from..];
    if faults {
        // a prefix of an alert: an alert record header, as far as it goes
        let hdr: [u8; 5] = if v.keys.is_some() { [23, 3, 3, 0, 19] } else { [21, 3, 3, 0, 2] };
        if tail.len() > if v.keys.is_some() { 24 } else { 7 } || !tail.iter().zip(hdr).all(|(a, b)| *a == b) {
            return Err(format!("turtls_close wrote {}", refmodel::hex(tail)));
        }
        return Ok(());
    }
    match parse_tail_alert(tail, v.keys.as_ref())? {
        Some((prot, _, 0)) if prot == v.keys.is_some() => Ok(()),
        o => Err(format!("turtls_close sent {o:?} (protected, level, code); close_notify was expected, {}", if v.keys.is_some() { "protected" } else { "in the clear" })),
    }
}

/// Closing while the first flight is only partly written; a name makes it span several records.
pub(super) fn close_while_writing(c: &mut Check) {
    let mut long = Cfg::default().suites(3).alpn(&[b"h2"]);
    long.sni = Some(vec![b'a'; 17000]);
    let Some(more) = worlds(c, &[Cfg::default().suites(3), long]) else { return };
    let mut pts: Vec<(usize, usize)> = vec![];
    for (k, w) in more.iter().enumerate() {
        let n = w.hello_wire.len();
        pts.extend((0..n).filter(|x| *x < 600 || n - x < 600 || (16384 - 40..16384 + 60).contains(x)).map(|x| (k, x)));
    }
    let np = pts.len() as u64;
    c.space("close-while-writing", np * 5, |i| {
        let (k, n) = pts[(i / 5) as usize];
        format!("turtls_close after {n} of {} bytes of the ClientHello were written, transport case {}", more[k].hello_wire.len(), i % 5)
    }, |i, p| {
        let (k, n) = pts[(i / 5) as usize];
        let w = &more[k];
        let mut s = Sess::new(&w.cfg, &w.rng);
        s.io().wstalls = match i % 5 {
            0 => vec![n],
            1 => vec![n, n],
            2 => vec![n, n + 1],
            3 => vec![n, n + 4],
            _ => vec![n, n + 7],
        };
        let ret = s.connect();
        if ret.code == 1 || ret.err != E_WRITE {
            return Err(format!("the write failed, but connect returned {}", ret.show()));
        }
        s.close();
        let out = s.io().out.clone();
        if !out.starts_with(&w.hello_wire[..n]) {
            return Err("what was written is not the ClientHello".into());
        }
        let tail = &out[n..];
        let boundary = split_records(&w.hello_wire[..n]).1.is_empty();
        let want: Vec<u8> = record(21, &[2, 0]);
        let want1: Vec<u8> = record(21, &[1, 0]);
        // between records the server is told, as far as the transport takes it
        let upto = if boundary { [7, 0, 1, 4, 7][i as usize % 5] } else { 0 };
        if tail != &want[..upto] && tail != &want1[..upto] {
            return Err(format!("after {n} bytes of the ClientHello (record boundary: {boundary}) turtls_close wrote {}", refmodel::hex(tail)));
        }
        let (closes, later) = (s.io().closes, s.io().io_after_close);
        if closes != 1 || later > 0 {
            return Err(format!("close callback ran {closes} times, {later} later transport calls"));
        }
        idle_close(&mut s)?;
        done(&mut s, p, if boundary { "closed between records" } else { "closed inside a record" });
        Ok(())
    });
}
