//! C15: queries report what the last connect left, and neither they nor anything else changes more
//! than it should.
use super::c10::{setup, Model, OPS};
use refmodel::tls::record;
use super::*;
use turtls::*;

/// Everything that can be asked.
#[derive(Clone, PartialEq, Eq)]
struct Seen {
    err: i32,
    alert: i32,
    proto: Vec<u8>,
    proto_at: usize,
    config_at: usize,
    config: Vec<u8>,
}
fn ask(s: &Sess) -> Result<Seen, String> {
    // SAFETY: the connection is live; the configuration is plain data, some of it padding that
    // nobody writes.
    unsafe {
        let c = turtls_get_config(s.conn);
        let e = &(*c).extensions;
        let mut config = vec![];
        config.extend((e.server_name as usize).to_ne_bytes());
        config.extend(e.sig_algs.to_ne_bytes());
        config.extend(e.sup_groups.to_ne_bytes());
        config.extend((e.app_protos as usize).to_ne_bytes());
        config.extend(e.app_protos_len.to_ne_bytes());
        config.push(*(&raw const (*c).cipher_suites as *const u8));
        Ok(Seen {
            err: turtls_get_error(s.conn) as i32,
            alert: turtls_get_tls_error(s.conn) as i32,
            proto: s.app_proto()?,
            proto_at: turtls_app_proto(s.conn) as usize,
            config_at: c as usize,
            config,
        })
    }
}
fn differ(a: &Seen, b: &Seen) -> String {
    let f = |x: &Seen| format!("error {} alert {} protocol {:?} at {:#x}, configuration {} at {:#x}", err_name(x.err), x.alert, String::from_utf8_lossy(&x.proto), x.proto_at, refmodel::hex(&x.config), x.config_at);
    format!("{}, before: {}", f(b), f(a))
}

pub fn run(c: &mut Check) {
    c.bound("every sequence of up to 6 (thorough 7) operations out of 11 (connect, close, reconfigure, random source, blocked transport, server records, alerts, garbage), everything that can be asked is asked twice after each; 208000 configurations (unknown bits, absent, empty, malformed and oversized lists) over 5 endings, compared byte for byte after every call");
    let Some((ws, flights)) = setup(c) else { return };
    let k = OPS.len();
    let play = |ops: &[usize], p: &mut mcrt::Probe| -> Result<(), String> {
        let mut s = Sess::new(&ws[0].cfg, &[]);
        let mut m = Model::new(&ws, &flights);
        let mut last = ask(&s)?;
        if last.proto != b"" {
            return Err("a new object reports an application protocol".into());
        }
        for (n, &op) in ops.iter().enumerate() {
            let Some(_) = m.step(&mut s, op).map_err(|e| format!("operation {}: {e}", n + 1))? else { break };
            let count = |s: &mut Sess| {
                let io = s.io();
                (io.out.len(), io.rpos, io.rcalls, io.wcalls, io.closes)
            };
            let before = count(&mut s);
            let now = ask(&s)?;
            let again = ask(&s)?;
            if now != again || count(&mut s) != before {
                return Err(format!("operation {}: asking twice: {}, transport {:?}, before {before:?}", n + 1, differ(&now, &again), count(&mut s)));
            }
            // what this operation may change
            let mut want = last.clone();
            match op {
                0 => (want.err, want.alert, want.proto) = (now.err, now.alert, now.proto.clone()),
                5 | 6 => want.config = now.config.clone(),
                _ => (),
            }
            if now != want {
                return Err(format!("operation {} ({}) changed what is reported: {}", n + 1, OPS[op], differ(&want, &now)));
            }
            if !now.proto.is_empty() && now.proto != b"h2" {
                return Err(format!("operation {}: application protocol {:?}", n + 1, String::from_utf8_lossy(&now.proto)));
            }
            last = now;
        }
        done(&mut s, p, &format!("{}({}) {}", err_name(last.err), last.alert, String::from_utf8_lossy(&last.proto)));
        Ok(())
    };
    for depth in 1..=c.tier(6u32, 7) {
        let ops = |mut i: u64| {
            (0..depth)
                .map(|_| {
                    let o = (i % k as u64) as usize;
                    i /= k as u64;
                    o
                })
                .collect::<Vec<_>>()
        };
        c.space(&format!("operations-{depth}"), (k as u64).pow(depth), |i| ops(i).iter().map(|o| OPS[*o]).collect::<Vec<_>>().join("; "), |i, p| play(&ops(i), p));
        if c.failed() {
            return;
        }
    }
    // --- configurations of every kind stay as they were written, in every field and every byte of
    // the names
    let suites: Vec<u8> = vec![0, 1, 2, 3, 4, 7, 0x80, 0x83, 0xfd, 0xff];
    let flags: Vec<u16> = vec![0, 1, 2, 3, 0x8000, 0x8001, 0xfffe, 0xffff];
    let names: Vec<Option<&[u8]>> = vec![None, Some(b""), Some(b"a"), Some(b"Host.Example."), Some(b"\xff \x01")];
    // contents and what the length field says
    let long: Vec<u8> = [&[255u8][..], &[b'p'; 255]].concat().repeat(300);
    let lists: Vec<(Option<&[u8]>, usize)> = vec![
        (None, 0), (None, 3), (None, usize::MAX), (Some(b""), 0), (Some(b"\x02h2"), 0), (Some(b"\x02h2"), 3), (Some(b"\x02H2\x08http/1.1"), 12), (Some(b"\x02h2\0"), 4), (Some(b"\x05h2"), 3), (Some(b"\x02h2\x02h2"), 6),
        (Some(&long), 65536), (Some(&long), 70000), (Some(&long), 256),
    ];
    let ends = 5u64;
    let radix = [suites.len() as u64, flags.len() as u64, flags.len() as u64, names.len() as u64, lists.len() as u64, ends];
    c.space("configurations", radix.iter().product(), |i| {
        let [a, b, d, e, f, g] = digits(i, radix);
        format!("suites {:#x}, signature algorithms {:#x}, groups {:#x}, server name {:?}, protocols {:?} with length {}, then ending {g}", suites[a], flags[b], flags[d], names[e], lists[f].0.map(|x| refmodel::hex(&x[..x.len().min(20)])), lists[f].1)
    }, |i, p| {
        let [a, b, d, e, f, g] = digits(i, radix);
        let mut s = Sess::new(&Cfg::default(), &cheap_rng());
        let name: Option<Vec<u8>> = names[e].map(|n| [n, &[0]].concat());
        let list: Option<Vec<u8>> = lists[f].0.map(|l| l.to_vec());
        // SAFETY: the connection is live, the strings live until the end of the case.
        let at = unsafe {
            let c = turtls_get_config(s.conn);
            *(&raw mut (*c).cipher_suites as *mut u8) = suites[a];
            (*c).extensions.sig_algs = flags[b];
            (*c).extensions.sup_groups = flags[d];
            (*c).extensions.server_name = name.as_ref().map_or(std::ptr::null(), |n| n.as_ptr() as *const _);
            (*c).extensions.app_protos = list.as_ref().map_or(std::ptr::null(), |n| n.as_ptr() as *const _);
            (*c).extensions.app_protos_len = lists[f].1;
            c as usize
        };
        // what was written, not what a first query makes of it
        let mut seen = Seen { err: 0, alert: 0, proto: vec![], proto_at: 0, config_at: at, config: vec![] };
        seen.config.extend((name.as_ref().map_or(0, |n| n.as_ptr() as usize)).to_ne_bytes());
        seen.config.extend(flags[b].to_ne_bytes());
        seen.config.extend(flags[d].to_ne_bytes());
        seen.config.extend((list.as_ref().map_or(0, |n| n.as_ptr() as usize)).to_ne_bytes());
        seen.config.extend(lists[f].1.to_ne_bytes());
        seen.config.push(suites[a]);
        let same = |s: &Sess, what: &str| -> Result<(), String> {
            let now = ask(s)?;
            if now.config != seen.config || now.config_at != seen.config_at {
                return Err(format!("{what} changed the configuration from {} to {}", refmodel::hex(&seen.config), refmodel::hex(&now.config)));
            }
            if name.as_deref() != names[e].map(|n| [n, &[0]].concat()).as_deref() || list.as_deref() != lists[f].0 {
                return Err(format!("{what} changed the bytes of a name"));
            }
            Ok(())
        };
        same(&s, "asking")?;
        match g {
            0 => (),
            1 => s.io().inbound = record(21, &[2, 40]),
            2 => s.io().inbound = vec![0x7f; 50],
            3 => s.io().wstalls = vec![20; 4],
            _ => s.io().inbound = flights[0][0].clone(),
        }
        for n in 0..2 {
            let r = s.connect();
            same(&s, &format!("connect {} ({})", n + 1, r.show()))?;
            if g == 4 {
                s.close();
                same(&s, "close")?;
                s.io().rpos = 0;
            }
            (s.io().closes, s.io().io_after_close) = (0, 0);
            getrandom::set_script(cheap_rng());
        }
        s.close();
        same(&s, "close")?;
        p.trace();
        p.steps(4);
        Ok(())
    });
    // null pointers where the library documents nothing but checks for them
    c.space("null", 3, |i| ["turtls_free", "turtls_close", "turtls_app_proto"][i as usize].to_string(), |i, p| {
        // SAFETY: the functions return at once.
        unsafe {
            match i {
                0 => turtls_free(std::ptr::null_mut()),
                1 => turtls_close(std::ptr::null_mut()),
                _ => {
                    if !turtls_app_proto(std::ptr::null()).is_null() {
                        return Err("a protocol without an object".into());
                    }
                },
            }
        }
        p.state(i);
        p.steps(1);
        p.trace();
        Ok(())
    });
}
