//! C04: a ServerHello is accepted only if it selects what was offered.
use super::*;
use crate::gen::*;
use refmodel::p256::{self, L};
use refmodel::tls::*;

/// Interesting encodings of the server's point (64 bytes).
pub fn points(n: u64) -> Vec<Vec<u8>> {
    let c = p256::curve();
    let mut v: Vec<Vec<u8>> = vec![];
    for k in 1..=n {
        let p = c.mul_g(&[k, 0, 0, 0]).unwrap();
        v.push(encode_point(&p));
        v.push(encode_point(&c.neg(&Some(p)).unwrap()));
    }
    // points with boundary x coordinates
    let pm = p256::limbs("ffffffff00000001000000000000000000000000ffffffffffffffffffffffff");
    let mut xs: Vec<L> = (0..40u64).map(|i| [i, 0, 0, 0]).collect();
    for i in 0..256 {
        let mut x = [0u64; 4];
        x[i / 64] = 1 << (i % 64);
        xs.push(x);
    }
    for i in 1..40u64 {
        xs.push([pm[0] - i, pm[1], pm[2], pm[3]]);
    }
    let mut lifted = 0;
    for x in xs {
        if let Some(p) = c.lift_x(&x) {
            if lifted < 2 * n {
                v.push(encode_point(&p));
                lifted += 1;
            }
        }
    }
    // off the curve, not reduced, all-zero, all-one
    let g = encode_point(&c.mul_g(&[5, 0, 0, 0]).unwrap());
    for i in 0..512 {
        let mut b = g.clone();
        b[1 + i / 8] ^= 1u8 << (i % 8);
        v.push(b);
    }
    for (a, b) in [(0u8, 0u8), (0, 1), (1, 0), (255, 255), (0, 255), (255, 0)] {
        let mut e = vec![4u8];
        e.extend_from_slice(&[a; 32]);
        e.extend_from_slice(&[b; 32]);
        v.push(e);
    }
    let p_be = p256::to_be(&pm);
    let gx = g[1..33].to_vec();
    let gy = g[33..].to_vec();
    let add = |a: &[u8], m: &[u8]| -> Option<Vec<u8>> {
        let mut r = vec![0; 32];
        let mut c = 0u16;
        for i in (0..32).rev() {
            let s = a[i] as u16 + m[i] as u16 + c;
            r[i] = s as u8;
            c = s >> 8;
        }
        (c == 0).then_some(r)
    };
    for (x, y) in [(p_be.to_vec(), gy.clone()), (gx.clone(), p_be.to_vec()), (p_be.to_vec(), p_be.to_vec())] {
        v.push([vec![4], x, y].concat());
    }
    // coordinates congruent to those of a real point but not reduced
    for k in 1..200u64 {
        if let Some(p) = c.lift_x(&[k, 0, 0, 0]) {
            let e = encode_point(&p);
            if let Some(x) = add(&e[1..33], &p_be) {
                v.push([vec![4], x, e[33..].to_vec()].concat());
            }
            if let Some(y) = add(&e[33..], &p_be) {
                v.push([vec![4], e[1..33].to_vec(), y].concat());
            }
        }
    }
    v.push([gy.clone(), gx.clone()].concat()); // swapped, no form byte
    v.push([vec![4], gy, gx].concat());
    v
}

pub fn run(c: &mut Check) {
    c.bound("all 65536 values of legacy version, suite, selected version and group; all 256 values of message type, compression and point form; all 256 session id lengths; all extension lists of up to 4 over 9 symbols; every single-byte replacement, every truncation, every value of the length fields near the truth; for the suite sets {1}, {2}, {1,2}");
    c.bound("points: 20 000 (thorough: 200 000) consecutive multiples of the generator, negatives of the first, points with boundary x coordinates, every single-bit change of one point, unreduced and degenerate coordinates");
    let Some(ws) = worlds(c, &[Cfg::default().suites(1), Cfg::default().suites(2), Cfg::default().suites(3)]) else { return };
    let go = |w: &World, msg: &[u8], p: &mut mcrt::Probe| run_stream(w, &probe_hello(w, record(22, msg)), p);
    let desc = |w: &World, msg: &[u8]| w.describe(&probe_hello(w, record(22, msg)));
    let w3 = &ws[2];

    macro_rules! field {
        ($name:expr, $n:expr, $ws:expr, $f:expr) => {{
            let list: &[World] = $ws;
            let make = |i: u64| -> (&World, Vec<u8>) {
                let w = &list[(i / $n) as usize];
                let mut sh = w.server_hello(w.suite());
                #[allow(clippy::redundant_closure_call)]
                let m: Vec<u8> = $f(w, &mut sh, i % $n);
                (w, m)
            };
            c.space(
                $name,
                $n * list.len() as u64,
                |i| {
                    let (w, m) = make(i);
                    desc(w, &m)
                },
                |i, p| {
                    let (w, m) = make(i);
                    go(w, &m, p)
                },
            );
        }};
    }
    field!("suite", 65536, &ws, |_: &World, s: &mut ServerHello, i| {
        s.suite = i as u16;
        s.msg()
    });
    field!("legacy-version", 65536, &ws[2..], |_: &World, s: &mut ServerHello, i| {
        s.version = i as u16;
        s.msg()
    });
    field!("selected-version", 65536, &ws[2..], |_: &World, s: &mut ServerHello, i| {
        s.exts[0].1 = (i as u16).to_be_bytes().to_vec();
        s.msg()
    });
    field!("group", 65536, &ws[2..], |_: &World, s: &mut ServerHello, i| {
        s.exts[1].1[..2].copy_from_slice(&(i as u16).to_be_bytes());
        s.msg()
    });
    field!("extension-type", 65536 * 2, &ws[2..], |_: &World, s: &mut ServerHello, i| {
        // an unknown extension, before or after the required ones
        let e = ((i / 2) as u16, vec![]);
        if i % 2 == 0 {
            s.exts.push(e);
        } else {
            s.exts.insert(0, e);
        }
        s.msg()
    });
    field!("compression", 256, &ws, |_: &World, s: &mut ServerHello, i| {
        s.compression = i as u8;
        s.msg()
    });
    field!("message-type", 256, &ws, |_: &World, s: &mut ServerHello, i| {
        s.msg_type = i as u8;
        s.msg()
    });
    field!("point-form", 256, &ws, |_: &World, s: &mut ServerHello, i| {
        s.exts[1].1[4] = i as u8;
        s.msg()
    });
    field!("session-id", 256 * 2, &ws, |_: &World, s: &mut ServerHello, i| {
        let n = (i / 2) as usize;
        let mut m;
        if i % 2 == 0 {
            s.session_id = vec![0x41; n];
            m = s.msg();
        } else {
            // the length byte alone
            m = s.msg();
            m[4 + 34] = n as u8;
        }
        m.shrink_to_fit();
        m
    });
    field!("random", 256 * 4, &ws[2..], |_: &World, s: &mut ServerHello, i| {
        match i / 256 {
            0 => s.random = [i as u8; 32],
            1 => s.random[(i % 32) as usize] ^= 1u8 << (i / 32 % 8),
            2 => s.random[24..].copy_from_slice(&[b'D', b'O', b'W', b'N', b'G', b'R', b'D', i as u8]),
            _ => {
                // HelloRetryRequest and its neighbours
                let hrr = refmodel::unhex("cf21ad74e59a6111be1d8c021e65b891c2a211167abb8c5e079e09e2c8a8339c");
                s.random.copy_from_slice(&hrr);
                if i % 256 < 255 {
                    s.random[(i % 32) as usize] ^= 1u8 << (i / 32 % 8);
                } else {
                    // the real form: only the group
                    s.exts[1].1.truncate(2);
                }
            },
        }
        s.msg()
    });
    // the complete HelloRetryRequest, with and without a usable share
    field!("hello-retry", 4, &ws, |_: &World, s: &mut ServerHello, i| {
        s.random.copy_from_slice(&refmodel::unhex("cf21ad74e59a6111be1d8c021e65b891c2a211167abb8c5e079e09e2c8a8339c"));
        if i & 1 == 1 {
            s.exts[1].1.truncate(2);
        }
        if i & 2 == 2 {
            s.exts.push((44, vec![0, 1, 7]));
        }
        s.msg()
    });
    field!("share-length", 301 * 4, &ws[2..], |_: &World, s: &mut ServerHello, i| {
        let n = (i / 4) as usize;
        let key = s.exts[1].1[4..].to_vec();
        let mut k = key.clone();
        match i % 4 {
            // consistent lengths, cut or padded key
            0 => {
                k.resize(n, 0);
                s.exts[1].1 = ks_entry(0x17, &k);
            },
            // only the inner length lies
            1 => s.exts[1].1[2..4].copy_from_slice(&(n as u16).to_be_bytes()),
            // only the extension is cut or padded
            2 => s.exts[1].1.resize(n, 4),
            // the key is padded in front
            _ => {
                let mut k = vec![4; n.saturating_sub(65)];
                k.extend_from_slice(&key[65usize.saturating_sub(n).min(65)..]);
                s.exts[1].1 = ks_entry(0x17, &k);
            },
        }
        s.msg()
    });
    field!("version-length", 70 * 2, &ws[2..], |_: &World, s: &mut ServerHello, i| {
        let n = (i / 2) as usize;
        if i % 2 == 0 {
            s.exts[0].1 = [3, 4].repeat(n)[..n].to_vec();
        } else {
            // the list form of a ClientHello
            let mut v = vec![n as u8];
            v.extend_from_slice(&[3, 4].repeat(n)[..n]);
            s.exts[0].1 = v;
        }
        s.msg()
    });
    let pts = points(c.tier(8, 60));
    field!("point", pts.len() as u64, &ws[2..], |_: &World, s: &mut ServerHello, i: u64| {
        s.exts[1].1 = ks_entry(0x17, &pts[i as usize]);
        s.msg()
    });
    // consecutive multiples of the generator: every value of every byte of a coordinate turns up
    let top = c.tier(20_000u64, 200_000);
    let cks: [L; 2] = [[1, 0, 0, 0], [3, 0, 0, 0]];
    c.space(
        "generator-multiples",
        top * 2,
        |i| format!("client key {}, server key {}", cks[(i % 2) as usize][0], 1 + i / 2),
        |i, p| {
            let w = World::with(Cfg::default().suites(1 + (i / 2 % 2) as u8), super::c05::rng_for(&cks[(i % 2) as usize]), [1 + i / 2, 0, 0, 0], None)?;
            let s = probe_hello(&w, record(22, &w.server_hello(w.suite()).msg()));
            let v = refmodel::model::run(&w.offer, &s, &mut |_| dh_memo(&w.server_priv, &w.client_pub));
            if v.stage < 1 {
                return Err(format!("harness: reference stopped at stage {}: {}", v.stage, v.why));
            }
            run_verdict(&w, &s, &v, p)
        },
    );
    // extension lists
    let k = 9u64;
    let lists: u64 = (0..=4).map(|l| k.pow(l)).sum();
    field!("extension-lists", lists, &ws, |w: &World, s: &mut ServerHello, mut i: u64| {
        let mut len = 0;
        while i >= k.pow(len) {
            i -= k.pow(len);
            len += 1;
        }
        let ok_share = s.exts[1].clone();
        s.exts.clear();
        for _ in 0..len {
            let e = match i % k {
                0 => (43, vec![3, 4]),
                1 => ok_share.clone(),
                2 => (43, vec![3, 3]),
                3 => (51, ks_entry(0x18, &w.server_pub)),
                4 => (0x1234, vec![1]),
                5 => (44, vec![0, 1, 9]),
                6 => (43, vec![]),
                7 => (41, vec![0, 0]),
                _ => (51, vec![0, 0x17]),
            };
            s.exts.push(e);
            i /= k;
        }
        s.msg()
    });
    // mutations of the whole message
    let len = w3.server_hello(w3.suite()).msg().len() as u64;
    field!("byte-replacement", len * 255, &ws, |_: &World, s: &mut ServerHello, i| {
        let mut m = s.msg();
        m[(i / 255) as usize] ^= 1 + (i % 255) as u8;
        m
    });
    field!("truncation", len * 3, &ws, |_: &World, s: &mut ServerHello, i| {
        let b = s.body();
        let n = (i / 3) as usize;
        match i % 3 {
            // the message ends early, with a true length
            0 => hs_msg(2, &b[..n.min(b.len())]),
            // trailing bytes
            1 => hs_msg(2, &[b, vec![0; n + 1]].concat()),
            // the block length follows the cut
            _ => {
                let n = n.min(b.len());
                let mut b = b[..n].to_vec();
                if n >= 40 {
                    let l = (n - 40) as u16;
                    b[38..40].copy_from_slice(&l.to_be_bytes());
                }
                hs_msg(2, &b)
            },
        }
    });
    field!("block-length", 65536, &ws[2..], |_: &World, s: &mut ServerHello, i| {
        let mut m = s.msg();
        m[4 + 38..4 + 40].copy_from_slice(&(i as u16).to_be_bytes());
        m
    });
    field!("extension-length", 65536 * 2, &ws[2..], |_: &World, s: &mut ServerHello, i| {
        let mut m = s.msg();
        let at = if i % 2 == 0 { 4 + 42 } else { 4 + 48 };
        m[at..at + 2].copy_from_slice(&((i / 2) as u16).to_be_bytes());
        m
    });
    // two changed bytes at once
    let vals: Vec<u8> = c.tier(vec![1, 0x80], vec![1, 2, 4, 0x17, 0x80, 0xff]);
    let nv = vals.len() as u64;
    let pairs = len * (len - 1) / 2;
    field!("two-bytes", pairs * nv * nv, &ws[2..], |_: &World, s: &mut ServerHello, i: u64| {
        let mut m = s.msg();
        let (mut q, v) = (i / (nv * nv), i % (nv * nv));
        let mut a = 0;
        while q >= len - 1 - a {
            q -= len - 1 - a;
            a += 1;
        }
        let b = a + 1 + q;
        m[a as usize] ^= vals[(v % nv) as usize];
        m[b as usize] ^= vals[(v / nv) as usize];
        m
    });
}
