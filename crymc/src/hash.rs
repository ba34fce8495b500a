//! K01 and K02: hashes, HMAC, HKDF.
use crate::util::*;
use crylib::hash::{BlockHasher, BufHasher, Hasher, Sha256, Sha512};
use crylib::hmac::Hmac;
use refmodel::hash::{self as rf, H};

trait Alg: Clone + 'static {
    const H: H;
    const NAME: &'static str;
    const B: usize;
    type Buf: Clone;
    fn hash(m: &[u8]) -> Vec<u8>;
    fn buf_hash(m: &[u8]) -> Vec<u8>;
    /// `blocks` is a whole number of blocks.
    fn blocks(blocks: &[u8]) -> Self;
    fn more(&mut self, blocks: &[u8]);
    fn fin(self) -> Vec<u8>;
    fn fin_with(self, m: &[u8]) -> Vec<u8>;
    fn bnew() -> Self::Buf;
    fn bup(b: &mut Self::Buf, m: &[u8]);
    fn bblock(b: &mut Self::Buf, m: &[u8]);
    fn bget(b: &Self::Buf) -> Vec<u8>;
    fn bfin(b: Self::Buf) -> Vec<u8>;
    fn bfin_with(b: Self::Buf, m: &[u8]) -> Vec<u8>;
    fn mac_auth(key: &[u8], m: &[u8]) -> Vec<u8>;
    /// Whole blocks first, then `finish_with(tail)` or `finish()`.
    fn mac_blocks(key: &[u8], blocks: &[u8], tail: Option<&[u8]>) -> Vec<u8>;
    /// `update_with` for every part, then `finish_with(tail)` or `finish()`.
    fn mac_parts(key: &[u8], parts: &[&[u8]], tail: Option<&[u8]>) -> Vec<u8>;
    fn extract(ikm: &[u8], salt: &[u8]) -> Vec<u8>;
    fn expand(prk: &[u8], info: &[u8], out: &mut [u8]);
}

macro_rules! alg {
    ($t:ty, $h:expr, $name:literal, $hl:literal, $bl:literal) => {
        impl Alg for $t {
            const H: H = $h;
            const NAME: &'static str = $name;
            const B: usize = $bl;
            type Buf = BufHasher<$hl, $bl, $t>;
            fn hash(m: &[u8]) -> Vec<u8> {
                <$t as Hasher<$hl>>::hash(m).to_vec()
            }
            fn buf_hash(m: &[u8]) -> Vec<u8> {
                <Self::Buf as Hasher<$hl>>::hash(m).to_vec()
            }
            fn blocks(blocks: &[u8]) -> Self {
                let mut s = <$t as Hasher<$hl>>::new();
                s.more(blocks);
                s
            }
            fn more(&mut self, blocks: &[u8]) {
                for b in blocks.chunks_exact($bl) {
                    BlockHasher::update(self, b.try_into().unwrap());
                }
            }
            fn fin(self) -> Vec<u8> {
                Hasher::finish(self).to_vec()
            }
            fn fin_with(self, m: &[u8]) -> Vec<u8> {
                Hasher::finish_with(self, m).to_vec()
            }
            fn bnew() -> Self::Buf {
                <Self::Buf as Hasher<$hl>>::new()
            }
            fn bup(b: &mut Self::Buf, m: &[u8]) {
                b.update_with(m)
            }
            fn bblock(b: &mut Self::Buf, m: &[u8]) {
                BlockHasher::update(b, m.try_into().unwrap())
            }
            fn bget(b: &Self::Buf) -> Vec<u8> {
                b.get().to_vec()
            }
            fn bfin(b: Self::Buf) -> Vec<u8> {
                Hasher::finish(b).to_vec()
            }
            fn bfin_with(b: Self::Buf, m: &[u8]) -> Vec<u8> {
                Hasher::finish_with(b, m).to_vec()
            }
            fn mac_auth(key: &[u8], m: &[u8]) -> Vec<u8> {
                Hmac::<$hl, $bl, $t>::auth(key, m).to_vec()
            }
            fn mac_blocks(key: &[u8], blocks: &[u8], tail: Option<&[u8]>) -> Vec<u8> {
                let mut s = Hmac::<$hl, $bl, $t>::new(key);
                for b in blocks.chunks_exact($bl) {
                    s.update(b.try_into().unwrap());
                }
                match tail {
                    Some(t) => s.finish_with(t).to_vec(),
                    None => s.finish().to_vec(),
                }
            }
            fn mac_parts(key: &[u8], parts: &[&[u8]], tail: Option<&[u8]>) -> Vec<u8> {
                let mut s = Hmac::<$hl, $bl, Self::Buf>::new(key);
                for q in parts {
                    s.update_with(q);
                }
                match tail {
                    Some(t) => s.finish_with(t).to_vec(),
                    None => s.finish().to_vec(),
                }
            }
            fn extract(ikm: &[u8], salt: &[u8]) -> Vec<u8> {
                crylib::hkdf::extract::<$hl, $bl, $t>(ikm, salt).to_vec()
            }
            fn expand(prk: &[u8], info: &[u8], out: &mut [u8]) {
                crylib::hkdf::expand::<$hl, $bl, $t>(out, prk.try_into().unwrap(), info)
            }
        }
    };
}
alg!(Sha256, H::Sha256, "SHA-256", 32, 64);
alg!(Sha512, H::Sha512, "SHA-512", 64, 128);

pub fn k01(c: &mut Check) {
    c.bound("lengths 0..=N in one piece with three contents; all two-way splits; all sequences of up to 4 (thorough: 5) incremental operations over a 10-symbol alphabet; all one-bit messages of up to 4 blocks");
    c.bound("of messages of 2^29 bytes and more, only zeros of four lengths per hash (2^29, 2^32, and 13 more)");
    k01_alg::<Sha256>(c);
    k01_alg::<Sha512>(c);
    long::<Sha256>(c);
    long::<Sha512>(c);
}

/// 2^29 bytes are 2^32 bits, 2^32 bytes are beyond a 32-bit count of bytes.
fn long<A: Alg>(c: &mut Check) {
    let mut cases = vec![];
    for &(name, len, want) in LONG.iter().filter(|x| x.0 == A::NAME) {
        // a single slice of 4 GiB is left to the thorough tier
        for way in 0..4 {
            if len < 1 << 32 || way < 2 || c.thorough {
                cases.push((name, len, want, way));
            }
        }
    }
    c.case_seconds = 600;
    c.items(&format!("{} long", A::NAME), &cases, |x| format!("{} zero bytes, way of hashing {}", x.1, x.3), |&(_, len, want, way), p| {
        let chunk = vec![0u8; 1 << 20];
        let n = len as usize >> 20;
        let tail = &chunk[..len as usize - (n << 20)];
        let got = match way {
            0 => {
                // blocks straight into the hasher
                let mut s = A::blocks(&[]);
                for _ in 0..n {
                    s.more(&chunk);
                }
                if tail.is_empty() { s.fin() } else { s.fin_with(tail) }
            },
            1 => {
                let mut s = A::bnew();
                A::bup(&mut s, tail);
                for _ in 0..n {
                    A::bup(&mut s, &chunk);
                }
                A::bfin(s)
            },
            2 => {
                let mut s = A::bnew();
                for _ in 0..n {
                    A::bup(&mut s, &chunk);
                }
                A::bfin_with(s, tail)
            },
            _ => A::hash(&vec![0u8; len as usize]),
        };
        p.trace();
        p.steps(1);
        p.state(h64(&got));
        p.outcome("ok");
        if hex(&got) != want {
            return Err(format!("digest {} instead of {want}", hex(&got)));
        }
        Ok(())
    });
    c.case_seconds = 30;
}
include!("long_digests.rs");

fn k01_alg<A: Alg>(c: &mut Check) {
    let nm = A::NAME;
    let max = c.tier(1300, 9000u64);
    c.space(&format!("{nm} lengths"), (max + 1) * 3, |i| format!("{} bytes of {}", i / 3, FILLS[(i % 3) as usize]), |i, p| {
        let m = fill((i % 3) as usize, (i / 3) as usize);
        let want = A::H.hash(&m);
        p.trace();
        p.steps(5);
        p.state(h64(&want));
        p.outcome("ok");
        same("hash", &A::hash(&m), &want)?;
        same("BufHasher::hash", &A::buf_hash(&m), &want)?;
        same("finish_with", &A::blocks(&[]).fin_with(&m), &want)?;
        let mut b = A::bnew();
        A::bup(&mut b, &m);
        same("update_with, finish", &A::bfin(b), &want)?;
        same("BufHasher::finish_with", &A::bfin_with(A::bnew(), &m), &want)
    });
    let bits = 4 * A::B as u64 * 8;
    c.space(&format!("{nm} one-bit messages"), bits * 2, |i| format!("bit {} set in a message of {} bytes", i / 2, len_of(i, A::B)), |i, p| {
        let mut m = vec![0; len_of(i, A::B)];
        m[(i / 16) as usize] ^= 1 << (i / 2 % 8);
        let want = A::H.hash(&m);
        p.trace();
        p.steps(1);
        p.state(h64(&want));
        p.outcome("ok");
        same("hash", &A::hash(&m), &want)
    });
    // whole blocks, then the rest
    let (k, t) = (5, 3 * A::B as u64 + 2);
    c.space(&format!("{nm} blocks then rest"), k * t, |i| format!("{} blocks by update, then {} bytes", i / t, i % t), |i, p| {
        let (k, t) = ((i / t) as usize, (i % t) as usize);
        let m = det_bytes(5, k * A::B + t);
        let want = A::H.hash(&m);
        p.trace();
        p.steps(k as u64 + 1);
        p.state(h64(&want));
        p.outcome("ok");
        let s = A::blocks(&m[..k * A::B]);
        same("finish_with", &s.clone().fin_with(&m[k * A::B..]), &want)?;
        if t == 0 {
            same("finish", &s.fin(), &want)?;
        }
        Ok(())
    });
    let n = c.tier(2 * A::B as u64 + 3, 4 * A::B as u64 + 3);
    c.space(&format!("{nm} two parts"), n * n, |i| format!("{} bytes, then {}", i / n, i % n), |i, p| {
        let (a, b) = ((i / n) as usize, (i % n) as usize);
        let m = det_bytes(9, a + b);
        let want = A::H.hash(&m);
        let half = A::H.hash(&m[..a]);
        p.trace();
        p.steps(4);
        p.state(h64(&want));
        p.outcome("ok");
        let mut s = A::bnew();
        A::bup(&mut s, &m[..a]);
        same("get after part one", &A::bget(&s), &half)?;
        let other = s.clone();
        A::bup(&mut s, &m[a..]);
        same("get after part two", &A::bget(&s), &want)?;
        same("finish after part two", &A::bfin(s), &want)?;
        same("finish_with on a clone", &A::bfin_with(other.clone(), &m[a..]), &want)?;
        same("finish on a clone", &A::bfin(other), &half)
    });
    // operation sequences
    let b = A::B;
    let lens = [0, 1, 7, b / 2, b - 1, b, b + 1, 2 * b, 2 * b + 1];
    let depth = c.tier(4, 5);
    let ops = lens.len() as u64 + 1;
    let name = move |o: usize| match lens.get(o) {
        Some(l) => format!("update_with({l})"),
        None => "update(block)".into(),
    };
    c.space(
        &format!("{nm} operation sequences"),
        ops.pow(depth),
        |i| (0..depth).map(|k| name((i / ops.pow(k) % ops) as usize)).collect::<Vec<_>>().join(", "),
        |i, p| {
            let mut s = A::bnew();
            let all = det_bytes(11, 11 * A::B);
            let mut at = 0;
            p.trace();
            for k in 0..depth {
                let o = (i / ops.pow(k) % ops) as usize;
                let l = lens.get(o).copied().unwrap_or(A::B);
                let part = &all[at..at + l];
                if o < lens.len() {
                    A::bup(&mut s, part);
                } else {
                    A::bblock(&mut s, part);
                }
                at += l;
                p.steps(1);
                // a prefix that ends here is checked by the first sequence that contains it
                if k + 1 < depth && i / ops.pow(k + 1) != 0 {
                    continue;
                }
                let want = A::H.hash(&all[..at]);
                p.state(mix(h64(&want), k as u64));
                same(&format!("get after operation {k}"), &A::bget(&s), &want)?;
                same(&format!("finish after operation {k}"), &A::bfin(s.clone()), &want)?;
                same(&format!("finish_with after operation {k}"), &A::bfin_with(s.clone(), b"abc"), &A::H.hash(&[&all[..at], b"abc"].concat()))?;
            }
            p.outcome("ok");
            Ok(())
        },
    );
}
fn len_of(i: u64, b: usize) -> usize {
    let bit = i / 2;
    if i % 2 == 0 {
        (bit / 8 + 1) as usize
    } else {
        4 * b
    }
}

pub fn k02(c: &mut Check) {
    c.bound("every key length up to three blocks and a half with every message length in a list of boundary lengths; all two- and three-way splits of messages of up to 2 blocks; every HKDF salt length up to 3 blocks, every output length the RFC allows; keys, messages, salts, keying material and infos around every power of two up to 2^22 (thorough 2^25) bytes");
    k02_alg::<Sha256>(c);
    k02_alg::<Sha512>(c);
}

fn k02_alg<A: Alg>(c: &mut Check) {
    let (nm, b, h) = (A::NAME, A::B, A::H.size());
    let keys = (3 * b + b / 2) as u64;
    let mut msgs: Vec<usize> = vec![0, 1, 2, 3, 31, 32, 33, h - 1, h, h + 1];
    for k in 1..=4 {
        msgs.extend([k * b - 18, k * b - 17, k * b - 16, k * b - 10, k * b - 9, k * b - 8, k * b - 1, k * b, k * b + 1]);
    }
    if c.tier(false, true) {
        msgs = (0..=4 * b).collect();
    }
    msgs.sort();
    msgs.dedup();
    let nm_ = msgs.len() as u64;
    c.space(
        &format!("HMAC-{nm} keys and messages"),
        keys * nm_ * 2,
        |i| format!("key of {} bytes, message of {} bytes, contents {}", i / 2 / nm_, msgs[(i / 2 % nm_) as usize], i % 2),
        |i, p| {
            let f = i % 2;
            let key = if f == 0 { det_bytes(21, (i / 2 / nm_) as usize) } else { vec![0xff; (i / 2 / nm_) as usize] };
            let m = det_bytes(22 + f, msgs[(i / 2 % nm_) as usize]);
            let want = rf::hmac(A::H, &key, &m);
            p.trace();
            p.steps(3);
            p.state(h64(&want));
            p.outcome("ok");
            same("auth", &A::mac_auth(&key, &m), &want)?;
            let k = m.len() / A::B * A::B;
            same("update, finish_with", &A::mac_blocks(&key, &m[..k], Some(&m[k..])), &want)?;
            if k == m.len() {
                same("update, finish", &A::mac_blocks(&key, &m, None), &want)?;
            }
            same("update_with, finish", &A::mac_parts(&key, &[&m], None), &want)?;
            same("update_with, finish_with", &A::mac_parts(&key, &[&m[..m.len() / 2]], Some(&m[m.len() / 2..])), &want)
        },
    );
    let n = 2 * b as u64 + 2;
    c.space(
        &format!("HMAC-{nm} split messages"),
        n * n,
        |i| format!("parts of {} and {} bytes, then 3", i / n, i % n),
        |i, p| {
            let (x, y) = ((i / n) as usize, (i % n) as usize);
            let m = det_bytes(23, x + y + 3);
            let key = det_bytes(24, 20);
            let want = rf::hmac(A::H, &key, &m);
            p.trace();
            p.steps(3);
            p.state(h64(&want));
            p.outcome("ok");
            same("three parts, finish", &A::mac_parts(&key, &[&m[..x], &m[x..x + y], &m[x + y..]], None), &want)?;
            same("two parts, finish_with", &A::mac_parts(&key, &[&m[..x], &m[x..x + y]], Some(&m[x + y..])), &want)
        },
    );
    let keybits = (2 * b * 8) as u64;
    c.space(
        &format!("HMAC-{nm} one-bit keys"),
        keybits,
        |i| format!("key of {} zero bytes with bit {i} set", i / 8 + 1),
        |i, p| {
            let mut key = vec![0; (i / 8 + 1) as usize];
            key[(i / 8) as usize] = 1 << (i % 8);
            let want = rf::hmac(A::H, &key, b"message");
            p.trace();
            p.steps(1);
            p.state(h64(&want));
            p.outcome("ok");
            same("auth", &A::mac_auth(&key, b"message"), &want)
        },
    );
    let ikms = [0, 1, h - 1, h, h + 1, b - 1, b, b + 1, 3 * b];
    let salts = 3 * b as u64 + 1;
    c.space(
        &format!("HKDF-{nm} extract"),
        salts * ikms.len() as u64,
        |i| format!("salt of {} bytes, input of {} bytes", i % salts, ikms[(i / salts) as usize]),
        |i, p| {
            let salt = det_bytes(31, (i % salts) as usize);
            let ikm = det_bytes(32, ikms[(i / salts) as usize]);
            let want = rf::hkdf_extract(A::H, &salt, &ikm);
            p.trace();
            p.steps(1);
            p.state(h64(&want));
            p.outcome("ok");
            same("extract", &A::extract(&ikm, &salt), &want)
        },
    );
    let infos = [0, 1, 10, b - h - 2, b - h - 1, b - h, b, 2 * b + 3];
    let outs = (255 * h) as u64 + 1;
    let step = c.tier(infos.len() as u64, 1);
    // quick: every output length with one info length, and vice versa in turn
    c.space(
        &format!("HKDF-{nm} expand"),
        outs * infos.len() as u64 / step,
        |i| expand_case(i, outs, step, &infos),
        |i, p| {
            let (l, inf) = expand_pick(i, outs, step, &infos);
            let prk = det_bytes(41, A::H.size());
            let info = det_bytes(42, inf);
            let want = rf::hkdf_expand(A::H, &prk, &info, l);
            let mut got = vec![0x5a; l];
            A::expand(&prk, &info, &mut got);
            p.trace();
            p.steps(1);
            p.state(h64(&want));
            p.outcome("ok");
            same("expand", &got, &want)
        },
    );
    c.space(
        &format!("HKDF-{nm} info lengths"),
        (3 * b + 1) as u64,
        |i| format!("info of {i} bytes, three blocks and a half of output"),
        |i, p| {
            let prk = det_bytes(43, A::H.size());
            let info = det_bytes(44, i as usize);
            let l = 3 * A::H.size() + 5;
            let want = rf::hkdf_expand(A::H, &prk, &info, l);
            let mut got = vec![0x5a; l];
            A::expand(&prk, &info, &mut got);
            p.trace();
            p.steps(1);
            p.state(h64(&want));
            p.outcome("ok");
            same("expand", &got, &want)
        },
    );
    // inputs far beyond a block: counters, copies and buffers of every width up to the bound
    let top = c.tier(22, 25);
    let lens: Vec<usize> = (9..=top).flat_map(|k| [(1usize << k) - 1, 1 << k, (1 << k) + 1, (1 << k) + b / 2 + 3]).collect();
    let roles = ["key", "message", "message in two updates", "message in pieces of 4099 bytes", "salt", "keying material", "info"];
    let nl = lens.len() as u64;
    c.space(
        &format!("HMAC-{nm} and HKDF long inputs"),
        nl * roles.len() as u64,
        |i| format!("{} of {} bytes", roles[(i / nl) as usize], lens[(i % nl) as usize]),
        |i, p| {
            let n = lens[(i % nl) as usize];
            let x = det_bytes(51, n);
            let small = det_bytes(52, 37);
            p.trace();
            p.steps(1);
            p.state(h64(format!("{nm}{i}").as_bytes()));
            p.outcome("ok");
            match i / nl {
                0 => same("auth", &A::mac_auth(&x, &small), &rf::hmac(A::H, &x, &small)),
                1 => same("auth", &A::mac_auth(&small, &x), &rf::hmac(A::H, &small, &x)),
                2 => same("update_with twice", &A::mac_parts(&small, &[&x[..n / 3], &x[n / 3..]], None), &rf::hmac(A::H, &small, &x)),
                3 => {
                    let parts: Vec<&[u8]> = x.chunks(4099).collect();
                    same("update_with in pieces", &A::mac_parts(&small, &parts, None), &rf::hmac(A::H, &small, &x))
                },
                4 => same("extract", &A::extract(&small, &x), &rf::hkdf_extract(A::H, &x, &small)),
                5 => same("extract", &A::extract(&x, &small), &rf::hkdf_extract(A::H, &small, &x)),
                _ => {
                    let prk = det_bytes(53, A::H.size());
                    let l = 2 * A::H.size() + 5;
                    let want = rf::hkdf_expand(A::H, &prk, &x, l);
                    let mut got = vec![0x5a; l];
                    A::expand(&prk, &x, &mut got);
                    same("expand", &got, &want)
                },
            }
        },
    );
}
fn expand_pick(i: u64, outs: u64, step: u64, infos: &[usize]) -> (usize, usize) {
    if step == 1 {
        ((i % outs) as usize, infos[(i / outs) as usize])
    } else {
        (i as usize, infos[i as usize % infos.len()])
    }
}
fn expand_case(i: u64, outs: u64, step: u64, infos: &[usize]) -> String {
    let (l, inf) = expand_pick(i, outs, step, infos);
    format!("output of {l} bytes, info of {inf} bytes")
}
