//! K03, K04, K05: AES, GCM, ChaCha20, Poly1305 and their AEAD.
use crate::util::*;
use crylib::aead::chacha::{chacha20, poly1305::Poly1305, ChaCha20Poly1305};
use crylib::aead::gcm::{Aes128, Aes192, Aes256, AesCipher, Gcm};
use crylib::aead::Aead;
use refmodel::{aes, chacha};

const BLOCKS: [&str; 3] = ["AES-128", "AES-192", "AES-256"];
const KEYLEN: [usize; 3] = [16, 24, 32];

fn aes_block(kind: usize, key: &[u8], blk: [u8; 16]) -> ([u8; 16], [u8; 16]) {
    fn go<C: AesCipher>(c: C, blk: [u8; 16]) -> ([u8; 16], [u8; 16]) {
        let a = c.encrypt(&blk);
        let mut b = blk;
        c.encrypt_inline(&mut b);
        (a, b)
    }
    match kind {
        0 => go(Aes128::new(key.try_into().unwrap()), blk),
        1 => go(Aes192::new(key.try_into().unwrap()), blk),
        _ => go(Aes256::new(key.try_into().unwrap()), blk),
    }
}

fn check_block(kind: usize, key: &[u8], blk: [u8; 16], p: &mut Probe) -> Result<(), String> {
    let want = aes::Aes::new(key).encrypt(blk);
    let (a, b) = aes_block(kind, key, blk);
    p.trace();
    p.steps(2);
    p.state(h64(&want));
    p.outcome("ok");
    same("encrypt", &a, &want)?;
    same("encrypt_inline", &b, &want)
}

/// The three GCMs and ChaCha20-Poly1305 behind one face.
fn with_aead<R>(kind: usize, key: &[u8], f: impl FnOnce(&dyn Aead) -> R) -> R {
    match kind {
        0 => f(&Gcm::<Aes128>::new(key.try_into().unwrap())),
        1 => f(&Gcm::<Aes192>::new(key.try_into().unwrap())),
        2 => f(&Gcm::<Aes256>::new(key.try_into().unwrap())),
        _ => f(&ChaCha20Poly1305::new(key.try_into().unwrap())),
    }
}
const AEADS: [&str; 4] = ["AES-128-GCM", "AES-192-GCM", "AES-256-GCM", "ChaCha20-Poly1305"];
const AKEY: [usize; 4] = [16, 24, 32, 32];
fn ref_seal(kind: usize, key: &[u8], iv: &[u8; 12], aad: &[u8], pt: &[u8]) -> (Vec<u8>, [u8; 16]) {
    match kind {
        3 => chacha::seal(key.try_into().unwrap(), iv, aad, pt),
        _ => aes::gcm_seal(key, iv, aad, pt),
    }
}

fn check_seal(kind: usize, key: &[u8], iv: &[u8; 12], aad: &[u8], pt: &[u8], p: &mut Probe) -> Result<(), String> {
    let (ct, tag) = ref_seal(kind, key, iv, aad, pt);
    p.trace();
    p.steps(2);
    p.state(mix(h64(&ct), h64(&tag)));
    p.outcome("ok");
    with_aead(kind, key, |a| {
        let mut buf = pt.to_vec();
        let t = a.encrypt_inline(&mut buf, aad, iv);
        same("encrypt_inline: ciphertext", &buf, &ct)?;
        same("encrypt_inline: tag", &t, &tag)?;
        let mut buf = vec![0x5a; pt.len() + 70];
        let t = a.encrypt(&mut buf, pt, aad, iv);
        same("encrypt: ciphertext", &buf[..pt.len()], &ct)?;
        same("encrypt: the buffer behind the ciphertext", &buf[pt.len()..], &[0x5a; 70])?;
        same("encrypt: tag", &t, &tag)
    })
}

fn ivs() -> Vec<[u8; 12]> {
    let mut v = vec![[0; 12], [0xff; 12]];
    let mut a = [0; 12];
    a[11] = 0xff;
    v.push(a);
    let mut a = [0; 12];
    a[0] = 0x80;
    v.push(a);
    v.push(det_bytes(3, 12).try_into().unwrap());
    v
}

fn seal_spaces(c: &mut Check, kind: usize) {
    let nm = AEADS[kind];
    let n = c.tier(82u64, 200);
    c.space(&format!("{nm} lengths"), n * n, |i| format!("{} bytes of associated data, {} of message", i / n, i % n), |i, p| {
        let (a, m) = ((i / n) as usize, (i % n) as usize);
        check_seal(kind, &det_bytes(1, AKEY[kind]), &det_bytes(2, 12).try_into().unwrap(), &det_bytes(3, a), &det_bytes(4, m), p)
    });
    // longer messages: all lengths that matter for a TLS record, then block counters past one and two bytes
    let mut lens: Vec<usize> = (0..c.tier(24, 120)).map(|k| 4096 - 12 + k).collect();
    lens.extend([255, 256, 257, 1023, 1024, 1025, 8191, 16384, 16385, 16385 + 16, 16640, 65535 * 16 + 3, 65537 * 16 + 5]);
    c.items(&format!("{nm} long messages"), &lens, |l| format!("{l} bytes of message"), |&l, p| {
        check_seal(kind, &det_bytes(1, AKEY[kind]), &det_bytes(2, 12).try_into().unwrap(), &det_bytes(3, 5), &det_bytes(4, l), p)
    });
    c.items(&format!("{nm} long associated data"), &lens, |l| format!("{l} bytes of associated data"), |&l, p| {
        check_seal(kind, &det_bytes(1, AKEY[kind]), &det_bytes(2, 12).try_into().unwrap(), &det_bytes(4, l), &det_bytes(3, 5), p)
    });
    let vs = ivs();
    let pats = 4u64;
    c.space(
        &format!("{nm} nonces, keys and contents"),
        (vs.len() as u64 + 96) * (pats + AKEY[kind] as u64 * 8) * 2,
        |i| format!("nonce/key/content pattern {i}"),
        |i, p| {
            let nk = pats + AKEY[kind] as u64 * 8;
            let (iv, k, f) = ((i / 2 / nk) as usize, i / 2 % nk, (i % 2) as usize);
            let iv = if iv < vs.len() {
                vs[iv]
            } else {
                let mut a = [0; 12];
                a[(iv - vs.len()) / 8] = 1 << ((iv - vs.len()) % 8);
                a
            };
            // all nonces with the patterned keys, all one-bit keys with the first nonces
            let key = if k < pats {
                match k {
                    0 => vec![0; AKEY[kind]],
                    1 => vec![0xff; AKEY[kind]],
                    _ => det_bytes(70 + k, AKEY[kind]),
                }
            } else {
                if i / 2 / nk >= 2 {
                    return Ok(());
                }
                let mut key = vec![0; AKEY[kind]];
                key[((k - pats) / 8) as usize] = 1 << ((k - pats) % 8);
                key
            };
            check_seal(kind, &key, &iv, &fill(f, 20), &fill(1 - f, 37), p)
        },
    );
    // every one-bit associated data / message of three blocks
    let bits = 48 * 8;
    c.space(&format!("{nm} one-bit inputs"), 2 * bits, |i| format!("bit {} of 48 bytes of {}", i % bits, ["associated data", "message"][(i / bits) as usize]), |i, p| {
        let mut m = vec![0; 48];
        m[(i % bits / 8) as usize] = 1 << (i % 8);
        let (a, m) = if i < bits { (m, vec![0; 16]) } else { (vec![0; 16], m) };
        check_seal(kind, &det_bytes(1, AKEY[kind]), &[7; 12], &a, &m, p)
    });
}

/// Lengths beyond 32-bit counts of bits and of bytes: zeros, for which the tags are known without
/// going through them byte by byte.
fn huge(c: &mut Check) {
    // (algorithm, bytes, in the message)
    let mut cases: Vec<(usize, usize, bool)> = vec![];
    let near = |cases: &mut Vec<_>, kind, lens: &[usize]| lens.iter().for_each(|&l| cases.extend([(kind, l, false), (kind, l, true)]));
    if c.id == "K04" {
        near(&mut cases, 3, &[(1 << 29) + 3]);
        if c.thorough {
            near(&mut cases, 3, &[1 << 29, (1 << 31) + 17, (1 << 32) + 5]);
        }
    } else {
        near(&mut cases, 0, &[(1 << 29) + 3]);
        if c.thorough {
            for kind in 0..3 {
                near(&mut cases, kind, &[1 << 29, (1 << 29) + 17, (1 << 31) + 1]);
            }
            near(&mut cases, 0, &[(1 << 32) + 5]);
        }
    }
    let thorough = c.thorough;
    c.case_seconds = 1800;
    c.items(
        "huge lengths",
        &cases,
        |x| format!("{}, {} zero bytes of {}", AEADS[x.0], x.1, if x.2 { "ciphertext" } else { "associated data" }),
        |&(kind, len, message), p| {
            let key = det_bytes(1, AKEY[kind]);
            let iv: [u8; 12] = det_bytes(2, 12).try_into().unwrap();
            let mut buf = vec![0u8; len];
            let (aad, ct): (&[u8], &[u8]) = if message { (&[], &buf) } else { (&buf, &[]) };
            let tag = match kind {
                3 => chacha::tag_zeros(key.as_slice().try_into().unwrap(), &iv, aad.len() as u64, ct.len() as u64),
                _ => aes::gcm_tag(&key, &iv, aad, ct),
            };
            p.trace();
            p.steps(1 + (message && thorough) as u64);
            p.state(h64(&tag));
            p.outcome("ok");
            with_aead(kind, &key, |a| {
                if !message {
                    return same("encrypt_inline: tag", &a.encrypt_inline(&mut [], &buf, &iv), &tag);
                }
                if a.decrypt_inline(&mut buf, &[], &iv, &tag).is_err() {
                    return Err("decrypt_inline refuses the tag".into());
                }
                // the plaintext is the key stream
                let cipher = (kind < 3).then(|| aes::Aes::new(&key));
                for (i, c) in buf.chunks(64).enumerate() {
                    // the quick tier looks at both ends
                    if !thorough && i > 9999 && i < len / 64 - 9999 {
                        continue;
                    }
                    let ks = match &cipher {
                        None => chacha::chacha20_block(key.as_slice().try_into().unwrap(), 1 + i as u32, &iv),
                        Some(x) => {
                            let mut ks = [0; 64];
                            for k in 0..4 {
                                let n = 2 + 4 * i as u32 + k as u32;
                                ks[16 * k..16 * k + 16].copy_from_slice(&x.encrypt([iv.as_slice(), &n.to_be_bytes()].concat().try_into().unwrap()));
                            }
                            ks
                        },
                    };
                    if c != &ks[..c.len()] {
                        return Err(format!("decrypt_inline: bytes {} to {} are {} instead of {}", 64 * i, 64 * i + c.len(), hex(c), hex(&ks[..c.len()])));
                    }
                }
                if !thorough {
                    return Ok(());
                }
                same("encrypt_inline: tag", &a.encrypt_inline(&mut buf, &[], &iv), &tag)?;
                match buf.iter().position(|&b| b != 0) {
                    Some(i) => Err(format!("encrypt_inline does not undo decrypt_inline at byte {i}")),
                    None => Ok(()),
                }
            })
        },
    );
    c.case_seconds = 30;
}

pub fn k03(c: &mut Check) {
    c.bound("AES: every one-bit and every one-byte key and block, plus 4096 fixed mixed pairs per key size; GCM: every pair of lengths up to the stated square, block counters past 2^8 and 2^16, every one-bit input of three blocks, zeros beyond 2^32 bits of associated data and of ciphertext (thorough: beyond 2^32 bytes)");
    for kind in 0..3 {
        let kl = KEYLEN[kind];
        let nm = BLOCKS[kind];
        c.space(&format!("{nm} one-bit pairs"), kl as u64 * 8 * 128, |i| format!("key bit {}, block bit {}", i / 128, i % 128), |i, p| {
            let mut key = vec![0; kl];
            key[(i / 128 / 8) as usize] = 1 << (i / 128 % 8);
            let mut b = [0; 16];
            b[(i % 128 / 8) as usize] = 1 << (i % 8);
            check_block(kind, &key, b, p)
        });
        c.space(&format!("{nm} one-byte keys"), kl as u64 * 256, |i| format!("key byte {} is {:#04x}", i / 256, i % 256), |i, p| {
            let mut key = vec![0; kl];
            key[(i / 256) as usize] = i as u8;
            check_block(kind, &key, [0; 16], p)
        });
        c.space(&format!("{nm} one-byte blocks"), 16 * 256, |i| format!("block byte {} is {:#04x}", i / 256, i % 256), |i, p| {
            let mut b = [0; 16];
            b[(i / 256) as usize] = i as u8;
            check_block(kind, &vec![0; kl], b, p)
        });
        c.space(&format!("{nm} mixed pairs"), c.tier(4096, 65536), |i| format!("mixed pair {i}"), |i, p| {
            let d = det_bytes(1000 + i, kl + 16);
            check_block(kind, &d[..kl], d[kl..].try_into().unwrap(), p)
        });
        seal_spaces(c, kind);
    }
    huge(c);
}

pub fn k04(c: &mut Check) {
    c.bound("ChaCha20: every length up to 17 blocks and a bit with 5 starting counters, every one-bit key and nonce, every one-bit counter; Poly1305: all sequences of up to 3 (thorough: 4) boundary blocks with boundary keys, every split; AEAD: every pair of lengths up to the stated square, zeros beyond 2^32 bits of associated data and of ciphertext (thorough: beyond 2^32 bytes)");
    let counters = [0u32, 1, 2, 0xff, 0xffff_ff00, 0x8000_0000 - 8];
    let n = 64 * 17 + 5;
    c.space("ChaCha20 lengths", n * counters.len() as u64, |i| format!("{} bytes from counter {:#x}", i % n, counters[(i / n) as usize]), |i, p| {
        let m = det_bytes(5, (i % n) as usize);
        let key: [u8; 32] = det_bytes(6, 32).try_into().unwrap();
        let nonce: [u8; 12] = det_bytes(7, 12).try_into().unwrap();
        check_chacha(&m, &key, &nonce, counters[(i / n) as usize], p)
    });
    c.space("ChaCha20 one-bit keys, nonces and counters", 256 + 96 + 32 + 1, |i| format!("input bit {i}"), |i, p| {
        let (mut key, mut nonce, mut ctr) = ([0; 32], [0; 12], 0u32);
        match i {
            0..=255 => key[i as usize / 8] = 1 << (i % 8),
            256..=351 => nonce[(i - 256) as usize / 8] = 1 << (i % 8),
            352..=383 => ctr = 1 << (i - 352),
            _ => ctr = u32::MAX,
        }
        check_chacha(&[0; 64], &key, &nonce, ctr, p)
    });
    c.space("ChaCha20 one-byte keys", 32 * 256, |i| format!("key byte {} is {:#04x}", i / 256, i % 256), |i, p| {
        let mut key = [0xff; 32];
        key[(i / 256) as usize] = i as u8;
        check_chacha(&[0; 64], &key, &[0xff; 12], 1, p)
    });
    c.space("ChaCha20 mixed inputs", c.tier(4096, 65536), |i| format!("mixed input {i}"), |i, p| {
        let d = det_bytes(5000 + i, 32 + 12 + 4);
        check_chacha(&[0; 130], d[..32].try_into().unwrap(), d[32..44].try_into().unwrap(), u32::from_le_bytes(d[44..].try_into().unwrap()) >> 1, p)
    });
    poly(c);
    seal_spaces(c, 3);
    huge(c);
}

fn check_chacha(m: &[u8], key: &[u8; 32], nonce: &[u8; 12], ctr: u32, p: &mut Probe) -> Result<(), String> {
    let want = chacha::chacha20(key, ctr, nonce, m);
    p.trace();
    p.steps(2);
    p.state(h64(&want));
    p.outcome("ok");
    let mut b = m.to_vec();
    chacha20::encrypt_inline(&mut b, key, nonce, ctr);
    same("encrypt_inline", &b, &want)?;
    let mut b = vec![0x33; m.len() + 65];
    chacha20::encrypt(m, key, nonce, ctr, &mut b);
    same("encrypt", &b[..m.len()], &want)?;
    same("encrypt: the buffer behind the message", &b[m.len()..], &[0x33; 65])
}

fn poly(c: &mut Check) {
    let le = |x: u128| x.to_le_bytes();
    let ff = u128::MAX;
    // block values next to all the boundaries of the field 2^130 - 5 and of the limbs
    let blocks: Vec<[u8; 16]> = [
        0, 1, 4, 5, 6, ff, ff - 1, ff - 4, ff - 5, 1 << 64, (1 << 64) - 1, 1 << 127, ff << 64, 0x0123_4567_89ab_cdef_fedc_ba98_7654_3210,
    ]
    .map(le)
    .to_vec();
    let rs: Vec<[u8; 16]> = [
        0,
        1,
        2,
        3,
        4,
        1 << 34,
        0x0fff_fffc_0fff_fffc_0fff_fffc_0fff_ffff,
        ff,
        0x0fff_fffc_0fff_fffc << 64,
        0x0fff_fffc_0fff_ffff,
        1 << 66,
        0x0806_d540_0e52_447c_036d_5554_08be_d685,
    ]
    .map(le)
    .to_vec();
    let ss: Vec<[u8; 16]> = [0, 1, ff, ff - 3, 0x1bf5_4941_aff6_bf4a_fdb2_0dfb_8a80_0301].map(le).to_vec();
    let key = move |r: usize, s: usize| -> [u8; 32] { [rs[r], ss[s]].concat().try_into().unwrap() };
    let (nb, nr, ns) = (blocks.len() as u64, 12u64, 5u64);
    let depth = c.tier(3, 4);
    for d in 0..=depth {
        c.space(
            &format!("Poly1305 {d} boundary blocks"),
            nb.pow(d) * nr * ns * 3,
            |i| format!("r {}, s {}, tail {}, blocks {:?}", i / 3 % nr, i / 3 / nr % ns, i % 3, (0..d).map(|k| i / 3 / nr / ns / nb.pow(k) % nb).collect::<Vec<_>>()),
            |i, p| {
                let key = key((i / 3 % nr) as usize, (i / 3 / nr % ns) as usize);
                let mut m = vec![];
                for k in 0..d {
                    m.extend(blocks[(i / 3 / nr / ns / nb.pow(k) % nb) as usize]);
                }
                let whole = m.len();
                m.extend(match i % 3 {
                    0 => vec![],
                    1 => vec![0xff; 15],
                    _ => vec![0],
                });
                check_poly(&key, &m, whole, p)
            },
        );
    }
    let n = 16 * 9 + 1;
    c.space("Poly1305 lengths", n * 3 * nr, |i| format!("{} bytes of {}, r {}", i / nr / 3, FILLS[(i / nr % 3) as usize], i % nr), |i, p| {
        let m = fill((i / nr % 3) as usize, (i / nr / 3) as usize);
        check_poly(&key((i % nr) as usize, 4), &m, m.len() / 16 * 16, p)
    });
    c.space("Poly1305 one-bit keys", 256 * 2, |i| format!("key bit {}", i % 256), |i, p| {
        let mut k = [if i < 256 { 0 } else { 0xff }; 32];
        k[(i % 256 / 8) as usize] ^= 1 << (i % 8);
        check_poly(&k, &det_bytes(50, 53), 48, p)
    });
    c.space("Poly1305 mixed inputs", c.tier(16384, 262144), |i| format!("mixed input {i}"), |i, p| {
        let d = det_bytes(90_000 + i, 32 + 40);
        check_poly(d[..32].try_into().unwrap(), &d[32..], 32, p)
    });
}

fn check_poly(key: &[u8; 32], m: &[u8], whole: usize, p: &mut Probe) -> Result<(), String> {
    let want = chacha::poly1305(key, m);
    p.trace();
    p.steps(3);
    p.state(h64(&want));
    p.outcome("ok");
    same("auth", &Poly1305::auth(m, key), &want)?;
    // block by block, the rest at the end
    let mut q = Poly1305::new(key);
    for b in m[..whole].chunks_exact(16) {
        q.update(b.try_into().unwrap());
    }
    same("update, finish_with", &q.finish_with(&m[whole..]), &want)?;
    // update_with pads the way the AEAD construction wants it
    let mut q = Poly1305::new(key);
    q.update_with(m);
    let mut padded = m.to_vec();
    padded.resize(m.len().div_ceil(16) * 16, 0);
    same("update_with, finish", &q.finish(), &chacha::poly1305(key, &padded))
}

pub fn k05(c: &mut Check) {
    c.bound("every pair of lengths up to the stated square round-trips; for messages of 0..=33 bytes (and one record of 100) every one-bit change of ciphertext, tag, nonce, key and associated data, every two-bit change of the tag, every one-byte change of the tag, every shift between associated data and ciphertext, every truncation and one-byte extension");
    for kind in 0..4 {
        let nm = AEADS[kind];
        let kl = AKEY[kind];
        let key = det_bytes(60, kl);
        let iv: [u8; 12] = det_bytes(61, 12).try_into().unwrap();
        let n = c.tier(82u64, 200);
        c.space(&format!("{nm} round trips"), n * n, |i| format!("{} bytes of associated data, {} of message", i / n, i % n), |i, p| {
            let (a, m) = (det_bytes(62, (i / n) as usize), det_bytes(63, (i % n) as usize));
            let (ct, tag) = ref_seal(kind, &key, &iv, &a, &m);
            p.trace();
            p.steps(4);
            p.state(mix(h64(&ct), h64(&tag)));
            p.outcome("decrypted");
            with_aead(kind, &key, |x| {
                let mut b = m.clone();
                let t = x.encrypt_inline(&mut b, &a, &iv);
                if x.decrypt_inline(&mut b, &a, &iv, &t).is_err() {
                    return Err("what was encrypted is refused (in place)".into());
                }
                same("round trip in place", &b, &m)?;
                let mut b = ct.clone();
                if x.decrypt_inline(&mut b, &a, &iv, &tag).is_err() {
                    return Err("the standard's ciphertext is refused (in place)".into());
                }
                same("decrypt_inline", &b, &m)?;
                let mut b = vec![0x77; m.len() + 33];
                if x.decrypt(&mut b, &ct, &a, &iv, &tag).is_err() {
                    return Err("the standard's ciphertext is refused".into());
                }
                same("decrypt", &b[..m.len()], &m)?;
                same("decrypt: the buffer behind the message", &b[m.len()..], &[0x77; 33])
            })
        });
        // (message length, associated data length)
        let mut shapes: Vec<(usize, usize)> = (0..=33).map(|l| (l, (l * 5) % 36)).collect();
        shapes.extend([(100, 5), (16, 0), (0, 16), (32, 32)]);
        c.items(&format!("{nm} one-bit changes"), &shapes, |s| format!("{s:?} bytes of message and associated data"), |&(l, al), p| {
            let (a, m) = (det_bytes(64, al), det_bytes(65, l));
            let (ct, tag) = ref_seal(kind, &key, &iv, &a, &m);
            // the whole input, as one string of bits
            let all = [&key[..], &iv, &a, &ct, &tag].concat();
            for bit in 0..all.len() * 8 {
                let mut x = all.clone();
                x[bit / 8] ^= 1 << (bit % 8);
                let (k2, r) = x.split_at(kl);
                let (iv2, r) = r.split_at(12);
                let (a2, r) = r.split_at(al);
                let (ct2, t2) = r.split_at(l);
                refused(kind, k2, iv2.try_into().unwrap(), a2, ct2, t2.try_into().unwrap(), &m, p).map_err(|e| format!("bit {bit} of key|nonce|associated data|ciphertext|tag changed: {e}"))?;
            }
            p.outcome("refused");
            Ok(())
        });
        c.items(&format!("{nm} tag changes"), &[(0usize, 0usize), (20, 5)], |s| format!("{s:?} bytes of message and associated data"), |&(l, al), p| {
            let (a, m) = (det_bytes(64, al), det_bytes(65, l));
            let (ct, tag) = ref_seal(kind, &key, &iv, &a, &m);
            let mut tags = vec![];
            for i in 0..128 {
                for j in 0..i {
                    let mut t = tag;
                    t[i / 8] ^= 1 << (i % 8);
                    t[j / 8] ^= 1 << (j % 8);
                    tags.push(t);
                }
            }
            for i in 0..16 {
                for d in 1..=255 {
                    let mut t = tag;
                    t[i] ^= d;
                    tags.push(t);
                    // the same difference in two bytes, so that it would cancel in a sum
                    for j in 0..i {
                        let mut t = t;
                        t[j] ^= d;
                        tags.push(t);
                    }
                }
            }
            // prefixes and suffixes of the right tag
            for i in 0..16 {
                let mut t = tag;
                t[i..].iter_mut().for_each(|b| *b = !*b);
                tags.push(t);
                let mut t = tag;
                t[..=i].iter_mut().for_each(|b| *b = !*b);
                tags.push(t);
            }
            tags.push([0; 16]);
            tags.push([0xff; 16]);
            for i in 1..16 {
                let mut t = tag;
                t.rotate_left(i);
                tags.push(t);
            }
            let mut t = tag;
            t.reverse();
            tags.push(t);
            for t in tags {
                refused(kind, &key, &iv, &a, &ct, &t, &m, p).map_err(|e| format!("tag {} instead of {}: {e}", hex(&t), hex(&tag)))?;
            }
            p.outcome("refused");
            Ok(())
        });
        c.space(&format!("{nm} lengths and boundaries"), 40 * 40, |i| format!("{} bytes of associated data, {} of message", i / 40, i % 40), |i, p| {
            let (al, l) = ((i / 40) as usize, (i % 40) as usize);
            let (a, m) = (det_bytes(66, al), det_bytes(67, l));
            let (ct, tag) = ref_seal(kind, &key, &iv, &a, &m);
            let both = [&a[..], &ct].concat();
            // every other boundary between associated data and ciphertext
            for cut in 0..=both.len() {
                if cut != al {
                    refused(kind, &key, &iv, &both[..cut], &both[cut..], &tag, &m, p).map_err(|e| format!("boundary moved to {cut}: {e}"))?;
                }
            }
            for cut in 0..l {
                refused(kind, &key, &iv, &a, &ct[..cut], &tag, &m, p).map_err(|e| format!("ciphertext cut to {cut}: {e}"))?;
            }
            for cut in 0..al {
                refused(kind, &key, &iv, &a[..cut], &ct, &tag, &m, p).map_err(|e| format!("associated data cut to {cut}: {e}"))?;
            }
            // zero padding up to and past the next block
            for more in 1..=17 {
                refused(kind, &key, &iv, &a, &[&ct[..], &vec![0; more]].concat(), &tag, &m, p).map_err(|e| format!("{more} zero bytes after the ciphertext: {e}"))?;
                refused(kind, &key, &iv, &[&a[..], &vec![0; more]].concat(), &ct, &tag, &m, p).map_err(|e| format!("{more} zero bytes after the associated data: {e}"))?;
            }
            p.outcome("refused");
            Ok(())
        });
    }
}

fn refused(kind: usize, key: &[u8], iv: &[u8; 12], a: &[u8], ct: &[u8], tag: &[u8; 16], m: &[u8], p: &mut Probe) -> Result<(), String> {
    p.trace();
    p.steps(2);
    p.state(mix(mix(h64(key), h64(iv)), mix(h64(a), mix(h64(ct), h64(tag)))));
    with_aead(kind, key, |x| {
        let mut b = ct.to_vec();
        if x.decrypt_inline(&mut b, a, iv, tag).is_ok() {
            return Err("decrypt_inline accepts it".into());
        }
        same("refused, but the buffer has changed", &b, ct)?;
        let mut b = vec![0x77; ct.len() + 3];
        if x.decrypt(&mut b, ct, a, iv, tag).is_ok() {
            return Err("decrypt accepts it".into());
        }
        if ct.len() >= 8 && m.len() >= 8 && b[..8] == m[..8] {
            return Err("refused, but plaintext was released".into());
        }
        same("refused, but the rest of the buffer has changed", &b[ct.len()..], &[0x77; 3])
    })
}
