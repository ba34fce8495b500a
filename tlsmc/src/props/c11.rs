//! C11: certificate chains are parsed strictly and never trusted unverified.
use super::*;
use crate::gen::*;
use refmodel::cert;
use refmodel::tls::*;

fn der(tag: u8, content: &[u8]) -> Vec<u8> {
    der_form(tag, content, 0)
}
/// Length forms: 0 the minimal one, 1..=5 that many length bytes, 6 indefinite, 7 one too long, 8 one too short.
fn der_form(tag: u8, content: &[u8], form: usize) -> Vec<u8> {
    let n = content.len();
    let mut v = vec![tag];
    let long = |v: &mut Vec<u8>, k: usize, n: usize| {
        v.push(0x80 | k as u8);
        v.extend_from_slice(&(n as u64).to_be_bytes()[8 - k..]);
    };
    let min = |v: &mut Vec<u8>, n: usize| match n {
        0..=127 => v.push(n as u8),
        128..=255 => long(v, 1, n),
        256..=65535 => long(v, 2, n),
        _ => long(v, 3, n),
    };
    match form {
        0 => min(&mut v, n),
        1..=5 => long(&mut v, form, n),
        6 => v.push(0x80),
        7 => min(&mut v, n + 1),
        _ => min(&mut v, n.saturating_sub(1)),
    }
    v.extend_from_slice(content);
    v
}
fn oid(k: usize) -> Vec<u8> {
    let e256: [u8; 8] = [0x2a, 0x86, 0x48, 0xce, 0x3d, 4, 3, 2];
    match k {
        0 => e256.to_vec(),
        1 => vec![0x2a, 0x86, 0x48, 0xce, 0x3d, 4, 3, 3],
        2 => vec![0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 1, 1, 11],
        3 => vec![0x2b, 0x65, 0x70],
        4 => e256[..7].to_vec(),
        5 => [&e256[..], &[1]].concat(),
        _ => vec![0x2a],
    }
}
/// What a certificate is made of.
#[derive(Clone, Debug)]
struct Spec {
    version: Option<Vec<u8>>,
    serial: usize,
    inner_alg: usize,
    alg: usize,
    params: bool,
    times: [(u8, &'static str); 2],
    ntimes: usize,
    extra: usize,
    fields: usize,
    sig: Vec<u8>,
}
impl Default for Spec {
    fn default() -> Spec {
        Spec {
            version: Some(vec![2, 1, 2]),
            serial: 20,
            inner_alg: 0,
            alg: 0,
            params: false,
            times: [(0x17, "261119160315Z"), (0x17, "361116160315Z")],
            ntimes: 2,
            extra: 1,
            fields: 9,
            sig: sig(0, &der(0x30, &[der(2, &[0x11; 32]), der(2, &[0x22; 32])].concat())),
        }
    }
}
fn sig(unused: u8, content: &[u8]) -> Vec<u8> {
    der(3, &[&[unused], content].concat())
}
fn name(n: &str) -> Vec<u8> {
    der(0x30, &der(0x31, &der(0x30, &[der(6, &[0x55, 4, 3]), der(0x0c, n.as_bytes())].concat())))
}
impl Spec {
    fn build(&self) -> Vec<u8> {
        let alg = |k: usize, p: bool| der(0x30, &[der(6, &oid(k)), if p { vec![5, 0] } else { vec![] }].concat());
        let mut f: Vec<Vec<u8>> = vec![];
        if let Some(v) = &self.version {
            f.push(der(0xa0, v));
        }
        let mut ser = vec![0x5a; self.serial];
        if let Some(x) = ser.first_mut() {
            *x = 0x10;
        }
        f.push(der(2, &ser));
        f.push(alg(self.inner_alg, false));
        f.push(name("ca"));
        f.push(der(0x30, &self.times[..self.ntimes].iter().flat_map(|t| der(t.0, t.1.as_bytes())).collect::<Vec<_>>()));
        f.push(name("example.org"));
        // the public key of the OpenSSL certificate
        let c = cert();
        let at = c.windows(2).position(|w| w == [0x30, 0x59]).unwrap();
        f.push(c[at..at + 91].to_vec());
        let ext = der(0xa3, &der(0x30, &der(0x30, &[der(6, &[0x55, 0x1d, 0x13]), der(1, &[0xff]), der(4, &[0x30, 0])].concat())));
        match self.extra {
            0 => (),
            1 => f.push(ext),
            2 => f.push(der(0x81, &[0, 1, 2])),
            3 => f.extend([der(0x81, &[0, 1]), der(0x82, &[0, 1]), ext]),
            4 => f.extend([ext, der(0x81, &[0, 1])]),
            5 => f.push(der(0xa3, &[])),
            _ => f.push(vec![0x30]),
        }
        f.truncate(self.fields);
        let tbs = der(0x30, &f.concat());
        der(0x30, &[tbs, alg(self.alg, self.params), self.sig.clone()].concat())
    }
}
/// A Certificate message body around these entries (certificate, its extensions).
fn body(entries: &[(Vec<u8>, Vec<u8>)]) -> Vec<u8> {
    let mut l = vec![];
    for (c, x) in entries {
        l.extend_from_slice(&(c.len() as u32).to_be_bytes()[1..]);
        l.extend_from_slice(c);
        l.extend_from_slice(&(x.len() as u16).to_be_bytes());
        l.extend_from_slice(x);
    }
    [&[0], &(l.len() as u32).to_be_bytes()[1..], &l].concat()
}
fn one(c: Vec<u8>) -> Vec<u8> {
    body(&[(c, vec![])])
}

pub fn run(c: &mut Check) {
    c.bound("every one-byte change (390 x 256), insertion, deletion and truncation of an OpenSSL certificate; every pair of changes of its tag and length bytes over a boundary alphabet; generated certificates over the product of version, serial, algorithm, validity and optional-field variants, all pairs of signature integers over lengths 0..=40 and boundary values, length forms of every element; every one-byte change and truncation of the message framing for chains of 1 to 3 with and without entry extensions; chains up to 128 KiB; all over both suites' protected records");
    c.assume("where a certificate is not strictly well-formed only in parts a client that cannot verify it need not read (trailing data, non-minimal lengths, contents of names, times, keys and extensions), any fatal alert is accepted");
    let cfgs = [Cfg::default().suites(1), Cfg::default().suites(2)];
    let Some(ws) = worlds(c, &cfgs) else { return };
    let bases: Vec<Base> = ws.iter().map(|w| base(w, w.suite())).collect();
    let starts: Vec<(Vec<u8>, Dir)> = bases
        .iter()
        .map(|b| {
            let mut d = b.keys.server.clone();
            let mut s = b.stream.clone();
            s.extend(sealed(&mut d, &[&ee(&[])]));
            (s, d)
        })
        .collect();
    let stream = |b: usize, m: &[u8]| {
        let (mut s, mut d) = starts[b].clone();
        for p in m.chunks(16384) {
            s.extend(d.seal(22, p, 0));
        }
        s
    };
    let describe = |i: u64, bd: &[u8]| {
        let m = hs_msg(11, bd);
        format!("Certificate body ({} bytes, {:?}): {}\n{}", bd.len(), cert::message(bd), short_hex(bd), ws[(i % 2) as usize].describe(&stream((i % 2) as usize, &m)))
    };
    let go = |i: u64, bd: &[u8], p: &mut mcrt::Probe| -> Result<(), String> {
        let b = (i % 2) as usize;
        let w = &ws[b];
        let st = stream(b, &hs_msg(11, bd));
        let v = w.verdict(&st);
        let mut s = Sess::new(&w.cfg, &w.rng);
        s.io().inbound = st;
        let ret = s.connect();
        judge(w, &v, &mut s, &ret)?;
        if bd.len() <= refmodel::model::MAX_MSG {
            let f = cert::message(bd);
            if ret.err != E_TLS || !f.allows(ret.alert as u8) {
                return Err(format!("a {} Certificate message ended with {}", f.name(), ret.show()));
            }
            done(&mut s, p, &format!("{}: alert {}", f.name(), ret.alert));
        } else {
            done(&mut s, p, "too long");
        }
        Ok(())
    };
    let space = |c: &mut Check, name: &str, n: u64, mk: &dyn Fn(u64) -> Vec<u8>| {
        c.space(name, n, |i| describe(i, &mk(i)), |i, p| go(i, &mk(i), p));
    };
    let spaces = |c: &mut Check, name: &str, v: Vec<Vec<u8>>| space(c, name, v.len() as u64, &|i| v[i as usize].clone());
    let crt = cert();
    let n = crt.len() as u64;

    // the reference reader itself must call these well-formed
    spaces(c, "well-formed", vec![one(crt.clone()), one(Spec::default().build()), one(Spec { extra: 0, ..Spec::default() }.build()), body(&[(crt.clone(), vec![]), (Spec::default().build(), vec![])])]);
    for b in [one(crt.clone()), one(Spec { extra: 0, ..Spec::default() }.build()), one(Spec { extra: 3, ..Spec::default() }.build())] {
        assert_eq!(cert::message(&b), cert::Faults::default());
    }

    space(c, "one-byte-changes", n * 256, &|i| {
        let [p, x] = digits(i, [n, 256]);
        let mut m = crt.clone();
        m[p] = x as u8;
        one(m)
    });
    // lengths around it stay or follow
    space(c, "truncations", n * 2 + n * 2, &|i| {
        let [k, p] = digits(i, [4, n]);
        let mut m = crt[..p].to_vec();
        if k % 2 == 1 && p >= 4 {
            let l = (p - 4) as u16;
            m[2..4].copy_from_slice(&l.to_be_bytes());
        }
        if k >= 2 {
            m.extend([0u8; 3]);
        }
        one(m)
    });
    let ins = [0u8, 1, 2, 3, 5, 6, 0x30, 0x80, 0x81, 0xff];
    space(c, "insertions-and-deletions", n * (ins.len() as u64 + 1), &|i| {
        let [p, k] = digits(i, [n, ins.len() as u64 + 1]);
        let mut m = crt.clone();
        if k == 0 {
            m.remove(p);
        } else {
            m.insert(p, ins[k - 1]);
        }
        one(m)
    });
    // pairs of tag and length bytes
    let mut heads = vec![];
    fn walk(b: &[u8], at: usize, out: &mut Vec<usize>) {
        let mut p = 0;
        while p + 1 < b.len() {
            let (l, h) = match b[p + 1] {
                0x81 => (b[p + 2] as usize, 3),
                0x82 => ((b[p + 2] as usize) << 8 | b[p + 3] as usize, 4),
                x => (x as usize, 2),
            };
            out.extend(at + p..at + p + h);
            if b[p] & 0x20 != 0 {
                walk(&b[p + h..p + h + l], at + p + h, out);
            } else if b[p] == 3 && b[p + h + 1] == 0x30 {
                out.push(at + p + h);
                walk(&b[p + h + 1..p + h + l], at + p + h + 1, out);
            }
            p += h + l;
        }
    }
    walk(&crt, 0, &mut heads);
    let vals: Vec<u8> = c.tier(vec![0, 2, 0x30, 0x80, 0x82, 0xff], vec![0, 1, 2, 3, 5, 6, 0x17, 0x1f, 0x30, 0x7f, 0x80, 0x81, 0x82, 0x84, 0x85, 0xa0, 0xa3, 0xff]);
    let (nh, nv) = (heads.len() as u64, vals.len() as u64);
    space(c, "two-header-bytes", nh * nh * nv * nv, &|i| {
        let [a, b, x, y] = digits(i, [nh, nh, nv, nv]);
        let mut m = crt.clone();
        m[heads[a]] = vals[x];
        m[heads[b]] = vals[y];
        one(m)
    });
    // --- generated certificates
    let versions: Vec<Option<Vec<u8>>> = vec![
        None, Some(vec![2, 1, 2]), Some(vec![2, 1, 0]), Some(vec![2, 1, 1]), Some(vec![2, 1, 3]), Some(vec![2, 1, 127]), Some(vec![2, 1, 128]), Some(vec![2, 1, 254]), Some(vec![2, 1, 255]),
        Some(vec![2, 0]), Some(vec![2, 2, 0, 2]), Some(vec![2, 2, 1, 2]), Some(vec![]), Some(vec![2]), Some(vec![4, 1, 2]), Some(vec![2, 1, 2, 0]), Some(vec![2, 3, 2, 2, 2]),
    ];
    let times: Vec<([(u8, &'static str); 2], usize)> = vec![
        ([(0x17, "261119160315Z"), (0x17, "361116160315Z")], 2),
        ([(0x18, "20261119160315Z"), (0x18, "20361116160315Z")], 2),
        ([(0x17, "261119160315Z"), (0x18, "20561116160315Z")], 2),
        ([(0x18, "20261119160315Z"), (0x17, "361116160315Z")], 2),
        ([(0x0e, "261119160315Z"), (0x17, "361116160315Z")], 2),
        ([(0x17, "261119160315Z"), (0x0c, "361116160315Z")], 2),
        ([(0x17, ""), (0x17, "")], 2),
        ([(0x17, "261119160315Z"), (0x17, "")], 1),
        ([(0x17, ""), (0x17, "")], 0),
    ];
    let (vn, tn) = (versions.len() as u64, times.len() as u64);
    space(c, "generated", vn * 3 * 7 * 2 * tn * 7, &|i| {
        let [v, ser, alg, par, t, ex] = digits(i, [vn, 3, 7, 2, tn, 7]);
        one(Spec { version: versions[v].clone(), serial: [20, 1, 0][ser], alg, inner_alg: if par == 1 { 0 } else { alg }, params: par == 1, times: times[t].0, ntimes: times[t].1, extra: ex, ..Spec::default() }.build())
    });
    space(c, "missing-fields", vn * 10 * 7, &|i| {
        let [v, f, alg] = digits(i, [vn, 10, 7]);
        one(Spec { version: versions[v].clone(), fields: f, alg, inner_alg: alg, ..Spec::default() }.build())
    });
    // signature integers
    let mut ints: Vec<Vec<u8>> = vec![];
    for l in 0..=40usize {
        let mut x = vec![0x35; l];
        ints.push(x.clone());
        if l > 0 {
            for first in [0u8, 0x80, 0xff] {
                x[0] = first;
                if l > 1 {
                    x[1] = 0x9c;
                }
                ints.push(x.clone());
            }
            ints.push(vec![0; l]);
        }
    }
    let order = refmodel::unhex("00ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551");
    for d in [-2i16, -1, 0, 1, 2] {
        let mut o = order.clone();
        let l = o.len() - 1;
        o[l] = (o[l] as i16 + d) as u8;
        ints.push(o);
    }
    ints.push([&[0u8][..], &[0xff; 32]].concat());
    ints.push([&[0u8, 0, 0][..], &[0x7f; 32]].concat());
    let ni = ints.len() as u64;
    space(c, "signature-integers", ni * ni, &|i| {
        let [r, s] = digits(i, [ni, ni]);
        one(Spec { sig: sig(0, &der(0x30, &[der(2, &ints[r]), der(2, &ints[s])].concat())), ..Spec::default() }.build())
    });
    let (ra, sa) = (der(2, &[0x11; 32]), der(2, &[0x22; 32]));
    let mut sigs = vec![];
    for u in 0..=9u8 {
        sigs.push(sig(u, &der(0x30, &[&ra[..], &sa].concat())));
    }
    for content in [vec![], ra.clone(), sa[..20].to_vec(), [&ra[..], &sa, &sa].concat(), [&ra[..], &sa, &[2]].concat(), [&ra[..], &[4, 1, 1]].concat(), [&[4u8, 1, 1][..], &sa].concat()] {
        for tag in [0x30, 0x31, 0x02, 0x10, 0xa0] {
            for f in 0..=8 {
                sigs.push(sig(0, &der_form(tag, &content, f)));
                sigs.push(der_form(3, &[&[0][..], &der(tag, &content)].concat(), f));
            }
        }
    }
    sigs.extend([vec![], der(3, &[]), der(3, &[0]), der(4, &[0]), vec![3], vec![3, 1]]);
    for t in 0..=255u8 {
        sigs.push(der(t, &[&[0][..], &der(0x30, &[&ra[..], &sa].concat())].concat()));
    }
    spaces(c, "signature-shapes", sigs.into_iter().flat_map(|s| [0, 1].map(|alg| one(Spec { sig: s.clone(), alg, inner_alg: alg, ..Spec::default() }.build()))).collect());
    // --- framing
    let small = Spec { extra: 0, ..Spec::default() }.build();
    let exts: Vec<Vec<u8>> = vec![vec![], vec![0, 5, 0, 0], vec![0, 5, 0, 1], vec![0, 5, 0], vec![0], vec![0, 5, 0, 0, 0, 18, 0, 1, 9], vec![0, 5, 0, 0, 0]];
    let mut chains: Vec<Vec<(Vec<u8>, Vec<u8>)>> = vec![vec![]];
    let kinds: Vec<Vec<u8>> = vec![crt.clone(), small.clone(), vec![], vec![0x30], Spec { version: None, ..Spec::default() }.build(), Spec { alg: 2, inner_alg: 2, ..Spec::default() }.build()];
    for a in &kinds {
        for x in &exts {
            chains.push(vec![(a.clone(), x.clone())]);
            for b in &kinds {
                chains.push(vec![(a.clone(), x.clone()), (b.clone(), vec![])]);
                chains.push(vec![(a.clone(), vec![]), (b.clone(), x.clone())]);
                for d in &kinds {
                    chains.push(vec![(a.clone(), vec![]), (b.clone(), vec![]), (d.clone(), x.clone())]);
                }
            }
        }
    }
    spaces(c, "chains", chains.iter().map(|c| body(c)).collect());
    let framed: Vec<Vec<u8>> = vec![one(crt.clone()), one(small.clone()), body(&[(small.clone(), vec![]), (crt.clone(), vec![0, 5, 0, 1, 7])]), body(&[(small.clone(), vec![0, 5, 0, 0]), (crt.clone(), vec![]), (small.clone(), vec![])])];
    let mut v = vec![];
    for f in &framed {
        // positions of framing bytes: the context, the list length, entry and extension lengths
        let mut at = vec![0usize, 1, 2, 3];
        let mut p = 4;
        while p < f.len() {
            let l = u32::from_be_bytes([0, f[p], f[p + 1], f[p + 2]]) as usize;
            let x = u16::from_be_bytes([f[p + 3 + l], f[p + 4 + l]]) as usize;
            at.extend([p, p + 1, p + 2, p + 3 + l, p + 4 + l]);
            at.extend(p + 5 + l..p + 5 + l + x);
            p += 5 + l + x;
        }
        for &p in &at {
            for x in 0..=255u8 {
                let mut m = f.clone();
                m[p] = x;
                v.push(m);
            }
        }
        for p in 0..f.len() {
            v.push(f[..p].to_vec());
            if p >= 4 {
                // with the list length following
                let mut m = f[..p].to_vec();
                m[1..4].copy_from_slice(&((p - 4) as u32).to_be_bytes()[1..]);
                v.push(m);
            }
        }
        for extra in 1..=8 {
            let mut m = f.clone();
            m.extend(vec![0; extra]);
            v.push(m.clone());
            let l = m.len() - 4;
            m[1..4].copy_from_slice(&(l as u32).to_be_bytes()[1..]);
            v.push(m);
        }
        // a request context that is really there
        for k in [1usize, 2, 255] {
            v.push([&[k as u8][..], &vec![7; k], &f[1..]].concat());
        }
    }
    spaces(c, "framing", v);
    // every short body
    let sym = [0u8, 1, 2, 3, 5, 0x30, 0xff];
    let len = c.tier(5u32, 7);
    let n: u64 = (0..=len).map(|l| 7u64.pow(l)).sum();
    space(c, "short-bodies", n, &|mut i| {
        let mut l = 0;
        while i >= 7u64.pow(l) {
            i -= 7u64.pow(l);
            l += 1;
        }
        (0..l).map(|_| { let x = sym[(i % 7) as usize]; i /= 7; x }).collect()
    });
    // --- large ones: elements of many sizes, across records
    let mut v = vec![];
    for size in [127usize, 128, 129, 255, 256, 257, 16000, 16384, 32768, 65535, 65536, 65537, 100_000, 130_000] {
        // a huge serial number
        v.push(one(Spec { serial: size, extra: 0, ..Spec::default() }.build()));
        for d in 0..4 {
            v.push(one(vec![0x30; size - d]));
        }
        let mut long = der(0x30, &vec![0; size]);
        v.push(one(long.clone()));
        long.truncate(size / 2);
        v.push(one(long));
        v.push(body(&[(small.clone(), vec![]), (vec![0; size], vec![])]));
        v.push(body(&vec![(small.clone(), vec![]); size / (small.len() + 5)]));
    }
    spaces(c, "large", v);
    // --- long chains with one entry that is different, and entries with many extensions
    let room = (refmodel::model::MAX_MSG - 100) / (small.len() + 5);
    let mut counts: Vec<usize> = (4..=34).chain([63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, room]).filter(|n| *n <= room).collect();
    counts.dedup();
    let nc = counts.len() as u64;
    let odd_exts: Vec<Vec<u8>> = vec![vec![], vec![0, 5, 0, 1], vec![0xfa, 0xfa, 0, 0]];
    let nk = kinds.len() as u64;
    space(c, "long-chains", nc * 3 * nk * 3 * 2, &|i| {
        let [n, at, k, x, _w] = digits(i / 2, [nc, 3, nk, 3, 1]);
        let n = counts[n];
        let mut ch = vec![(small.clone(), vec![]); n];
        ch[[0, n / 2, n - 1][at]] = (kinds[k].clone(), odd_exts[x].clone());
        body(&ch)
    });
    let ns: Vec<usize> = (1..=40).chain([63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 1023, 1024, 4095, 4096, 4097, 8192, 16000, 16382]).collect();
    let nn = ns.len() as u64;
    space(c, "many-extensions", nn * 4 * 3 * 2, &|i| {
        let [n, tail, at] = digits(i / 2, [nn, 4, 3]);
        let mut x: Vec<u8> = (0..ns[n]).flat_map(|j| [(j >> 8) as u8, j as u8, 0, 0]).collect();
        match tail {
            0 => (),
            1 => x.push(0),
            2 => *x.last_mut().unwrap() = 1,
            _ => x.truncate(x.len() - 1),
        }
        let mut ch = vec![(small.clone(), vec![]); 3];
        ch[at].1 = x;
        body(&ch)
    });
    let sizes = [1usize, 127, 128, 255, 256, 257, 4096, 16383, 16384, 16385, 32767, 32768, 65530, 65531];
    space(c, "long-extensions", sizes.len() as u64 * 3 * 3 * 2, &|i| {
        let [n, off, at] = digits(i / 2, [sizes.len() as u64, 3, 3]);
        let mut x = vec![0, 18];
        // as long as it is, one byte more, one byte less
        x.extend(((sizes[n] + off + 65535) as u16).to_be_bytes());
        x.extend(vec![0x41; sizes[n]]);
        let mut ch = vec![(small.clone(), vec![]); 3];
        ch[at].1 = x;
        body(&ch)
    });
}
