//! C12: the C header describes the library that is shipped.
use super::*;
use crate::gen::*;
use getrandom::Answer;
use refmodel::tls::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_void, CStr, CString};
use std::mem::{offset_of, size_of};
use std::process::Command;
use turtls::*;

extern "C" {
    fn dlopen(f: *const c_char, flags: c_int) -> *mut c_void;
    fn dlsym(h: *mut c_void, n: *const c_char) -> *mut c_void;
}
#[repr(C)]
struct Run {
    input: *const u8,
    in_len: usize,
    in_pos: usize,
    out: *mut u8,
    out_cap: usize,
    out_len: usize,
    closes: c_int,
    fail_write: c_int,
    configure: c_int,
    server_name: *const c_char,
    app_protos: *const c_char,
    app_protos_len: usize,
    sig_algs: u32,
    sup_groups: u32,
    suites: u32,
    ret: c_int,
    err: c_int,
    alert: c_int,
    text: *const c_char,
    proto: [u8; 256],
    def_server_name: *const c_char,
    def_app_protos: *const c_char,
    def_app_protos_len: usize,
    def_sig_algs: u32,
    def_sup_groups: u32,
    def_suites: u32,
    close_again: c_int,
}
type Api = [*const c_void; 9];
fn api() -> Api {
    [
        turtls_new as *const c_void,
        turtls_free as *const c_void,
        turtls_connect as *const c_void,
        turtls_close as *const c_void,
        turtls_get_config as *const c_void,
        turtls_get_error as *const c_void,
        turtls_get_tls_error as *const c_void,
        turtls_app_proto as *const c_void,
        turtls_stringify_alert as *const c_void,
    ]
}
struct Side {
    run: extern "C" fn(*const Api, *mut Run),
    text: extern "C" fn(*const Api, c_int) -> *const c_char,
    entries: HashMap<String, i64>,
}
impl Side {
    fn load(so: &str) -> Side {
        // SAFETY: the object was just built from tlsmc/c/side.c.
        unsafe {
            let n = CString::new(so).unwrap();
            let h = dlopen(n.as_ptr(), 2);
            assert!(!h.is_null(), "cannot load {so}");
            let sym = |n: &CStr| {
                let p = dlsym(h, n.as_ptr());
                assert!(!p.is_null());
                p
            };
            let entries: extern "C" fn(*mut usize) -> *const (*const c_char, i64) = std::mem::transmute(sym(c"side_entries"));
            let mut k = 0;
            let e = entries(&mut k);
            let entries = (0..k).map(|i| {
                let (n, v) = *e.add(i);
                (CStr::from_ptr(n).to_str().unwrap().to_string(), v)
            });
            Side { run: std::mem::transmute(sym(c"side_run")), text: std::mem::transmute(sym(c"side_text")), entries: entries.collect() }
        }
    }
    /// One connection, configured and driven by the C code. Returns the record and what was written.
    fn go(&self, cfg: Option<&Cfg>, rng: &[Answer], input: &[u8], fail_write: bool, close_again: bool) -> (Run, Vec<u8>) {
        let mut out = vec![0u8; 1 << 18];
        // SAFETY: all-zero is a valid Run.
        let mut r: Run = unsafe { std::mem::zeroed() };
        (r.input, r.in_len, r.out, r.out_cap) = (input.as_ptr(), input.len(), out.as_mut_ptr(), out.len());
        (r.fail_write, r.close_again) = (fail_write as c_int, close_again as c_int);
        let sni = cfg.and_then(|c| c.sni.clone()).map(|s| CString::new(s).unwrap());
        if let Some(c) = cfg {
            r.configure = 1;
            r.server_name = sni.as_ref().map_or(std::ptr::null(), |s| s.as_ptr());
            r.app_protos = c.alpn.as_ref().map_or(std::ptr::null(), |a| a.as_ptr() as *const c_char);
            r.app_protos_len = c.alpn.as_ref().map_or(0, |a| a.len());
            (r.sig_algs, r.sup_groups, r.suites) = (c.sig_algs as u32, c.groups as u32, c.suites as u32);
        }
        getrandom::set_script(rng.to_vec());
        (self.run)(&api(), &mut r);
        out.truncate(r.out_len);
        (r, out)
    }
    fn text(&self, a: i32) -> Vec<u8> {
        let p = (self.text)(&api(), a);
        // SAFETY: bounded scan of a C string.
        unsafe {
            let mut v = vec![];
            for i in 0..200 {
                let b = *(p as *const u8).add(i);
                if b == 0 {
                    return v;
                }
                v.push(b);
            }
            vec![]
        }
    }
}

/// Code, enumerator of the header, words the description has to contain (any of them).
const ALERTS: [(i64, &str, TurtlsAlert, &[&str]); 27] = [
    (0, "CLOSE_NOTIFY", TurtlsAlert::CloseNotify, &["clos"]),
    (10, "UNEXPECTED_MESSAGE", TurtlsAlert::UnexpectedMessage, &["unexpected"]),
    (20, "BAD_RECORD_MAC", TurtlsAlert::BadRecordMac, &["mac", "authenti"]),
    (22, "RECORD_OVERFLOW", TurtlsAlert::RecordOverflow, &["overflow", "long", "large"]),
    (40, "HANDSHAKE_FAILURE", TurtlsAlert::HandshakeFailure, &["handshake"]),
    (42, "BAD_CERT", TurtlsAlert::BadCert, &["bad cert", "invalid cert"]),
    (43, "UNSUPPORTED_CERT", TurtlsAlert::UnsupportedCert, &["unsupported cert"]),
    (44, "CERT_REVOKED", TurtlsAlert::CertRevoked, &["revoked"]),
    (45, "CERT_EXPIRED", TurtlsAlert::CertExpired, &["expired"]),
    (46, "CERT_UNKNOWN", TurtlsAlert::CertUnknown, &["unknown cert", "certificate unknown"]),
    (47, "ILLEGAL_PARAM", TurtlsAlert::IllegalParam, &["param"]),
    (48, "UNKNOWN_CA", TurtlsAlert::UnknownCa, &["authority", " ca"]),
    (49, "ACCESS_DENIED", TurtlsAlert::AccessDenied, &["denied"]),
    (50, "DECODE_ERROR", TurtlsAlert::DecodeError, &["decod"]),
    (51, "DECRYPT_ERORR", TurtlsAlert::DecryptErorr, &["decrypt"]),
    (70, "PROTOCOL_VERSION", TurtlsAlert::ProtocolVersion, &["version"]),
    (71, "INSUFFICIENT_SECURITY", TurtlsAlert::InsufficientSecurity, &["insufficient"]),
    (80, "INTERNAL_ERROR", TurtlsAlert::InternalError, &["internal"]),
    (86, "INAPPROPRIATE_FALLBACK", TurtlsAlert::InappropriateFallback, &["fallback"]),
    (90, "USER_CANCELLED", TurtlsAlert::UserCancelled, &["cancel"]),
    (109, "MISSING_EXTENSION", TurtlsAlert::MissingExtension, &["missing"]),
    (110, "UNSUPPORTED_EXTENSION", TurtlsAlert::UnsupportedExtension, &["unsupported ext"]),
    (112, "UNRECOGNIZED_NAME", TurtlsAlert::UnrecognizedName, &["name"]),
    (113, "BAD_CERT_STATUS_RESPONSE", TurtlsAlert::BadCertStatusResponse, &["status", "ocsp"]),
    (115, "UNKNOWN_PSK_IDENTITY", TurtlsAlert::UnknownPskIdentity, &["psk"]),
    (116, "CERT_REQUIRED", TurtlsAlert::CertRequired, &["required"]),
    (120, "NO_APP_PROTOCOL", TurtlsAlert::NoAppProtocol, &["application", "app"]),
];

fn cc(args: &[&str]) -> Result<(), String> {
    let o = Command::new(args[0]).args(&args[1..]).output().map_err(|e| format!("{}: {e}", args[0]))?;
    if !o.status.success() {
        return Err(format!("{args:?} failed:\n{}", String::from_utf8_lossy(&o.stderr)));
    }
    Ok(())
}

pub fn run(c: &mut Check) {
    c.bound("every constant, enumerator, structure size and member offset of the header; every alert code 0..=255 at both levels, clear and protected; every error code provoked from C; all 256 cipher masks, all one-bit and boundary group and signature masks, server-name lengths 0..=300 and protocol lists written through the header's structures and compared with the same configuration written by Rust; an ordinary program linked against the shared library");
    let dir = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
    let work = format!("{dir}/target/c12-{}", std::process::id());
    std::fs::create_dir_all(&work).unwrap();
    explore(c, &dir, &work);
    let _ = std::fs::remove_dir_all(&work);
    let _ = std::fs::remove_dir_all(format!("{dir}/target/c12-lib"));
}
fn explore(c: &mut Check, dir: &str, work: &str) {
    let so = format!("{work}/side.so");
    let src = format!("{dir}/tlsmc/c/side.c");
    std::fs::write(format!("{work}/only.c"), "#include <turtls.h>\n#include <turtls.h>\nint nothing;\n").unwrap();
    let only = format!("{work}/only.c");
    let inc = "-I/repo/include";
    let null = format!("{work}/only.o");
    let builds: Vec<Vec<&str>> = vec![
        vec!["gcc", "-std=c99", inc, "-c", &only, "-o", &null],
        vec!["gcc", "-std=c17", inc, "-c", &only, "-o", &null],
        vec!["clang", "-std=c11", inc, "-c", &only, "-o", &null],
        vec!["g++", "-std=c++17", "-x", "c++", inc, "-c", &only, "-o", &null],
        vec!["gcc", "-O1", "-shared", "-fPIC", inc, &src, "-o", &so],
    ];
    c.items("compile", &builds, |b| format!("{b:?}"), |b, p| {
        p.trace();
        p.steps(1);
        p.outcome("compiles");
        cc(b)
    });
    if c.failed() {
        return;
    }
    let side = Side::load(&so);
    // --- constants and layout
    let mut want: Vec<(String, i64)> = vec![
        ("TURTLS_ERROR_TLS".into(), TurtlsError::Tls as i64),
        ("TURTLS_ERROR_TLS_PEER".into(), TurtlsError::TlsPeer as i64),
        ("TURTLS_ERROR_RNG".into(), TurtlsError::Rng as i64),
        ("TURTLS_ERROR_WANT_READ".into(), TurtlsError::WantRead as i64),
        ("TURTLS_ERROR_WANT_WRITE".into(), TurtlsError::WantWrite as i64),
        ("TURTLS_ERROR_PRIV_KEY_IS_ZERO".into(), TurtlsError::PrivKeyIsZero as i64),
        ("TURTLS_ERROR_MISSING_EXTENSIONS".into(), TurtlsError::MissingExtensions as i64),
        ("sizeof enum TurtlsAlert".into(), size_of::<TurtlsAlert>() as i64),
        ("sizeof enum TurtlsError".into(), size_of::<TurtlsError>() as i64),
        ("sizeof struct TurtlsIo".into(), size_of::<TurtlsIo>() as i64),
        ("sizeof struct TurtlsExts".into(), size_of::<TurtlsExts>() as i64),
        ("sizeof struct TurtlsConfig".into(), size_of::<TurtlsConfig>() as i64),
        ("sizeof TurtlsCipherList".into(), size_of::<TurtlsCipherList>() as i64),
        ("offsetof TurtlsIo.write_fn".into(), offset_of!(TurtlsIo, write_fn) as i64),
        ("offsetof TurtlsIo.read_fn".into(), offset_of!(TurtlsIo, read_fn) as i64),
        ("offsetof TurtlsIo.close_fn".into(), offset_of!(TurtlsIo, close_fn) as i64),
        ("offsetof TurtlsIo.ctx".into(), offset_of!(TurtlsIo, ctx) as i64),
        ("offsetof TurtlsExts.server_name".into(), offset_of!(TurtlsExts, server_name) as i64),
        ("offsetof TurtlsExts.sig_algs".into(), offset_of!(TurtlsExts, sig_algs) as i64),
        ("offsetof TurtlsExts.sup_groups".into(), offset_of!(TurtlsExts, sup_groups) as i64),
        ("offsetof TurtlsExts.app_protos".into(), offset_of!(TurtlsExts, app_protos) as i64),
        ("offsetof TurtlsExts.app_protos_len".into(), offset_of!(TurtlsExts, app_protos_len) as i64),
        ("offsetof TurtlsConfig.extensions".into(), offset_of!(TurtlsConfig, extensions) as i64),
        ("offsetof TurtlsConfig.cipher_suites".into(), offset_of!(TurtlsConfig, cipher_suites) as i64),
    ];
    // the library's value and the standard's
    for (code, n, a, _) in &ALERTS {
        want.push((format!("TURTLS_ALERT_{n}"), *a as i64));
        want.push((format!("TURTLS_ALERT_{n}"), *code));
    }
    c.items("constants", &want, |(n, v)| format!("{n} is {v} in the library or the standard"), |(n, v), p| {
        p.trace();
        p.steps(1);
        p.outcome("constant");
        match side.entries.get(n) {
            Some(x) if x == v => Ok(()),
            o => Err(format!("{n} is {o:?} in the header")),
        }
    });
    // --- descriptions: each alert its own, fixed, fitting text
    c.items("descriptions", &ALERTS, |a| format!("alert {} ({})", a.0, a.1), |a, p| {
        p.trace();
        p.steps(27);
        let t = side.text(a.0 as i32);
        let s = String::from_utf8(t.clone()).map_err(|_| "the description is not text".to_string())?;
        if s.is_empty() || s.len() > 100 || !s.bytes().all(|b| (0x20..0x7f).contains(&b)) {
            return Err(format!("description {s:?}"));
        }
        let low = s.to_lowercase();
        if !a.3.iter().any(|k| low.contains(k)) {
            return Err(format!("description {s:?} mentions none of {:?}", a.3));
        }
        for b in &ALERTS {
            let other = side.text(b.0 as i32);
            if (other == t) != (a.0 == b.0) {
                return Err(format!("alerts {} and {} are both described as {s:?}", a.0, b.0));
            }
        }
        if side.text(a.0 as i32) != t {
            return Err("the description changes".into());
        }
        p.outcome("description");
        Ok(())
    });
    // --- configurations written by C and by Rust
    let mut cfgs: Vec<Option<Cfg>> = vec![None];
    let d = Cfg::default();
    cfgs.extend((0..=255u8).map(|s| Some(d.clone().suites(s))));
    let masks: Vec<u16> = (0..16).map(|b| 1 << b).chain([0, 3, 0xff, 0x100, 0x101, 0xff00, 0xff01, 0xfffe, 0xffff]).collect();
    for &m in &masks {
        for &g in &masks {
            let mut k = d.clone();
            (k.sig_algs, k.groups) = (m, g);
            cfgs.push(Some(k));
        }
    }
    for n in (0..=300).chain([65000, 65500, 65535, 65536, 70000]) {
        let mut k = d.clone();
        k.sni = Some(vec![b'n'; n]);
        cfgs.push(Some(k.clone()));
        k.alpn = Some(alpn_list(&[&vec![b'a'; n.clamp(1, 255)], b"zz"]));
        k.suites = 2;
        cfgs.push(Some(k));
    }
    let lists: [&[u8]; 9] = [b"", b"\0", b"\x01", b"\x02h2", b"\x02h2\x08http/1.1", b"\x02h2\x09http/1.1", b"\x01a\0", b"\xff", b"\x01a\x01b\x01c"];
    for l in lists {
        let mut k = d.clone();
        k.alpn = Some(l.to_vec());
        cfgs.push(Some(k.clone()));
        k.sni = Some(b"example.org".to_vec());
        cfgs.push(Some(k));
    }
    c.items("configurations", &cfgs, |k| format!("{k:?} (None: as created)"), |k, p| {
        let rng = cheap_rng();
        let (r, out) = side.go(k.as_ref(), &rng, &[], false, false);
        if !r.def_server_name.is_null() || !r.def_app_protos.is_null() || r.def_app_protos_len != 0 {
            return Err("the default configuration has a server name or protocols".into());
        }
        if (r.def_sig_algs, r.def_sup_groups, r.def_suites) != (1, 1, 3) {
            return Err(format!("default masks: signatures {}, groups {}, suites {}", r.def_sig_algs, r.def_sup_groups, r.def_suites));
        }
        let def = Cfg::default();
        let mut s = Sess::new(k.as_ref().unwrap_or(&def), &rng);
        let ret = s.connect();
        let same = s.io().out == out && ret.code == r.ret && ret.err == r.err && (ret.err > 1 || ret.alert == r.alert) && s.io().closes as c_int == r.closes;
        let closes = s.io().closes;
        if !same {
            return Err(format!("configured from C: result {} error {} alert {}, {} closes, {}\nfrom Rust: {} {} closes, {}", r.ret, r.err, r.alert, r.closes, short_hex(&out), ret.show(), closes, short_hex(&s.io().out)));
        }
        if k.is_none() && (r.err != E_READ || out.is_empty()) {
            return Err("an object as created does not connect".into());
        }
        done(&mut s, p, &ret.show());
        Ok(())
    });
    if c.failed() {
        return;
    }
    // --- the flags mean what they are called
    let flags: Vec<(&str, u16)> = vec![("TurtlsCipherList_TURTLS_CHA_CHA_POLY1305_SHA256", 0x1303), ("TurtlsCipherList_TURTLS_AES_128_GCM_SHA256", 0x1301)];
    c.items("flags", &flags, |f| format!("{f:?} with TURTLS_SECP256R1 and TURTLS_ECDSA_SECP256R1"), |(n, suite), p| {
        let get = |n: &str| side.entries[n];
        let mut k = Cfg::default().suites(get(n) as u8);
        (k.groups, k.sig_algs) = (get("TURTLS_SECP256R1") as u16, get("TURTLS_ECDSA_SECP256R1") as u16);
        let (r, out) = side.go(Some(&k), &cheap_rng(), &[], false, false);
        let ch = client_hello_from_wire(&out).map_err(|e| format!("result {}, error {}: {e}", r.ret, r.err))?;
        if ch.suites != [*suite] || ch.groups != Some(vec![0x17]) || ch.sig_algs != Some(vec![0x0403]) {
            return Err(format!("offers {:x?}, groups {:x?}, signatures {:x?}", ch.suites, ch.groups, ch.sig_algs));
        }
        p.trace();
        p.steps(1);
        p.outcome("flag");
        Ok(())
    });
    // --- results seen from C
    let cfg = Cfg::default().alpn(&[b"h2"]);
    let Some(ws) = worlds(c, &[cfg.clone(), cfg.suites(1)]) else { return };
    let h2 = ee(&[(16, alpn_ext(b"h2"))]);
    c.space("peer-alerts", 2 * 3 * 2 * 256, |i| format!("suite, protection, level, code {:?}", digits(i, [2, 3, 2, 256])), |i, p| {
        let [b, st, l, a] = digits(i, [2, 3, 2, 256]);
        let w = &ws[b];
        let bs = base(w, w.suite());
        let mut d = bs.keys.server.clone();
        let msg = [l as u8 + 1, a as u8];
        let mut s = vec![];
        match st {
            0 => s.extend(record(21, &msg)),
            1 => {
                s.extend(bs.stream);
                s.extend(d.seal(21, &msg, 0));
            },
            _ => {
                s.extend(bs.stream);
                s.extend(d.seal(22, &h2, 0));
                s.extend(d.seal(21, &msg, 0));
            },
        }
        let (r, _) = side.go(Some(&w.cfg), &w.rng, &s, false, true);
        let know = ALERTS.iter().find(|x| x.0 == a as i64);
        let want = know.map_or(side.entries["TURTLS_ALERT_INTERNAL_ERROR"], |k| side.entries[&format!("TURTLS_ALERT_{}", k.1)]);
        if r.ret != -1 || r.err as i64 != side.entries["TURTLS_ERROR_TLS_PEER"] || r.alert as i64 != want || r.closes != 1 {
            return Err(format!("result {}, error {}, alert {} (expected {want}), {} closes", r.ret, r.err, r.alert, r.closes));
        }
        p.trace();
        p.steps(3);
        p.outcome(&format!("peer alert, {}", if know.is_some() { "known" } else { "unknown" }));
        Ok(())
    });
    // every kind of error: what to do, the enumerator it must produce, its alert
    let w = &ws[0];
    let sh = base(w, w.suite()).stream;
    let mut no_ext = w.cfg.clone();
    no_ext.groups = 0;
    let mut k = cheap_rng();
    k[1] = Answer::Fail;
    let cases: Vec<(&str, Cfg, Vec<Answer>, Vec<u8>, bool, Option<&str>)> = vec![
        ("TURTLS_ERROR_WANT_READ", w.cfg.clone(), w.rng.clone(), vec![], false, None),
        ("TURTLS_ERROR_WANT_READ", w.cfg.clone(), w.rng.clone(), sh.clone(), false, None),
        ("TURTLS_ERROR_WANT_WRITE", w.cfg.clone(), w.rng.clone(), vec![], true, None),
        ("TURTLS_ERROR_RNG", w.cfg.clone(), vec![Answer::Fail; 9], vec![], false, None),
        ("TURTLS_ERROR_RNG", w.cfg.clone(), k, vec![], false, None),
        ("TURTLS_ERROR_PRIV_KEY_IS_ZERO", w.cfg.clone(), vec![Answer::Bytes(vec![0; 32]); 9], vec![], false, None),
        ("TURTLS_ERROR_MISSING_EXTENSIONS", no_ext, w.rng.clone(), vec![], false, None),
        ("TURTLS_ERROR_TLS", w.cfg.clone(), w.rng.clone(), record(23, b"x"), false, Some("TURTLS_ALERT_UNEXPECTED_MESSAGE")),
        ("TURTLS_ERROR_TLS", w.cfg.clone(), w.rng.clone(), vec![22, 3, 3, 0x7f, 0xff], false, Some("TURTLS_ALERT_RECORD_OVERFLOW")),
        ("TURTLS_ERROR_TLS", w.cfg.clone(), w.rng.clone(), [&sh[..], &[23, 3, 3, 0, 20], &[0; 20]].concat(), false, Some("TURTLS_ALERT_BAD_RECORD_MAC")),
        ("TURTLS_ERROR_TLS_PEER", w.cfg.clone(), w.rng.clone(), record(21, &[2, 40]), false, Some("TURTLS_ALERT_HANDSHAKE_FAILURE")),
    ];
    c.items("errors", &cases, |k| format!("{} {:?} {:?}", k.0, k.1, k.5), |(e, cfg, rng, input, fail, alert), p| {
        let (r, _) = side.go(Some(cfg), rng, input, *fail, false);
        let ok = r.ret == -1 && r.err as i64 == side.entries[*e] && alert.map_or(true, |a| r.alert as i64 == side.entries[a]);
        let closes = if e.contains("WANT") { 0 } else { 1 };
        if !ok || r.closes != closes {
            return Err(format!("result {}, error {}, alert {}, {} closes", r.ret, r.err, r.alert, r.closes));
        }
        p.trace();
        p.steps(1);
        p.outcome(e);
        Ok(())
    });
    // the negotiated protocol as C sees it
    c.space("protocol", 255, |i| format!("a protocol name of {} bytes", i + 1), |i, p| {
        let name = vec![b'p'; i as usize + 1];
        let cfg = Cfg::default().suites(1).alpn(&[&name]);
        let w = World::new(cfg)?;
        let b = base(&w, w.suite());
        let mut d = b.keys.server.clone();
        let mut s = b.stream;
        s.extend(d.seal(22, &ee(&[(16, alpn_ext(&name))]), 0));
        let (r, _) = side.go(Some(&w.cfg), &w.rng, &s, false, true);
        let n = r.proto.iter().position(|b| *b == 0).unwrap_or(256);
        if r.proto[..n] != name[..] || r.err != E_READ {
            return Err(format!("C sees {:?}", String::from_utf8_lossy(&r.proto[..n])));
        }
        p.trace();
        p.steps(3);
        p.outcome("protocol");
        Ok(())
    });
    // --- an ordinary program with the shared library
    let lib = format!("{dir}/target/c12-lib");
    // never trust time stamps for the code under test
    let _ = std::fs::remove_dir_all(&lib);
    let o = Command::new("cargo")
        .args(["build", "--release", "--offline", "--locked", "--manifest-path", "/repo/Cargo.toml", "-p", "turtls"])
        .env("CARGO_TARGET_DIR", &lib)
        .env("CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS", "true")
        .env("CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS", "true")
        .output()
        .expect("cargo");
    if !o.status.success() {
        eprintln!("{}", String::from_utf8_lossy(&o.stderr));
        panic!("the shared library does not build");
    }
    let libdir = format!("-L{lib}/release");
    let rpath = format!("-Wl,-rpath,{lib}/release");
    let exe = format!("{work}/linked");
    let src = format!("{dir}/tlsmc/c/linked.c");
    c.space("linked-program", 1, |_| format!("gcc {src} -lturtls, then run it"), |_, p| {
        cc(&["gcc", "-std=c99", inc, &src, "-o", &exe, &libdir, &rpath, "-lturtls"])?;
        let o = Command::new(&exe).output().map_err(|e| e.to_string())?;
        let text = String::from_utf8_lossy(&o.stdout).into_owned();
        if !o.status.success() {
            return Err(format!("{}\n{text}{}", o.status, String::from_utf8_lossy(&o.stderr)));
        }
        let mut want = String::new();
        for code in (0..256i64).step_by(5) {
            let a = if ALERTS.iter().any(|x| x.0 == code) { code } else { 80 };
            want += &format!("{code} -1 1 {a} 1 '{}' '' 1\n", String::from_utf8_lossy(&side.text(a as i32)));
        }
        if text != want {
            let d = text.lines().zip(want.lines()).find(|(a, b)| a != b);
            return Err(format!("(printed, expected): {d:?}"));
        }
        p.trace();
        p.steps(52);
        p.outcome("linked program");
        Ok(())
    });
}
