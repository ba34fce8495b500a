//! The closed system around one connection object: scripted randomness, scripted transport.
use getrandom::Answer;
use mcrt::{hash, mix};
use refmodel::model::{self, al, End, Offer, Verdict};
use refmodel::p256::{self, L};
use refmodel::tls::{self, *};
use std::collections::HashMap;
use std::ffi::{c_void, CStr};
use turtls::*;

/// Library error codes.
pub const E_TLS: i32 = 0;
pub const E_PEER: i32 = 1;
pub const E_RNG: i32 = 2;
pub const E_READ: i32 = 3;
pub const E_WRITE: i32 = 4;
pub const E_ZERO: i32 = 5;
pub const E_EXTS: i32 = 6;

pub fn err_name(e: i32) -> &'static str {
    ["Tls", "TlsPeer", "Rng", "WantRead", "WantWrite", "PrivKeyIsZero", "MissingExtensions"]
        .get(e as usize)
        .copied()
        .unwrap_or("?")
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Cfg {
    pub suites: u8,
    pub sig_algs: u16,
    pub groups: u16,
    pub sni: Option<Vec<u8>>,
    pub alpn: Option<Vec<u8>>,
}
impl Default for Cfg {
    fn default() -> Self {
        Cfg { suites: 3, sig_algs: 1, groups: 1, sni: None, alpn: None }
    }
}
impl Cfg {
    pub fn suites(mut self, s: u8) -> Cfg {
        self.suites = s;
        self
    }
    pub fn sni(mut self, s: &str) -> Cfg {
        self.sni = Some(s.as_bytes().to_vec());
        self
    }
    pub fn alpn(mut self, names: &[&[u8]]) -> Cfg {
        self.alpn = Some(alpn_list(names));
        self
    }
}
pub fn alpn_list(names: &[&[u8]]) -> Vec<u8> {
    let mut v = vec![];
    for n in names {
        v.push(n.len() as u8);
        v.extend_from_slice(n);
    }
    v
}

/// One answer of the transport.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Ans {
    /// As much as was asked for (and is there).
    Full,
    /// At most this many bytes (at least one).
    Short(usize),
    /// An error, with this return value (< 1).
    Err(isize),
}

type Server = Box<dyn FnMut(&[u8]) -> Vec<u8>>;

/// The scripted transport.
pub struct Io {
    pub inbound: Vec<u8>,
    pub rpos: usize,
    pub out: Vec<u8>,
    pub closes: u32,
    /// Asked for more data (with everything the client wrote on this connection) when a read finds
    /// nothing left.
    pub server: Option<Server>,
    /// Deviations by call number.
    pub rplan: HashMap<u64, Ans>,
    pub wplan: HashMap<u64, Ans>,
    pub rdefault: Ans,
    pub wdefault: Ans,
    /// Byte offsets of the inbound stream at which a read reports "nothing there" once.
    pub rstalls: Vec<usize>,
    /// The same for the outbound stream.
    pub wstalls: Vec<usize>,
    pub eof_value: isize,
    pub rcalls: u64,
    pub wcalls: u64,
    idle_reads: u32,
    /// Overwrite the whole buffer a read may use before filling the part that is returned.
    pub scribble: Option<u8>,
    /// Injected failures so far.
    pub faults: u64,
    /// Reads or writes after the close callback.
    pub io_after_close: u32,
    /// Hash of the observable history, and the number of observations.
    pub h: u64,
    pub states: Vec<u64>,
    pub steps: u64,
    pub track: bool,
    /// Called at the start of every callback.
    pub hook: bool,
}

impl Default for Io {
    fn default() -> Self {
        Io {
            inbound: vec![],
            rpos: 0,
            out: vec![],
            closes: 0,
            server: None,
            rplan: HashMap::new(),
            wplan: HashMap::new(),
            rdefault: Ans::Full,
            wdefault: Ans::Full,
            rstalls: vec![],
            wstalls: vec![],
            eof_value: 0,
            rcalls: 0,
            wcalls: 0,
            idle_reads: 0,
            scribble: None,
            faults: 0,
            io_after_close: 0,
            h: 0x51ed_270b,
            states: vec![],
            steps: 0,
            track: true,
            hook: false,
        }
    }
}
impl Io {
    pub fn observe(&mut self, tag: u64, b: &[u8]) {
        self.h = mix(mix(self.h, tag), hash(b));
        self.steps += 1;
        if self.track && self.states.len() < 4096 {
            self.states.push(self.h);
        }
    }
}

/// Marks the thread as inside (or, in callbacks, outside) the library.
struct Mark(bool);
fn mark(x: bool) -> Mark {
    Mark(crate::alloc::inside(x))
}
impl Drop for Mark {
    fn drop(&mut self) {
        crate::alloc::inside(self.0);
    }
}

thread_local! {
    static HOOK: std::cell::RefCell<Option<Box<dyn FnMut()>>> = const { std::cell::RefCell::new(None) };
}
/// Sets what to do, on this thread, at the start of every callback with a `hook` and at every
/// request for randomness.
pub fn set_thread_hook(f: Option<Box<dyn FnMut()>>) {
    HOOK.with(|h| *h.borrow_mut() = f);
}
/// Runs the thread's hook, which is off meanwhile.
pub fn run_thread_hook() {
    if let Some(mut f) = HOOK.with(|h| h.borrow_mut().take()) {
        f();
        HOOK.with(|h| *h.borrow_mut() = Some(f));
    }
}
/// The harness's part of the random source.
pub fn random_hook(start: bool) {
    crate::alloc::inside(!start);
    if start {
        run_thread_hook();
    }
}

fn livelock(what: &str) -> ! {
    eprintln!("livelock: {what}");
    std::process::abort()
}

extern "C" fn read_cb(buf: *mut c_void, amt: usize, ctx: *const c_void) -> isize {
    let _m = mark(false);
    // SAFETY: see below.
    if unsafe { (*(ctx as *mut Io)).hook } {
        run_thread_hook();
    }
    // SAFETY: ctx is the Io of the session that owns the connection; single-threaded.
    let io = unsafe { &mut *(ctx as *mut Io) };
    if io.closes > 0 {
        io.io_after_close += 1;
    }
    let call = io.rcalls;
    io.rcalls += 1;
    if io.rpos == io.inbound.len() {
        if let Some(mut s) = io.server.take() {
            let more = s(&io.out);
            io.inbound.extend_from_slice(&more);
            io.server = Some(s);
        }
    }
    if let Some(x) = io.scribble {
        // SAFETY: the caller promises room for `amt` bytes.
        unsafe { std::ptr::write_bytes(buf as *mut u8, x, amt) };
    }
    let ans = io.rplan.get(&call).copied().unwrap_or(io.rdefault);
    let mut limit = amt;
    match ans {
        Ans::Err(v) => {
            io.faults += 1;
            io.observe(1, &[]);
            io.idle_reads += 1;
            if io.idle_reads > 2000 {
                livelock("more than 2000 failing reads in one call");
            }
            return v;
        },
        Ans::Short(n) => limit = limit.min(n.max(1)),
        Ans::Full => (),
    }
    if let Some(&s) = io.rstalls.first() {
        if io.rpos >= s {
            io.rstalls.remove(0);
            io.faults += 1;
            io.observe(1, &[]);
            return io.eof_value;
        }
        limit = limit.min(s - io.rpos);
    }
    let n = limit.min(io.inbound.len() - io.rpos);
    if n == 0 {
        io.observe(2, &[]);
        io.idle_reads += 1;
        if io.idle_reads > 2000 {
            livelock("more than 2000 reads at the end of the data in one call");
        }
        return io.eof_value;
    }
    // SAFETY: the caller promises room for `amt` bytes.
    unsafe { std::ptr::copy_nonoverlapping(io.inbound.as_ptr().add(io.rpos), buf as *mut u8, n) };
    let a = io.rpos;
    io.rpos += n;
    let d = io.inbound[a..a + n].to_vec();
    io.observe(3, &d);
    n as isize
}

extern "C" fn write_cb(buf: *const c_void, amt: usize, ctx: *const c_void) -> isize {
    let _m = mark(false);
    // SAFETY: see below.
    if unsafe { (*(ctx as *mut Io)).hook } {
        run_thread_hook();
    }
    // SAFETY: as above.
    let io = unsafe { &mut *(ctx as *mut Io) };
    if io.closes > 0 {
        io.io_after_close += 1;
    }
    let call = io.wcalls;
    io.wcalls += 1;
    if io.wcalls > 5_000_000 {
        livelock("too many writes");
    }
    let mut limit = amt;
    match io.wplan.get(&call).copied().unwrap_or(io.wdefault) {
        Ans::Err(v) => {
            io.faults += 1;
            io.observe(4, &[]);
            return v;
        },
        Ans::Short(n) => limit = limit.min(n.max(1)),
        Ans::Full => (),
    }
    if let Some(&s) = io.wstalls.first() {
        if io.out.len() >= s {
            io.wstalls.remove(0);
            io.faults += 1;
            io.observe(4, &[]);
            return io.eof_value;
        }
        limit = limit.min(s - io.out.len());
    }
    if limit == 0 {
        return 0;
    }
    // SAFETY: the caller promises `amt` readable bytes.
    let d = unsafe { std::slice::from_raw_parts(buf as *const u8, limit) };
    io.out.extend_from_slice(d);
    io.observe(5, d);
    limit as isize
}

extern "C" fn close_cb(ctx: *const c_void) {
    let _m = mark(false);
    // SAFETY: see below.
    if unsafe { (*(ctx as *mut Io)).hook } {
        run_thread_hook();
    }
    // SAFETY: as above.
    let io = unsafe { &mut *(ctx as *mut Io) };
    io.closes += 1;
    io.observe(6, &[]);
}

/// What one `turtls_connect` call returned.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Ret {
    pub code: i32,
    pub err: i32,
    pub alert: i32,
}
impl Ret {
    pub fn show(&self) -> String {
        if self.code == 1 {
            "success".into()
        } else {
            match self.err {
                E_TLS | E_PEER => format!("{}({})", err_name(self.err), self.alert),
                e => err_name(e).to_string(),
            }
        }
    }
    pub fn wants(&self) -> bool {
        self.code != 1 && (self.err == E_READ || self.err == E_WRITE)
    }
}

/// A connection object with its transport.
pub struct Sess {
    pub conn: *mut TurtlsConn,
    io: *mut Io,
    keep: Vec<Vec<u8>>,
}
impl Sess {
    /// A fresh object with this configuration and randomness.
    pub fn new(cfg: &Cfg, rng: &[Answer]) -> Sess {
        getrandom::set_script(rng.to_vec());
        let io = Box::into_raw(Box::new(Io::default()));
        let m = mark(true);
        let conn = turtls_new(TurtlsIo { write_fn: write_cb, read_fn: read_cb, close_fn: close_cb, ctx: io as *mut c_void });
        drop(m);
        let mut s = Sess { conn, io, keep: vec![] };
        s.configure(cfg);
        s
    }
    /// Writes the configuration through the public struct.
    pub fn configure(&mut self, cfg: &Cfg) {
        // SAFETY: the connection is live; the strings are kept until the session is dropped.
        unsafe {
            let c = turtls_get_config(self.conn);
            (*c).extensions.sig_algs = cfg.sig_algs;
            (*c).extensions.sup_groups = cfg.groups;
            *(&raw mut (*c).cipher_suites as *mut u8) = cfg.suites;
            (*c).extensions.server_name = match &cfg.sni {
                None => std::ptr::null(),
                Some(n) => {
                    let mut v = n.clone();
                    v.push(0);
                    self.keep.push(v);
                    self.keep.last().unwrap().as_ptr() as *const _
                },
            };
            match &cfg.alpn {
                None => {
                    (*c).extensions.app_protos = std::ptr::null();
                    (*c).extensions.app_protos_len = 0;
                },
                Some(n) => {
                    self.keep.push(n.clone());
                    let k = self.keep.last().unwrap();
                    (*c).extensions.app_protos = k.as_ptr() as *const _;
                    (*c).extensions.app_protos_len = k.len();
                },
            }
        }
    }
    pub fn io(&mut self) -> &mut Io {
        // SAFETY: freed only in drop; never borrowed across a library call.
        unsafe { &mut *self.io }
    }
    pub fn connect(&mut self) -> Ret {
        self.io().idle_reads = 0;
        // SAFETY: the connection is live.
        let r = unsafe {
            let m = mark(true);
            let code = turtls_connect(self.conn);
            drop(m);
            Ret { code, err: turtls_get_error(self.conn) as i32, alert: turtls_get_tls_error(self.conn) as i32 }
        };
        self.io().observe(7u64.wrapping_add(r.code as u64), &[r.err as u8, if r.err <= 1 { r.alert as u8 } else { 0 }]);
        r
    }
    pub fn close(&mut self) {
        // SAFETY: the connection is live.
        unsafe {
            let _m = mark(true);
            turtls_close(self.conn);
        }
        self.io().observe(9, &[]);
    }
    /// Calls connect again as long as it was interrupted by an injected failure.
    pub fn connect_through_faults(&mut self) -> Ret {
        loop {
            let before = self.io().faults;
            let ret = self.connect();
            if !ret.wants() || self.io().faults == before {
                return ret;
            }
        }
    }
    /// Calls connect again while it only wants I/O and progress is possible (stalls left).
    pub fn connect_through_stalls(&mut self, max: usize) -> (Ret, usize) {
        let mut n = 0;
        loop {
            let (r0, o0, s0) = {
                let io = self.io();
                (io.rpos, io.out.len(), io.rstalls.len() + io.wstalls.len())
            };
            let ret = self.connect();
            n += 1;
            let io = self.io();
            let progress = io.rpos != r0 || io.out.len() != o0 || io.rstalls.len() + io.wstalls.len() != s0;
            if !ret.wants() || n >= max || (!progress && n > 1) {
                return (ret, n);
            }
            if ret.err == E_READ && io.rpos == io.inbound.len() && io.rstalls.is_empty() && io.wstalls.is_empty() {
                return (ret, n);
            }
        }
    }
    /// The negotiated protocol as the C string the API promises.
    pub fn app_proto(&self) -> Result<Vec<u8>, String> {
        // SAFETY: the library promises a nul-terminated string; bounded scan over its 256-byte area.
        unsafe {
            let p = turtls_app_proto(self.conn) as *const u8;
            if p.is_null() {
                return Err("null application protocol pointer".into());
            }
            for i in 0..256 {
                if *p.add(i) == 0 {
                    return Ok(std::slice::from_raw_parts(p, i).to_vec());
                }
            }
        }
        Err("application protocol is not nul-terminated within 256 bytes".into())
    }
}
impl Drop for Sess {
    fn drop(&mut self) {
        // SAFETY: both were leaked by us and are not used again.
        unsafe {
            let m = mark(true);
            turtls_free(self.conn);
            drop(m);
            drop(Box::from_raw(self.io));
        }
    }
}

pub fn stringify(a: i32) -> String {
    // SAFETY: only called with enumerators.
    unsafe {
        let al: TurtlsAlert = std::mem::transmute(a);
        CStr::from_ptr(turtls_stringify_alert(al)).to_string_lossy().into_owned()
    }
}

/// The randomness of a cheap connection: a tiny private key (fast scalar multiplication), whichever
/// call it comes from.
pub fn cheap_rng() -> Vec<Answer> {
    let mut k = vec![0; 32];
    k[0] = 3;
    vec![Answer::Bytes(k); 64]
}

/// Answers that all differ, within a world and between seeds below 100, and are all cheap as private keys:
/// whichever of them a connection makes its key.
pub fn distinct_rng(seed: u8, key: u8) -> Vec<Answer> {
    let mut v: Vec<Answer> = (0..40u8)
        .map(|i| {
            let mut b = vec![0; 32];
            b[0] = 11 + 2 * i;
            b[1] = 1 + seed;
            Answer::Bytes(b)
        })
        .collect();
    let Answer::Bytes(b) = &mut v[0] else { unreachable!() };
    (b[0], b[1]) = (key, 0);
    v
}

thread_local! {
    static DH: std::cell::RefCell<HashMap<(Vec<u8>, L), [u8; 32]>> = std::cell::RefCell::new(HashMap::new());
}
/// Memoized x(k * P).
pub fn dh_memo(k: &L, p: &(L, L)) -> [u8; 32] {
    let key = (encode_point(p), *k);
    if let Some(r) = DH.with(|m| m.borrow().get(&key).copied()) {
        return r;
    }
    let r = tls::dh(k, p);
    DH.with(|m| m.borrow_mut().insert(key, r));
    r
}

/// Everything fixed about one connection attempt: configuration, randomness, the ClientHello they
/// lead to and the server's key pair.
#[derive(Clone)]
pub struct World {
    pub cfg: Cfg,
    pub rng: Vec<Answer>,
    /// The bytes of the first flight on the wire.
    pub hello_wire: Vec<u8>,
    pub ch: ClientHello,
    pub offer: Offer,
    pub server_priv: L,
    pub server_pub: Vec<u8>,
    /// The client's public key share.
    pub client_pub: (L, L),
    /// The client's private key as far as it can be known (to let the model compute the secret for
    /// arbitrary server points).
    pub client_priv: Option<L>,
}
impl World {
    pub fn new(cfg: Cfg) -> Result<World, String> {
        World::with(cfg, cheap_rng(), [5, 0, 0, 0], Some([3, 0, 0, 0]))
    }
    pub fn with(cfg: Cfg, rng: Vec<Answer>, server_priv: L, client_priv: Option<L>) -> Result<World, String> {
        let mut s = Sess::new(&cfg, &rng);
        let r = s.connect();
        if r.code == 1 || r.err != E_READ {
            return Err(format!("first connect call of {cfg:?} returned {}", r.show()));
        }
        let wire = s.io().out.clone();
        let ch = client_hello_from_wire(&wire).map_err(|e| format!("{cfg:?}: ClientHello: {e}"))?;
        let share = ch
            .key_shares
            .as_ref()
            .and_then(|k| k.iter().find(|k| k.0 == 0x17))
            .ok_or("no P-256 key share in the ClientHello")?;
        let client_pub = decode_point(&share.1).ok_or("the client's key share is not a point on P-256")?;
        if let Some(k) = client_priv {
            if p256::curve().mul_g(&k) != Some(client_pub) {
                // Another of the answers is the key, or there is some other mapping from random
                // bytes to key: then all is known that a server knows.
                let found = rng.iter().take(8).find_map(|a| {
                    let Answer::Bytes(b) = a else { return None };
                    let b: Vec<u8> = b.iter().cycle().take(32).copied().collect();
                    let be = p256::from_be(&b);
                    let le: L = [be[3].swap_bytes(), be[2].swap_bytes(), be[1].swap_bytes(), be[0].swap_bytes()];
                    [le, be].into_iter().find(|k| p256::curve().mul_g(k) == Some(client_pub))
                });
                let offer = Offer::of(&ch);
                let sp = p256::curve().mul_g(&server_priv).unwrap();
                return Ok(World { cfg, rng, hello_wire: wire, offer, ch, server_priv, server_pub: encode_point(&sp), client_pub, client_priv: found });
            }
        }
        let offer = Offer::of(&ch);
        let sp = p256::curve().mul_g(&server_priv).unwrap();
        Ok(World { cfg, rng, hello_wire: wire, offer, ch, server_priv, server_pub: encode_point(&sp), client_pub, client_priv })
    }
    /// The shared secret for a server point.
    pub fn secret(&self, p: &(L, L)) -> [u8; 32] {
        let enc = encode_point(p);
        if enc == self.server_pub {
            dh_memo(&self.server_priv, &self.client_pub)
        } else if let Some(k) = self.client_priv {
            dh_memo(&k, p)
        } else {
            [0; 32]
        }
    }
    pub fn suite(&self) -> u16 {
        self.offer.suites[0]
    }
    pub fn server_hello(&self, suite: u16) -> ServerHello {
        ServerHello::valid(suite, &self.server_pub)
    }
    /// Keys after this (complete) ServerHello message.
    pub fn keys(&self, suite: u16, sh: &[u8]) -> HsKeys {
        let mut t = self.ch.raw.clone();
        t.extend_from_slice(sh);
        hs_keys(suite, &dh_memo(&self.server_priv, &self.client_pub), &t)
    }
    pub fn verdict(&self, stream: &[u8]) -> Verdict {
        model::run(&self.offer, stream, &mut |p| self.secret(p))
    }
    pub fn describe(&self, stream: &[u8]) -> String {
        let v = self.verdict(stream);
        format!(
            "configuration: {:?}\nrandomness: {}\nserver private key: {:x?}\nserver stream ({} bytes): {}\nreference: {:?} ({}), stage {}, after {} records",
            self.cfg,
            show_rng(&self.rng),
            self.server_priv,
            stream.len(),
            short_hex(stream),
            v.ends,
            v.why,
            v.stage,
            v.records
        )
    }
}

pub fn show_rng(r: &[Answer]) -> String {
    match r {
        [a, rest @ ..] if rest.len() > 2 && rest.iter().all(|b| b == a) => format!("{} times {a:?}", r.len()),
        _ => format!("{r:?}"),
    }
}

pub fn short_hex(b: &[u8]) -> String {
    if b.len() <= 600 {
        refmodel::hex(b)
    } else {
        format!("{}...{}", refmodel::hex(&b[..300]), refmodel::hex(&b[b.len() - 60..]))
    }
}

/// What was written after the first flight, as alerts: Ok(None) nothing, Ok(Some((protected, level, code))).
pub fn parse_tail_alert(tail: &[u8], keys: Option<&HsKeys>) -> Result<Option<(bool, u8, u8)>, String> {
    if tail.is_empty() {
        return Ok(None);
    }
    let (recs, left) = split_records(tail);
    if recs.len() != 1 || !left.is_empty() {
        return Err(format!("{} records and {} stray bytes written after the ClientHello: {}", recs.len(), left.len(), short_hex(tail)));
    }
    let r = &recs[0];
    if r.version != 0x0303 {
        return Err(format!("record version {:04x}", r.version));
    }
    match r.typ {
        21 if r.body.len() == 2 => Ok(Some((false, r.body[0], r.body[1]))),
        23 => {
            let Some(k) = keys else {
                return Err("protected record before keys exist".into());
            };
            let mut d = k.client.clone();
            match d.open(r) {
                None => Err("the client's protected record does not open under the client handshake keys".into()),
                Some((21, b)) if b.len() == 2 => Ok(Some((true, b[0], b[1]))),
                Some((t, b)) => Err(format!("protected record of type {t} with content {}", refmodel::hex(&b))),
            }
        },
        t => Err(format!("record of type {t} written after the ClientHello: {}", short_hex(&r.body))),
    }
}

/// Compares the observed end of a connection with the reference verdict. Returns the outcome class.
pub fn judge(w: &World, v: &Verdict, s: &mut Sess, ret: &Ret) -> Result<String, String> {
    let out = s.io().out.clone();
    if !out.starts_with(&w.hello_wire) {
        return Err(format!("first flight differs: {} instead of {}", short_hex(&out), short_hex(&w.hello_wire)));
    }
    judge_tail(w, v, s, ret, &out[w.hello_wire.len()..], 1)
}

pub fn judge_tail(w: &World, v: &Verdict, s: &mut Sess, ret: &Ret, tail: &[u8], closes: u32) -> Result<String, String> {
    let exp = format!("reference expects {:?} ({})", v.ends, v.why);
    if ret.code == 1 {
        return Err(format!("connect reported success; {exp}"));
    }
    if ret.code != -1 {
        return Err(format!("connect returned {}", ret.code));
    }
    if s.io().io_after_close > 0 {
        return Err("transport used after the close callback".into());
    }
    let got_closes = s.io().closes;
    let proto = s.app_proto()?;
    let label;
    match ret.err {
        E_READ => {
            if !v.ends.contains(&End::More) {
                return Err(format!("connect wants to read more; {exp}"));
            }
            if !tail.is_empty() {
                return Err(format!("{} bytes written while waiting: {}", tail.len(), short_hex(tail)));
            }
            if got_closes != closes - 1 {
                return Err("transport closed although the handshake goes on".into());
            }
            let want = v.app_proto.clone().unwrap_or_default();
            if proto != want {
                return Err(format!("application protocol {:?}, expected {:?}", proto, want));
            }
            label = format!("wants more at stage {}", v.stage);
        },
        E_TLS => {
            let a = parse_tail_alert(tail, v.keys.as_ref())?;
            let Some((prot, level, code)) = a else {
                return Err(format!("failed with Tls({}) without sending an alert; {exp}", ret.alert));
            };
            if code as i32 != ret.alert {
                return Err(format!("sent alert {code} but reports {}", ret.alert));
            }
            if level != 2 {
                return Err(format!("alert level {level}"));
            }
            let ok = v.ends.iter().any(|e| match e {
                End::Fatal(set) => (set.is_empty() && code != 0 && code != 90) || set.contains(&code),
                _ => false,
            });
            if !ok {
                return Err(format!("failed with alert {code}; {exp}"));
            }
            let either = v.why.starts_with("handshake data across");
            if prot != v.keys.is_some() && !either {
                return Err(format!("alert {code} was sent {}; {exp}", if prot { "protected" } else { "in the clear although keys are in place" }));
            }
            if got_closes != closes {
                return Err(format!("close callback ran {} times for this connection", got_closes + 1 - closes));
            }
            label = format!("fatal alert {code} at stage {}", v.stage);
        },
        E_PEER => {
            if !v.ends.contains(&End::Peer(ret.alert as u8)) {
                return Err(format!("reported the peer's alert {}; {exp}", ret.alert));
            }
            if !tail.is_empty() {
                return Err(format!("wrote {} after the peer's alert", short_hex(tail)));
            }
            if got_closes != closes {
                return Err(format!("close callback ran {} times after the peer's alert", got_closes + 1 - closes));
            }
            label = format!("peer alert {} at stage {}", ret.alert, v.stage);
        },
        e => return Err(format!("connect failed with {}; {exp}", err_name(e))),
    }
    if !proto.is_empty() && !w.offer.alpn.contains(&proto) {
        return Err(format!("application protocol {:?} was never offered", String::from_utf8_lossy(&proto)));
    }
    Ok(label)
}

/// Runs a stream through a fresh connection with the default transport and judges it.
pub fn run_stream(w: &World, stream: &[u8], p: &mut mcrt::Probe) -> Result<(), String> {
    let v = w.verdict(stream);
    run_verdict(w, stream, &v, p)
}
pub fn run_verdict(w: &World, stream: &[u8], v: &Verdict, p: &mut mcrt::Probe) -> Result<(), String> {
    let mut s = Sess::new(&w.cfg, &w.rng);
    s.io().inbound = stream.to_vec();
    // With one possible ending, which is not to wait, all that came before the last record the
    // reference consumed has to be acceptable: the client waits there.
    if v.ends.len() == 1 && v.ends[0] != End::More && v.records > 1 {
        let mut at = 0;
        for _ in 1..v.records {
            at += 5 + u16::from_be_bytes([stream[at + 3], stream[at + 4]]) as usize;
        }
        s.io().rstalls = vec![at];
        let ret = s.connect();
        let (tail, closes) = (s.io().out.len() as i64 - w.hello_wire.len() as i64, s.io().closes);
        if ret.code != -1 || ret.err != E_READ || tail != 0 || closes != 0 {
            return Err(format!(
                "after {at} bytes, when the next record has yet to come, connect ended with {} ({tail} bytes written after the ClientHello, {closes} close callbacks) instead of waiting; in the end the reference expects {:?} ({})",
                ret.show(), v.ends, v.why
            ));
        }
    }
    let ret = s.connect();
    let label = judge(w, v, &mut s, &ret)?;
    done(&mut s, p, &label);
    Ok(())
}
/// Books states, transitions and the outcome of a finished session.
pub fn done(s: &mut Sess, p: &mut mcrt::Probe, label: &str) {
    let io = s.io();
    p.steps(io.steps);
    for h in std::mem::take(&mut io.states) {
        p.state(h);
    }
    p.trace();
    p.outcome(label);
}

#[allow(unused)]
pub fn all_alerts() -> &'static [u8] {
    &al::ALL
}
