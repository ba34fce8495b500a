//! Exhaustive exploration of finite case spaces.
//!
//! A check is a sequence of *spaces*. A space is `0..n` with a function that runs case `i` against
//! the real code and the reference model. All cases of every space are run (there is no sampling
//! and no early cap); workers are forked processes, so an abort, a segfault or an endless loop of
//! the code under test is observed as a violation of the case that caused it, not as a failure of
//! the explorer.
#![allow(clippy::all)]

use std::collections::BTreeMap;
use std::ffi::c_void;
use std::fmt::Write as _;
use std::io::Write as _;
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicU32, AtomicU64, Ordering::*};
use std::time::Instant;

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn mmap(addr: *mut c_void, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut c_void;
    fn munmap(addr: *mut c_void, len: usize) -> i32;
    fn _exit(code: i32) -> !;
    fn setitimer(which: i32, new: *const [i64; 4], old: *mut [i64; 4]) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    fn kill(pid: i32, sig: i32) -> i32;
}

const SLOTS: usize = 1 << 24;
const WORKERS: usize = 8;
const LABELS: usize = 512;
const LABEL_LEN: usize = 96;
const MSG_LEN: usize = 1 << 16;

#[repr(C)]
struct Label {
    used: AtomicU32,
    len: u32,
    text: [u8; LABEL_LEN],
    count: AtomicU64,
}

#[repr(C)]
struct Shared {
    next: AtomicU64,
    stop: AtomicBool,
    /// The time was up before all cases were taken.
    late: AtomicBool,
    lock: AtomicI32,
    /// Violation with the lowest case index.
    viol_idx: AtomicU64,
    viol_len: AtomicU64,
    viol: [u8; MSG_LEN],
    current: [AtomicU64; WORKERS],
    transitions: AtomicU64,
    traces: AtomicU64,
    states: AtomicU64,
    saturated: AtomicBool,
    labels: [Label; LABELS],
    known: [AtomicU64; 64],
    slots: [AtomicU64; SLOTS],
}

fn shared() -> &'static Shared {
    // MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE
    let p = unsafe { mmap(std::ptr::null_mut(), std::mem::size_of::<Shared>(), 3, 0x1 | 0x20 | 0x4000, -1, 0) };
    assert!(p as isize != -1, "mmap");
    unsafe { &*(p as *const Shared) }
}

impl Shared {
    fn guard<R>(&self, f: impl FnOnce() -> R) -> R {
        while self.lock.compare_exchange(0, 1, AcqRel, Acquire).is_err() {
            std::hint::spin_loop();
        }
        let r = f();
        self.lock.store(0, Release);
        r
    }
    fn violation(&self, idx: u64, msg: &str) {
        self.guard(|| {
            if idx < self.viol_idx.load(Relaxed) {
                self.viol_idx.store(idx, Relaxed);
                let b = msg.as_bytes();
                let n = b.len().min(MSG_LEN);
                // SAFETY: guarded by the lock; the area is plain shared memory.
                unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), self.viol.as_ptr() as *mut u8, n) };
                self.viol_len.store(n as u64, Relaxed);
            }
        });
        self.stop.store(true, Release);
    }
}

/// What a case reports while it runs.
pub struct Probe<'a> {
    sh: &'a Shared,
    /// Printed details instead of silence (replay mode).
    pub verbose: bool,
    transitions: u64,
    traces: u64,
    known_ids: &'a [String],
}

impl<'a> Probe<'a> {
    /// A state was reached (identified by a hash of everything the property can observe).
    pub fn state(&mut self, h: u64) {
        let h = if h == 0 { 1 } else { h };
        let mut i = (h.wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 40) as usize % SLOTS;
        for _ in 0..64 {
            match self.sh.slots[i].compare_exchange(0, h, Relaxed, Relaxed) {
                Ok(_) => {
                    self.sh.states.fetch_add(1, Relaxed);
                    return;
                },
                Err(x) if x == h => return,
                Err(_) => i = (i + 1) % SLOTS,
            }
        }
        self.sh.saturated.store(true, Relaxed);
    }
    /// `n` environment answers or operations were executed.
    pub fn steps(&mut self, n: u64) {
        self.transitions += n;
    }
    /// One complete behaviour of the model was replayed against the implementation.
    pub fn trace(&mut self) {
        self.traces += 1;
    }
    /// Many complete behaviours at once.
    pub fn traces(&mut self, n: u64) {
        self.traces += n;
    }
    /// Counts an observed outcome class.
    pub fn outcome(&mut self, s: &str) {
        let b = &s.as_bytes()[..s.len().min(LABEL_LEN)];
        let mut i = hash(b) as usize % LABELS;
        for _ in 0..LABELS {
            let l = &self.sh.labels[i];
            if l.used.load(Acquire) == 0 {
                self.sh.guard(|| {
                    if l.used.load(Acquire) == 0 {
                        let p = l as *const Label as *mut Label;
                        // SAFETY: guarded by the lock.
                        unsafe {
                            (*p).len = b.len() as u32;
                            (&mut (*p).text)[..b.len()].copy_from_slice(b);
                        }
                        l.used.store(1, Release);
                    }
                });
            }
            if l.len as usize == b.len() && &l.text[..b.len()] == b {
                l.count.fetch_add(1, Relaxed);
                return;
            }
            i = (i + 1) % LABELS;
        }
    }
    /// Reports a defect that may be listed as a known finding. Returns Ok when it is.
    pub fn known_or(&mut self, key: &str, msg: String) -> Result<(), String> {
        if let Some(i) = self.known_ids.iter().position(|k| k == key) {
            self.sh.known[i].fetch_add(1, Relaxed);
            Ok(())
        } else {
            Err(format!("[{key}] {msg}"))
        }
    }
    fn flush(&mut self) {
        self.sh.transitions.fetch_add(self.transitions, Relaxed);
        self.sh.traces.fetch_add(self.traces, Relaxed);
        self.transitions = 0;
        self.traces = 0;
    }
}

/// FNV-1a with a finisher.
pub fn hash(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x100_0000_01b3);
    }
    h ^= h >> 32;
    h = h.wrapping_mul(0xd6e8_feb8_6659_fd93);
    h ^ h >> 29
}
/// Combines hashes in order.
pub fn mix(a: u64, b: u64) -> u64 {
    let mut x = a.rotate_left(23) ^ b.wrapping_mul(0x9e37_79b9_7f4a_7c15);
    x ^= x >> 31;
    x = x.wrapping_mul(0xbf58_476d_1ce4_e5b9);
    x ^ x >> 28
}

/// One run of one property's check.
pub struct Check {
    pub id: String,
    pub thorough: bool,
    pub seed: u64,
    replay: Option<(String, u64)>,
    start: Instant,
    sh: &'static Shared,
    spaces: Vec<String>,
    samples: Vec<String>,
    cases: u64,
    failed: bool,
    bounds: Vec<String>,
    assumptions: Vec<String>,
    known: Vec<(String, String)>,
    known_ids: Vec<String>,
    verif: String,
    only: Option<String>,
    /// A case that takes more seconds of CPU time never returns.
    pub case_seconds: i64,
    /// When exploration ends even if it is incomplete. A safeguard for a library that got much
    /// slower, far from what the check needs otherwise.
    deadline: Option<Instant>,
    cut: Vec<String>,
}

impl Check {
    /// Reads `VERIF_TIER`, `VERIF_SEED`, `--replay SPACE INDEX`, `--only SPACE`.
    pub fn new(id: &str) -> Check {
        let args: Vec<String> = std::env::args().collect();
        let replay = args
            .iter()
            .position(|a| a == "--replay")
            .map(|i| (args[i + 1].clone(), args[i + 2].parse().expect("case index")));
        let only = args.iter().position(|a| a == "--only").map(|i| args[i + 1].clone());
        let verif = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
        let known = read_known(&format!("{verif}/known_findings.txt"), id);
        let sh = shared();
        let thorough = std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough");
        let limit = std::env::var("MC_SECONDS").ok().and_then(|s| s.parse().ok()).or((!thorough).then_some(600));
        Check {
            id: id.into(),
            thorough,
            deadline: limit.map(|s| Instant::now() + std::time::Duration::from_secs(s)),
            cut: vec![],
            seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
            replay,
            start: Instant::now(),
            sh,
            spaces: vec![],
            samples: vec![],
            cases: 0,
            failed: false,
            bounds: vec![],
            assumptions: vec![],
            known_ids: known.iter().map(|k| k.0.clone()).collect(),
            known,
            verif,
            only,
            case_seconds: 30,
        }
    }
    /// Documents a bound in the evidence.
    pub fn bound(&mut self, s: &str) {
        self.bounds.push(s.into());
    }
    /// Documents an assumption in the evidence.
    pub fn assume(&mut self, s: &str) {
        self.assumptions.push(s.into());
    }
    /// Picks by tier.
    pub fn tier<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }

    /// Explores every case of `items`.
    pub fn items<T>(
        &mut self,
        name: &str,
        items: &[T],
        describe: impl Fn(&T) -> String,
        run: impl Fn(&T, &mut Probe) -> Result<(), String>,
    ) {
        self.space(name, items.len() as u64, |i| describe(&items[i as usize]), |i, p| run(&items[i as usize], p));
    }

    /// Explores every case `0..n`.
    pub fn space(
        &mut self,
        name: &str,
        n: u64,
        describe: impl Fn(u64) -> String,
        run: impl Fn(u64, &mut Probe) -> Result<(), String>,
    ) {
        assert!(n > 0, "space {name} is empty");
        if let Some((s, i)) = &self.replay {
            if s == name {
                println!("replaying {} / {name} / case {i}\n{}", self.id, describe(*i));
                let mut p = Probe { sh: self.sh, verbose: true, transitions: 0, traces: 0, known_ids: &self.known_ids };
                match run(*i, &mut p) {
                    Ok(()) => println!("the property holds on this case"),
                    Err(e) => {
                        println!("{e}");
                        self.failed = true;
                    },
                }
            }
            return;
        }
        if self.failed || self.only.as_ref().map_or(false, |o| o != name) {
            return;
        }
        if self.deadline.is_some_and(|d| Instant::now() > d) {
            self.cut.push(format!("{name}: none of {n} cases"));
            return;
        }
        let t0 = Instant::now();
        let (tr0, st0) = (self.sh.transitions.load(Relaxed), self.sh.states.load(Relaxed));
        let sh = self.sh;
        sh.next.store(0, SeqCst);
        sh.stop.store(false, SeqCst);
        sh.late.store(false, SeqCst);
        sh.viol_idx.store(u64::MAX, SeqCst);
        let _ = std::io::stdout().flush();
        let chunk = (n / (WORKERS as u64 * 64)).clamp(1, 256);
        let errdir = format!("{}/target/mc-stderr", self.verif);
        let _ = std::fs::create_dir_all(&errdir);
        let mut pids = vec![];
        let nw = if n < WORKERS as u64 { n as usize } else { WORKERS };
        for w in 0..nw {
            sh.current[w].store(u64::MAX, SeqCst);
            let errpath = format!("{errdir}/{}-{w}.txt", self.id);
            let pid = unsafe { fork() };
            assert!(pid >= 0, "fork");
            if pid == 0 {
                unsafe { prctl(1, 9, 0, 0, 0) }; // die with the parent
                if let Ok(f) = std::fs::File::create(&errpath) {
                    use std::os::fd::AsRawFd;
                    unsafe { dup2(f.as_raw_fd(), 2) };
                }
                let mut p = Probe { sh, verbose: false, transitions: 0, traces: 0, known_ids: &self.known_ids };
                'outer: loop {
                    let lo = sh.next.fetch_add(chunk, SeqCst);
                    if lo >= n {
                        break;
                    }
                    if self.deadline.is_some_and(|d| Instant::now() > d) {
                        sh.late.store(true, SeqCst);
                        break;
                    }
                    for i in lo..(lo + chunk).min(n) {
                        if sh.stop.load(Acquire) && i > sh.viol_idx.load(Acquire) {
                            break 'outer;
                        }
                        sh.current[w].store(i, Release);
                        unsafe { setitimer(1, &[0, 0, self.case_seconds, 0], std::ptr::null_mut()) };
                        if let Err(e) = run(i, &mut p) {
                            sh.violation(i, &e);
                            break 'outer;
                        }
                    }
                    p.flush();
                }
                p.flush();
                unsafe { _exit(0) };
            }
            pids.push((pid, w, errpath));
        }
        for (pid, w, errpath) in &pids {
            let mut st = 0;
            loop {
                let r = unsafe { waitpid(*pid, &mut st, 0) };
                if r == *pid {
                    break;
                }
            }
            if st != 0 {
                let idx = sh.current[*w].load(SeqCst);
                let sig = st & 0x7f;
                let err = std::fs::read_to_string(errpath).unwrap_or_default();
                if sig == 9 || idx == u64::MAX {
                    // killed from outside (out of memory): no verdict
                    for (p, _, _) in &pids {
                        unsafe { kill(*p, 9) };
                    }
                    eprintln!("worker killed (status {st:#x}): no verdict\n{err}");
                    std::process::exit(3);
                }
                let what = match sig {
                    26 => format!("the call never returns ({} s of CPU time)", self.case_seconds),
                    6 => "the process aborted".to_string(),
                    11 | 7 => "memory fault".to_string(),
                    0 => format!("worker exited with status {}", st >> 8),
                    s => format!("killed by signal {s}"),
                };
                let err: String = err.lines().take(12).collect::<Vec<_>>().join("\n");
                sh.violation(idx, &format!("CRASH: {what}\n{err}"));
            }
            let _ = std::fs::remove_file(errpath);
        }
        // with the time up, every worker had fetched a block that it left
        let late = sh.late.load(SeqCst);
        let done = if late { (sh.next.load(SeqCst).saturating_sub(nw as u64 * chunk)).min(n) } else { n };
        self.cases += done;
        let vi = sh.viol_idx.load(SeqCst);
        let tr = sh.transitions.load(Relaxed) - tr0;
        let sn = sh.states.load(Relaxed) - st0;
        if vi != u64::MAX {
            let len = sh.viol_len.load(SeqCst) as usize;
            let msg = String::from_utf8_lossy(&sh.viol[..len]).into_owned();
            self.report(name, vi, &describe(vi), &msg);
        } else if late {
            self.cut.push(format!("{name}: the first {done} of {n} cases"));
        } else {
            println!("  {name}: {n} cases, {sn} new states, {tr} transitions, {:.1}s", t0.elapsed().as_secs_f64());
            self.spaces.push(format!("{name}: all {n} cases, {sn} new states, {tr} transitions"));
            if self.samples.len() < 40 {
                let mut d = describe(n / 2);
                if d.len() > 600 {
                    let mut k = 600;
                    while !d.is_char_boundary(k) {
                        k -= 1;
                    }
                    d.truncate(k);
                    d.push_str("...");
                }
                self.samples.push(format!("{name} #{}: {d}", n / 2));
            }
        }
    }

    fn report(&mut self, space: &str, idx: u64, case: &str, msg: &str) {
        self.failed = true;
        let dir = format!("{}/replays", self.verif);
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{dir}/{}-{space}-{idx}.txt", self.id);
        let exe = std::env::current_exe().map(|p| p.display().to_string()).unwrap_or_default();
        let mut t = String::new();
        let _ = writeln!(t, "property: {}\nspace: {space}\ncase: {idx}\n\n{case}\n\n{msg}\n", self.id);
        let _ = writeln!(
            t,
            "replay: VERIF_TIER={} VERIF_SEED={} {exe} {} --replay {space} {idx}",
            if self.thorough { "thorough" } else { "quick" },
            self.seed,
            self.id
        );
        let _ = std::fs::write(&path, &t);
        println!("{t}");
        println!("VIOLATION property={} replay={path}", self.id);
    }

    /// A violation found outside the forked exploration.
    pub fn fail(&mut self, space: &str, case: &str, msg: &str) {
        if !self.failed {
            self.report(space, 0, case, msg);
        }
    }

    /// True once a violation was found.
    pub fn failed(&self) -> bool {
        self.failed
    }

    /// Direct access for work done in the parent process.
    pub fn probe(&mut self) -> Probe<'_> {
        Probe { sh: self.sh, verbose: false, transitions: 0, traces: 0, known_ids: &self.known_ids }
    }

    /// Writes the evidence file and exits.
    pub fn finish(self) -> ! {
        if self.replay.is_some() {
            std::process::exit(self.failed as i32);
        }
        let sh = self.sh;
        let mut outcomes: BTreeMap<String, u64> = BTreeMap::new();
        for l in &sh.labels {
            if l.used.load(Acquire) == 1 {
                outcomes.insert(String::from_utf8_lossy(&l.text[..l.len as usize]).into_owned(), l.count.load(Relaxed));
            }
        }
        for (i, (k, w)) in self.known.iter().enumerate() {
            if sh.known[i].load(Relaxed) > 0 {
                println!("KNOWN-FINDING: property={} {k}: {w}", self.id);
            }
        }
        for c in &self.cut {
            println!("  NOT EXPLORED COMPLETELY (time): {c}");
        }
        let mut o = String::new();
        let q = |s: &str| json_str(s);
        let arr = |v: &[String]| format!("[{}]", v.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(","));
        let _ = write!(
            o,
            "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":\"model_checking\",\"coverage\":{{\"states\":{},\"transitions\":{},\"traces_validated_against_impl\":{},\"cases\":{},\"exhaustive\":{},\"state_count_saturated\":{},\"spaces\":{},\"cut_off_by_time\":{},\"bounds\":{},\"outcomes\":{{{}}},\"samples\":{}}},\"assumptions\":{},\"violations\":{},\"wall_s\":{:.2}}}\n",
            q(&self.id),
            q(if self.thorough { "thorough" } else { "quick" }),
            self.seed,
            sh.states.load(Relaxed),
            sh.transitions.load(Relaxed),
            sh.traces.load(Relaxed),
            self.cases,
            !self.failed && self.cut.is_empty(),
            sh.saturated.load(Relaxed),
            arr(&self.spaces),
            arr(&self.cut),
            arr(&self.bounds),
            outcomes.iter().map(|(k, v)| format!("{}:{v}", json_str(k))).collect::<Vec<_>>().join(","),
            arr(&self.samples),
            arr(&self.assumptions),
            self.failed as i32,
            self.start.elapsed().as_secs_f64()
        );
        let _ = std::fs::create_dir_all(format!("{}/evidence", self.verif));
        if let Err(e) = std::fs::write(format!("{}/evidence/{}.json", self.verif, self.id), &o) {
            eprintln!("cannot write evidence: {e}");
            std::process::exit(4);
        }
        println!(
            "{}: {} cases, {} states, {} transitions, {} traces, {} outcome classes, {:.1}s{}",
            self.id,
            self.cases,
            sh.states.load(Relaxed),
            sh.transitions.load(Relaxed),
            sh.traces.load(Relaxed),
            outcomes.len(),
            self.start.elapsed().as_secs_f64(),
            if self.failed { " -- VIOLATED" } else { "" }
        );
        if std::env::var("MC_OUTCOMES").is_ok() {
            for (k, v) in &outcomes {
                println!("    {v:>9}  {k}");
            }
        }
        let code = self.failed as i32;
        unsafe { munmap(sh as *const Shared as *mut c_void, std::mem::size_of::<Shared>()) };
        std::process::exit(code);
    }
}

/// `known_findings.txt` lines: `finding: property=<id> key=<key> <what>`; `fixed:` lines are history.
fn read_known(path: &str, id: &str) -> Vec<(String, String)> {
    let Ok(t) = std::fs::read_to_string(path) else { return vec![] };
    t.lines()
        .filter_map(|l| {
            let r = l.strip_prefix("finding: property=")?;
            let (p, r) = r.split_once(' ')?;
            let (k, w) = r.strip_prefix("key=")?.split_once(' ')?;
            (p == id).then(|| (k.to_string(), w.to_string()))
        })
        .take(64)
        .collect()
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            },
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
