//! A stand-in for the `getrandom` crate whose every answer is chosen by the harness.
//!
//! The closed system needs every source of nondeterminism behind a seam. The library under test
//! calls `getrandom::getrandom`; the explorer decides, call by call, what comes back.
#![allow(clippy::all)]

use std::cell::RefCell;

/// What the stub does on one call.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Answer {
    /// Fill the buffer with these bytes (repeated when the buffer is longer).
    Bytes(Vec<u8>),
    /// Fail, leaving the buffer alone.
    Fail,
}

struct State {
    script: Vec<Answer>,
    pos: usize,
    /// Every (length, answer index) asked for.
    calls: Vec<usize>,
    counter: u64,
}

thread_local! {
    static STATE: RefCell<State> = RefCell::new(State { script: Vec::new(), pos: 0, calls: Vec::new(), counter: 0 });
}

/// Installs a script; calls beyond its end get a distinct deterministic block each.
pub fn set_script(script: Vec<Answer>) {
    STATE.with(|s| {
        let mut s = s.borrow_mut();
        s.script = script;
        s.pos = 0;
        s.calls.clear();
        s.counter = 0;
    });
}

/// The state of a source: one connection's script and where it stands.
pub struct Source(State);
impl Source {
    /// At the start of a script.
    pub fn new(script: Vec<Answer>) -> Source {
        Source(State { script, pos: 0, calls: Vec::new(), counter: 0 })
    }
}
/// Puts another source in place of this thread's and returns that.
pub fn exchange(with: Source) -> Source {
    Source(STATE.with(|s| s.replace(with.0)))
}
static HOOK: std::sync::OnceLock<fn(bool)> = std::sync::OnceLock::new();
/// A function to call with true before, with false after every request.
pub fn set_hook(f: fn(bool)) {
    HOOK.get_or_init(|| f);
}

/// The lengths asked for since `set_script`.
pub fn calls() -> Vec<usize> {
    STATE.with(|s| s.borrow().calls.clone())
}

/// The deterministic block used for the `n`-th call beyond the script.
pub fn default_block(n: u64, len: usize) -> Vec<u8> {
    let mut x = n.wrapping_mul(0x9e37_79b9_7f4a_7c15).wrapping_add(0x1234_5678_9abc_def1);
    (0..len)
        .map(|_| {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            (x >> 24) as u8
        })
        .collect()
}

/// Error type with the same name and the same observable as the real crate's.
#[derive(Copy, Clone, Eq, PartialEq, Debug)]
pub struct Error(core::num::NonZeroU32);

impl Error {
    /// Same constant as the real crate.
    pub const UNSUPPORTED: Error = Error(unsafe { core::num::NonZeroU32::new_unchecked(1 << 31) });
    /// Same accessor as the real crate.
    pub const fn code(self) -> core::num::NonZeroU32 {
        self.0
    }
    /// Same accessor as the real crate.
    pub fn raw_os_error(self) -> Option<i32> {
        None
    }
}

impl core::fmt::Display for Error {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        write!(f, "getrandom stub failure")
    }
}
impl std::error::Error for Error {}

/// The seam.
pub fn getrandom(dest: &mut [u8]) -> Result<(), Error> {
    let h = HOOK.get();
    h.map(|f| f(true));
    let r = answer(dest);
    h.map(|f| f(false));
    r
}
fn answer(dest: &mut [u8]) -> Result<(), Error> {
    STATE.with(|s| {
        let mut s = s.borrow_mut();
        s.calls.push(dest.len());
        if s.pos < s.script.len() {
            let a = s.script[s.pos].clone();
            s.pos += 1;
            match a {
                Answer::Fail => Err(Error::UNSUPPORTED),
                Answer::Bytes(b) => {
                    for (i, d) in dest.iter_mut().enumerate() {
                        *d = b[i % b.len()];
                    }
                    Ok(())
                },
            }
        } else {
            let n = s.counter;
            s.counter += 1;
            dest.copy_from_slice(&default_block(n, dest.len()));
            Ok(())
        }
    })
}

/// The uninit variant of the seam.
pub fn getrandom_uninit(
    dest: &mut [core::mem::MaybeUninit<u8>],
) -> Result<&mut [u8], Error> {
    let p = dest.as_mut_ptr() as *mut u8;
    let s = unsafe { core::slice::from_raw_parts_mut(p, dest.len()) };
    s.fill(0);
    getrandom(s)?;
    Ok(s)
}
