//! Which instructions a function executes: the processor's trap flag raises a signal after each one.
use std::arch::asm;
use std::sync::atomic::{AtomicBool, AtomicPtr, AtomicU64, Ordering::Relaxed};

pub const KEEP: usize = 1 << 16;
static COUNT: AtomicU64 = AtomicU64::new(0);
static HASH: AtomicU64 = AtomicU64::new(0);
static ON: AtomicBool = AtomicBool::new(false);
/// The first addresses of the trace, when somebody wants them.
static LOG: AtomicPtr<u64> = AtomicPtr::new(std::ptr::null_mut());

#[repr(C)]
struct SigAction {
    handler: usize,
    mask: [u64; 16],
    flags: i32,
    restorer: usize,
}
extern "C" {
    fn sigaction(sig: i32, new: *const SigAction, old: *mut SigAction) -> i32;
}
const SIGTRAP: i32 = 5;
const SA_SIGINFO: i32 = 4;
/// Offset of the saved instruction pointer in ucontext_t: uc_flags, uc_link, uc_stack (24 bytes),
/// then the general registers, of which rip is the 17th.
const RIP: usize = 8 + 8 + 24 + 16 * 8;

extern "C" fn step(_sig: i32, _info: *const u8, ctx: *const u8) {
    if !ON.load(Relaxed) {
        return;
    }
    // SAFETY: the kernel passes a ucontext_t.
    let rip = unsafe { *(ctx.add(RIP) as *const u64) };
    let n = COUNT.load(Relaxed);
    COUNT.store(n + 1, Relaxed);
    let x = HASH.load(Relaxed) ^ rip;
    let x = x.wrapping_mul(0x9e37_79b9_7f4a_7c15);
    HASH.store(x ^ (x >> 29), Relaxed);
    let log = LOG.load(Relaxed);
    if !log.is_null() && (n as usize) < KEEP {
        // SAFETY: the log has room for KEEP entries.
        unsafe { *log.add(n as usize) = rip };
    }
}
pub fn init() {
    let a = SigAction { handler: step as usize, mask: [0; 16], flags: SA_SIGINFO, restorer: 0 };
    // SAFETY: valid arguments.
    assert_eq!(unsafe { sigaction(SIGTRAP, &a, std::ptr::null_mut()) }, 0);
}
/// Executes `f(arg)` step by step; returns the number of instructions and the hash of their addresses.
pub fn trace(f: fn(*mut u8), arg: *mut u8, log: Option<&mut [u64]>) -> (u64, u64) {
    if let Some(l) = log {
        assert!(l.len() >= KEEP);
        LOG.store(l.as_mut_ptr(), Relaxed);
    } else {
        LOG.store(std::ptr::null_mut(), Relaxed);
    }
    COUNT.store(0, Relaxed);
    HASH.store(1, Relaxed);
    ON.store(true, Relaxed);
    run(f, arg);
    ON.store(false, Relaxed);
    (COUNT.load(Relaxed), HASH.load(Relaxed))
}
#[inline(never)]
fn run(f: fn(*mut u8), arg: *mut u8) {
    // SAFETY: sets and clears the trap flag around a call that follows the C calling convention
    // (fn(*mut u8) passes its argument in rdi).
    unsafe {
        asm!(
            "pushfq",
            "or qword ptr [rsp], 0x100",
            "popfq",
            "call {f}",
            "pushfq",
            "and qword ptr [rsp], -257",
            "popfq",
            f = in(reg) f,
            in("rdi") arg,
            clobber_abi("C"),
        );
    }
}

/// The counter counts: a loop of known length.
pub fn self_test() {
    fn once(n: u64) -> u64 {
        fn f(p: *mut u8) {
            // SAFETY: a register loop; the pointer is to the number of rounds.
            unsafe { asm!("2: sub {n}, 1", "jnz 2b", n = inout(reg) *(p as *const u64) => _) }
        }
        let mut n = n;
        trace(f, &mut n as *mut u64 as *mut u8, None).0
    }
    once(1);
    assert!(once(5) >= 10 && once(9) == once(5) + 8, "single-stepping doesn't work here");
}
