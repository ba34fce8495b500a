//! An allocator that notices writes past the end of an allocation (a canary checked on release) and
//! makes uses of uninitialised or released memory visible (both are filled). It also knows which
//! memory the library asked for (everything allocated while a thread is inside one of its functions
//! and not inside a callback), wherever it is released.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

const TAIL: usize = 16;
const CANARY: u8 = 0xc7;
/// Behind the library's allocations.
const OWNED: u8 = 0x3b;
const FILL: usize = 2048;

thread_local! {
    static INSIDE: Cell<bool> = const { Cell::new(false) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static BLOCKS: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static TOTAL: Cell<i64> = const { Cell::new(0) };
}
/// Marks the thread as inside or outside the library; returns the former mark.
pub fn inside(x: bool) -> bool {
    INSIDE.with(|c| c.replace(x))
}
/// Bytes and blocks the library holds (as far as this thread allocated and released).
pub fn live() -> (i64, i64) {
    (LIVE.with(|c| c.get()), BLOCKS.with(|c| c.get()))
}
/// The most bytes held since the last `reset_peak`.
pub fn peak() -> i64 {
    PEAK.with(|c| c.get())
}
pub fn reset_peak() {
    PEAK.with(|c| c.set(live().0));
}
/// Allocations by the library so far.
pub fn total() -> i64 {
    TOTAL.with(|c| c.get())
}
fn count(l: Layout) -> u8 {
    if !INSIDE.try_with(|c| c.get()).unwrap_or(false) {
        return CANARY;
    }
    LIVE.with(|c| c.set(c.get() + l.size() as i64));
    BLOCKS.with(|c| c.set(c.get() + 1));
    TOTAL.with(|c| c.set(c.get() + 1));
    PEAK.with(|c| c.set(c.get().max(live().0)));
    OWNED
}

pub struct Guard;

impl Guard {
    fn wide(l: Layout) -> Layout {
        // SAFETY: the sum of a valid size and 16 is below isize::MAX for everything allocated here.
        unsafe { Layout::from_size_align_unchecked(l.size() + TAIL, l.align()) }
    }
}
// SAFETY: forwards to the system allocator with a larger size.
unsafe impl GlobalAlloc for Guard {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(Guard::wide(l));
        if !p.is_null() {
            std::ptr::write_bytes(p, 0xa5, l.size().min(FILL));
            std::ptr::write_bytes(p.add(l.size()), count(l), TAIL);
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(Guard::wide(l));
        if !p.is_null() {
            std::ptr::write_bytes(p.add(l.size()), count(l), TAIL);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let tail = std::slice::from_raw_parts(p.add(l.size()), TAIL);
        if tail[0] == OWNED {
            LIVE.with(|c| c.set(c.get() - l.size() as i64));
            BLOCKS.with(|c| c.set(c.get() - 1));
        }
        if tail.iter().any(|b| *b != tail[0] || (*b != CANARY && *b != OWNED)) {
            let m = b"write past the end of an allocation\n";
            extern "C" {
                fn write(fd: i32, b: *const u8, n: usize) -> isize;
            }
            write(2, m.as_ptr(), m.len());
            std::process::abort();
        }
        std::ptr::write_bytes(p, 0xdd, l.size().min(FILL));
        System.dealloc(p, Guard::wide(l));
    }
}
#[global_allocator]
static GUARD: Guard = Guard;
