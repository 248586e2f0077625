//! The allocator seam. While a thread is in the `denied` region every request
//! is one a real exhausted allocator would have refused: it is counted (and
//! then served, so that the run can go on and report it). While a thread's
//! books are open, blocks and bytes taken and released are counted, and
//! released memory is overwritten at once.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

const DENY: u8 = 1;
const BOOKS: u8 = 2;

thread_local! {
    static MODE: Cell<u8> = const { Cell::new(0) };
    static REQUESTS: Cell<u64> = const { Cell::new(0) };
    static LIVE: Cell<(i64, i64)> = const { Cell::new((0, 0)) };
}

pub struct SimAlloc;

fn note(requests: u64, blocks: i64, bytes: i64) -> u8 {
    MODE.try_with(|m| {
        if m.get() != 0 {
            REQUESTS.with(|r| r.set(r.get() + requests));
            LIVE.with(|l| l.set((l.get().0 + blocks, l.get().1 + bytes)));
        }
        m.get()
    })
    .unwrap_or(0)
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(1, 1, l.size() as i64);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(1, 1, l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(1, 0, n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if note(0, -1, -(l.size() as i64)) & BOOKS != 0 {
            std::ptr::write_bytes(p, 0xDB, l.size());
        }
        System.dealloc(p, l)
    }
}

/// Starts or stops refusing on this thread.
pub fn deny(on: bool) {
    MODE.with(|m| m.set(if on { DENY } else { 0 }));
}

/// Requests refused since the last call.
pub fn refused() -> u64 {
    REQUESTS.with(|r| r.replace(0))
}

/// What a piece of work asked for, and what it took less what it released.
#[derive(Clone, Copy, Debug, Default, PartialEq)]
pub struct Cost {
    pub requests: u64,
    pub blocks: i64,
    pub bytes: i64,
}

/// Does `f` with this thread's books open. Closed again when it unwinds.
pub fn books<T>(f: impl FnOnce() -> T) -> (T, Cost) {
    struct Close;
    impl Drop for Close {
        fn drop(&mut self) {
            MODE.with(|m| m.set(0));
        }
    }
    REQUESTS.with(|r| r.set(0));
    LIVE.with(|l| l.set((0, 0)));
    let close = Close;
    MODE.with(|m| m.set(BOOKS));
    let v = f();
    drop(close);
    let (blocks, bytes) = LIVE.with(|l| l.get());
    (v, Cost { requests: REQUESTS.with(|r| r.replace(0)), blocks, bytes })
}
