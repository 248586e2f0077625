//! The device of C11: `serve.rs` on the library built without `std`. (This
//! crate has `std`, to count what the device asks for and to catch panics.)
mod serve;
use serve::{Device, Request};
use std::alloc::{GlobalAlloc, Layout, System};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

static ASKED: AtomicUsize = AtomicUsize::new(0);

struct Counting;
// SAFETY: everything is left to the system's allocator.
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        ASKED.fetch_add(1, Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        ASKED.fetch_add(1, Relaxed);
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static GLOBAL: Counting = Counting;

#[no_mangle]
pub extern "C" fn device_new() -> *mut Device {
    std::panic::set_hook(Box::new(|_| {}));
    Box::into_raw(Box::new(Device::new()))
}

/// # Safety
/// `d` comes from `device_new` and is not used again.
#[no_mangle]
pub unsafe extern "C" fn device_free(d: *mut Device) {
    drop(Box::from_raw(d))
}

/// Serves one request; gives the length of the answer, or -1 if it panicked.
///
/// # Safety
/// `d` comes from `device_new`; the other pointers are to what they say.
#[no_mangle]
pub unsafe extern "C" fn device_serve(
    d: *mut Device,
    q: *const Request,
    text: *const u8,
    len: usize,
    out: *mut u8,
    cap: usize,
    asked: *mut usize,
) -> isize {
    let (text, out) = (std::slice::from_raw_parts(text, len), std::slice::from_raw_parts_mut(out, cap));
    let before = ASKED.load(Relaxed);
    let n = catch_unwind(AssertUnwindSafe(|| (*d).serve(&*q, text, out) as isize)).unwrap_or(-1);
    *asked = ASKED.load(Relaxed) - before;
    n
}
