//! Counting the steps a call takes. In the build made for it every edge of the
//! control flow of this program, the library included, reports here (sanitizer
//! coverage), which gives a clock that is exact, repeatable and cheap.
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

/// The thread whose steps count (its thread pointer; 0: none).
static THREAD: AtomicU64 = AtomicU64::new(0);
/// Steps left. Far beyond anything allowed the process ends, since the call
/// may not; the run is isolated and reported.
static LEFT: AtomicU64 = AtomicU64::new(0);

// In assembly, since it must not be instrumented itself.
std::arch::global_asm!(
    ".globl __sanitizer_cov_trace_pc_guard",
    "__sanitizer_cov_trace_pc_guard:",
    "mov rax, qword ptr fs:[0]",
    "cmp rax, qword ptr [rip + {thread}]",
    "jne 2f",
    "sub qword ptr [rip + {left}], 1",
    "jc 3f",
    "2: ret",
    "3: jmp abort@PLT",
    ".globl __sanitizer_cov_trace_pc_guard_init",
    "__sanitizer_cov_trace_pc_guard_init:",
    "ret",
    thread = sym THREAD,
    left = sym LEFT,
);

/// Runs `f` and counts its steps. The process ends if there are over `limit` of them.
pub fn meter<T>(limit: u64, f: impl FnOnce() -> T) -> (T, u64) {
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            THREAD.store(0, Relaxed);
        }
    }
    let off = Off;
    let me: u64;
    // SAFETY: reads the thread pointer.
    unsafe { std::arch::asm!("mov {}, qword ptr fs:[0]", out(reg) me) };
    LEFT.store(limit, Relaxed);
    THREAD.store(me, Relaxed);
    let r = f();
    THREAD.store(0, Relaxed);
    drop(off);
    (r, limit - LEFT.load(Relaxed))
}
