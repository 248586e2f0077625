//! Preemption at any instruction. The hook points cover the library's loops;
//! this covers everything else, code that has no hook in it included: the
//! processor single-steps the calling thread (trap flag), the trap handler
//! counts the instructions executed inside this program's own text, and calls
//! out at the counts the plan names. It also recognises instructions that form
//! or access an address in the program's writable static data, where threads
//! meet; the plan can name the n-th of those instead, and a distance from it. System libraries are stepped through but
//! not counted, so counts do not depend on them, and nothing is preempted while
//! it is inside them (holding, say, a lock of the allocator).
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};

/// When to call out.
#[derive(Serialize, Deserialize, Clone, Copy, Debug, Default)]
pub struct Point {
    /// After `n` accesses to static data (else: after `n` instructions),
    stat: bool,
    n: u16,
    /// and that many instructions more.
    d: u8,
}
impl Point {
    pub fn gen(r: &mut crate::rng::Rng, stat: bool, span: usize) -> Point {
        if stat {
            let d = if r.chance(1, 2) { r.below(3) } else { r.below(40) };
            Point { stat, n: if r.chance(1, 2) { r.below(4) } else { r.below(24) } as u16, d: d as u8 }
        } else {
            Point { stat, n: r.below(span) as u16, d: 0 }
        }
    }
}

const MAX: usize = 8;
/// Instructions the survey follows one operation for.
const SURVEY_DEPTH: u32 = 6000;
const NEVER: u32 = u32::MAX;

struct Window {
    armed: Cell<bool>,
    /// Inside a hook or a callback: not the library's own steps.
    busy: Cell<bool>,
    count: Cell<u32>,
    accesses: Cell<u32>,
    points: Cell<[Point; MAX]>,
    /// Instruction count at which each point is due, when known.
    due: Cell<[u32; MAX]>,
    left: Cell<usize>,
    g: Cell<Option<*mut dyn FnMut()>>,
    fired: Cell<u64>,
}

thread_local! {
    static W: Window = const {
        Window {
            armed: Cell::new(false),
            busy: Cell::new(false),
            count: Cell::new(0),
            accesses: Cell::new(0),
            points: Cell::new([Point { stat: false, n: 0, d: 0 }; MAX]),
            due: Cell::new([NEVER; MAX]),
            left: Cell::new(0),
            g: Cell::new(None),
            fired: Cell::new(0),
        }
    };
}

/// The points at which the following windows call out, together.
pub fn load(at: &[Point]) {
    W.with(|w| {
        let mut a = [Point::default(); MAX];
        let mut due = [NEVER; MAX];
        let n = at.len().min(MAX);
        a[..n].copy_from_slice(&at[..n]);
        for (d, p) in due.iter_mut().zip(&a[..n]) {
            if !p.stat {
                *d = p.n as u32;
            }
        }
        w.points.set(a);
        w.due.set(due);
        w.left.set(n);
        w.count.set(0);
        w.accesses.set(0);
    })
}

/// Callbacks made since the last call.
pub fn fired() -> u64 {
    W.with(|w| w.fired.replace(0))
}

/// Step through windows without points too, and count accesses.
static SURVEY: AtomicBool = AtomicBool::new(false);
static SURVEYED: AtomicU64 = AtomicU64::new(0);

/// From now on, counts what the windows touch.
pub fn survey() {
    SURVEY.store(true, Relaxed);
}
/// Accesses to static data seen by the survey.
pub fn surveyed() -> u64 {
    SURVEYED.load(Relaxed)
}
/// Library code that only the survey looks into.
pub fn look<T>(f: impl FnOnce() -> T) -> T {
    if SURVEY.load(Relaxed) {
        window(&mut || (), f)
    } else {
        f()
    }
}

/// Marks code that is not to be preempted.
pub fn busy<T>(f: impl FnOnce() -> T) -> T {
    let was = W.with(|w| w.busy.replace(true));
    let r = f();
    W.with(|w| w.busy.set(was));
    r
}

/// Runs `f`; at each loaded point reached in it, calls `g`.
pub fn window<T>(g: &mut dyn FnMut(), f: impl FnOnce() -> T) -> T {
    if W.with(|w| w.left.get() == 0) && !SURVEY.load(Relaxed) || !cfg!(target_arch = "x86_64") {
        return f();
    }
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            W.with(|w| {
                w.armed.set(false);
                w.g.set(None);
            });
        }
    }
    // SAFETY: forgotten again before `g` goes out of scope.
    let g: *mut dyn FnMut() = unsafe { std::mem::transmute::<&mut dyn FnMut(), &'static mut dyn FnMut()>(g) };
    let _off = Off;
    W.with(|w| {
        w.g.set(Some(g));
        w.busy.set(false);
        w.armed.set(true);
    });
    #[cfg(target_arch = "x86_64")]
    // SAFETY: sets the trap flag; `install` has set a handler for the traps.
    unsafe {
        std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq");
    }
    f()
}

#[cfg(target_arch = "x86_64")]
mod sys {
    use super::{MAX, NEVER, SURVEY, SURVEYED, SURVEY_DEPTH, W};
    use std::ffi::{c_int, c_void};
    use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

    const SIGTRAP: c_int = 5;
    const SA_SIGINFO: c_int = 4;
    const REG_RIP: usize = 16;
    const REG_EFL: usize = 17;

    #[repr(C)]
    struct SigAction {
        handler: extern "C" fn(c_int, *mut c_void, *mut UContext),
        mask: [u64; 16],
        flags: c_int,
        restorer: *mut c_void,
    }
    #[repr(C)]
    struct UContext {
        flags: u64,
        link: *mut c_void,
        stack: [u64; 3],
        gregs: [i64; 23],
    }
    extern "C" {
        fn sigaction(sig: c_int, act: *const SigAction, old: *mut c_void) -> c_int;
        static __executable_start: u8;
        static etext: u8;
    }

    /// This program's writable data, and the hook's own variable in it.
    static DATA: [AtomicUsize; 2] = [AtomicUsize::new(0), AtomicUsize::new(0)];
    static HOOK: AtomicUsize = AtomicUsize::new(0);

    /// The address the instruction at `ip` names relative to itself, if it does.
    /// Off by the size of an immediate operand, at most 4.
    unsafe fn target(ip: usize) -> Option<usize> {
        let at = |i: usize| unsafe { *((ip + i) as *const u8) };
        let mut i = 0;
        while matches!(at(i), 0x66 | 0x67 | 0xf2 | 0xf3 | 0x2e | 0x36 | 0x3e | 0x26 | 0xf0) {
            i += 1;
        }
        if matches!(at(i), 0x64 | 0x65) {
            return None; // this thread's own data
        }
        if at(i) & 0xf0 == 0x40 {
            i += 1;
        }
        let modrm = match at(i) {
            0xc5 => i + 3,
            0xc4 => i + 4,
            0x62 => i + 5,
            0x0f => match at(i + 1) {
                0x38 | 0x3a => i + 3,
                0x05 | 0x06..=0x09 | 0x0b | 0x30..=0x37 | 0x77 | 0x80..=0x8f | 0xa0..=0xa2 | 0xa8..=0xaa | 0xc8..=0xcf => {
                    return None
                }
                _ => i + 2,
            },
            op @ 0x00..=0x3f if op & 7 < 4 => i + 1,
            0x63 | 0x69 | 0x6b | 0x80 | 0x81 | 0x83..=0x8f | 0xc0 | 0xc1 | 0xc6 | 0xc7 | 0xd0..=0xd3 | 0xd8..=0xdf | 0xf6 | 0xf7
            | 0xfe | 0xff => i + 1,
            _ => return None,
        };
        if at(modrm) & 0xc7 != 5 {
            return None;
        }
        let disp = i32::from_le_bytes([at(modrm + 1), at(modrm + 2), at(modrm + 3), at(modrm + 4)]);
        Some((ip + modrm + 5).wrapping_add(disp as usize))
    }

    fn touches(ip: usize) -> bool {
        // SAFETY: `ip` is about to be executed.
        let Some(a) = (unsafe { target(ip) }) else { return false };
        let hook = HOOK.load(Relaxed);
        (DATA[0].load(Relaxed)..DATA[1].load(Relaxed)).contains(&a) && !(hook.wrapping_sub(4)..hook + 8).contains(&a)
    }

    extern "C" fn trap(_: c_int, _: *mut c_void, u: *mut UContext) {
        // SAFETY: the kernel's own frame.
        let regs = unsafe { &mut (*u).gregs };
        W.with(|w| {
            if !w.armed.get() {
                regs[REG_EFL] &= !0x100;
                return;
            }
            let ip = regs[REG_RIP] as usize;
            let own = &raw const __executable_start as usize..&raw const etext as usize;
            if w.busy.get() || !own.contains(&ip) || std::thread::panicking() {
                return;
            }
            let n = w.count.get();
            w.count.set(n + 1);
            let mut due = w.due.get();
            if touches(ip) {
                let k = w.accesses.get();
                w.accesses.set(k + 1);
                SURVEYED.fetch_add(1, Relaxed);
                let p = w.points.get();
                for i in 0..MAX {
                    if p[i].stat && p[i].n as u32 == k {
                        due[i] = n + p[i].d as u32;
                    }
                }
                w.due.set(due);
            }
            if w.left.get() > 0 && due.iter().any(|d| *d <= n) {
                let mut hits = 0;
                for d in &mut due {
                    if *d <= n {
                        *d = NEVER;
                        hits += 1;
                    }
                }
                w.due.set(due);
                w.left.set(w.left.get().saturating_sub(hits));
                w.fired.set(w.fired.get() + 1);
                if let Some(g) = w.g.get() {
                    w.busy.set(true);
                    // SAFETY: `window` keeps it alive.
                    unsafe { (*g)() };
                    w.busy.set(false);
                }
            }
            if w.left.get() == 0 && (!SURVEY.load(Relaxed) || n > SURVEY_DEPTH) {
                w.armed.set(false);
                regs[REG_EFL] &= !0x100;
            }
        })
    }

    pub fn install() {
        let a = SigAction { handler: trap, mask: [0; 16], flags: SA_SIGINFO, restorer: std::ptr::null_mut() };
        // SAFETY: a well-formed request; `trap` returns normally and only uses this module's state.
        unsafe { sigaction(SIGTRAP, &a, std::ptr::null_mut()) };
        // Writable mappings of the program itself: around a variable of ours.
        let here = &raw const DATA as usize;
        let maps = std::fs::read_to_string("/proc/self/maps").unwrap_or_default();
        let (mut lo, mut hi) = (0, 0);
        for l in maps.lines() {
            let mut f = l.split_whitespace();
            let (Some(range), Some(perm)) = (f.next(), f.next()) else { continue };
            let Some((a, b)) = range.split_once('-') else { continue };
            let (Ok(a), Ok(b)) = (usize::from_str_radix(a, 16), usize::from_str_radix(b, 16)) else { continue };
            if !perm.starts_with("rw") || l.ends_with(']') {
                continue;
            }
            if a == hi {
                hi = b;
            } else if !(lo..hi).contains(&here) {
                (lo, hi) = (a, b);
            }
        }
        if !(lo..hi).contains(&here) {
            return;
        }
        DATA[0].store(lo, Relaxed);
        DATA[1].store(hi, Relaxed);
        let hook = crate::sched::hook as fn(&'static str) as usize;
        let mut a = lo.next_multiple_of(8);
        while a + 8 <= hi {
            // SAFETY: mapped readable.
            if unsafe { std::ptr::read_volatile(a as *const usize) } == hook {
                HOOK.store(a, Relaxed);
            }
            a += 8;
        }
    }
}

/// Installs the trap handler. After the library's hook was set.
pub fn install() {
    #[cfg(target_arch = "x86_64")]
    sys::install();
}
