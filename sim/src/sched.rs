//! The scheduler. Caller threads are real threads, parked and released one at
//! a time: exactly one holds the turn, and who gets it next is read from the
//! plan. A thread can lose the turn at every hook point inside the library.
use crate::rng::{fnv, FNV0};
use std::cell::{Cell, UnsafeCell};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::OnceLock;
use std::thread::Thread;

#[derive(Clone, Copy, PartialEq)]
enum State {
    Ready,
    /// Waiting for lock n.
    Blocked(usize),
    Done,
}

struct Inner {
    decisions: Vec<u16>,
    dpos: usize,
    gaps: Vec<u32>,
    gpos: usize,
    countdown: u64,
    state: Vec<State>,
    locks: Vec<bool>,
    sched: u64,
    switches: u64,
    preemptions: u64,
    sites: [(&'static str, u64); 12],
}

pub struct Sched {
    inner: UnsafeCell<Inner>,
    turn: AtomicUsize,
    handles: OnceLock<Vec<Thread>>,
}
// SAFETY: `inner` is only touched by the thread holding the turn.
unsafe impl Sync for Sched {}

const NOBODY: usize = usize::MAX;

thread_local! {
    static CUR: Cell<(*const Sched, usize)> = const { Cell::new((std::ptr::null(), 0)) };
    static NEST: Cell<Option<*mut dyn FnMut(&'static str)>> = const { Cell::new(None) };
}

pub struct Outcome {
    pub sched: u64,
    pub switches: u64,
    pub preemptions: u64,
    pub sites: Vec<(&'static str, u64)>,
}

impl Sched {
    /// `gaps`: number of hook points between in-call preemptions, in order;
    /// none once exhausted. `decisions`: who runs next, modulo the runnable.
    pub fn new(n: usize, locks: usize, decisions: &[u16], gaps: &[u32]) -> Sched {
        let mut i = Inner {
            decisions: decisions.to_vec(),
            dpos: 0,
            gaps: gaps.to_vec(),
            gpos: 0,
            countdown: u64::MAX,
            state: vec![State::Ready; n],
            locks: vec![false; locks],
            sched: FNV0,
            switches: 0,
            preemptions: 0,
            sites: [("", 0); 12],
        };
        i.rearm();
        Sched { inner: UnsafeCell::new(i), turn: AtomicUsize::new(NOBODY), handles: OnceLock::new() }
    }

    #[allow(clippy::mut_from_ref)]
    fn inner(&self) -> &mut Inner {
        // SAFETY: the caller holds the turn.
        unsafe { &mut *self.inner.get() }
    }

    fn wait_turn(&self, id: usize) {
        let mut spins = 0;
        while self.turn.load(Ordering::Acquire) != id {
            spins += 1;
            if spins < 40 {
                std::hint::spin_loop();
            } else {
                std::thread::park();
            }
        }
    }

    fn hand_to(&self, id: usize) {
        self.turn.store(id, Ordering::Release);
        self.handles.get().unwrap()[id].unpark();
    }

    /// Gives up the turn; returns when it is back (if `me` is still ready).
    fn switch(&self, me: usize, site: &'static str) {
        let i = self.inner();
        let Some(next) = i.choose() else {
            return;
        };
        i.sched = fnv(fnv(i.sched, &[me as u8, next as u8]), site.as_bytes());
        if next == me {
            return;
        }
        i.switches += 1;
        let done = i.state[me] == State::Done;
        self.hand_to(next);
        if !done {
            self.wait_turn(me);
        }
    }

    fn point(&self, me: usize, site: &'static str) {
        let i = self.inner();
        for s in &mut i.sites {
            if s.0 == site {
                s.1 += 1;
                break;
            }
            if s.0.is_empty() {
                *s = (site, 1);
                break;
            }
        }
        i.countdown -= 1;
        if i.countdown == 0 {
            i.rearm();
            i.preemptions += 1;
            self.switch(me, site);
        }
    }

    /// Runs the bodies to completion under this scheduler.
    pub fn run<'a>(&self, bodies: Vec<Box<dyn FnOnce() + Send + 'a>>) -> Outcome {
        std::thread::scope(|s| {
            let mut hs = vec![];
            for (id, body) in bodies.into_iter().enumerate() {
                let me = self as *const Sched as usize;
                hs.push(
                    std::thread::Builder::new()
                        .stack_size(1024 * 1024)
                        .spawn_scoped(s, move || {
                            // SAFETY: the scheduler outlives the scope.
                            let sched = unsafe { &*(me as *const Sched) };
                            sched.wait_turn(id);
                            CUR.with(|c| c.set((sched, id)));
                            body();
                            CUR.with(|c| c.set((std::ptr::null(), 0)));
                            sched.inner().state[id] = State::Done;
                            sched.switch(id, "exit");
                        })
                        .expect("spawn"),
                );
            }
            self.handles.set(hs.iter().map(|h| h.thread().clone()).collect()).ok();
            let first = self.inner().choose().unwrap_or(0);
            self.hand_to(first);
        });
        let i = self.inner();
        Outcome {
            sched: i.sched,
            switches: i.switches,
            preemptions: i.preemptions,
            sites: i.sites.iter().copied().filter(|s| s.1 > 0).collect(),
        }
    }
}

impl Inner {
    fn rearm(&mut self) {
        self.countdown = match self.gaps.get(self.gpos) {
            Some(g) => {
                self.gpos += 1;
                *g as u64 + 1
            }
            None => u64::MAX,
        };
    }
    fn choose(&mut self) -> Option<usize> {
        let ready: Vec<usize> = (0..self.state.len()).filter(|i| self.state[*i] == State::Ready).collect();
        if ready.is_empty() {
            return None;
        }
        let d = self.decisions.get(self.dpos).copied().unwrap_or(0) as usize;
        self.dpos += 1;
        Some(ready[d % ready.len()])
    }
}

fn current() -> Option<(&'static Sched, usize)> {
    let (p, id) = CUR.with(|c| c.get());
    // SAFETY: set only while the scheduler is alive.
    (!p.is_null()).then(|| (unsafe { &*p }, id))
}

/// Voluntary yield between operations.
pub fn yield_now(site: &'static str) {
    if let Some((s, me)) = current() {
        s.switch(me, site);
    }
}

/// Acquires simulated lock `l`; true when it had to wait.
pub fn lock(l: usize) -> bool {
    let Some((s, me)) = current() else { return false };
    let mut waited = false;
    loop {
        let i = s.inner();
        if !i.locks[l] {
            i.locks[l] = true;
            return waited;
        }
        waited = true;
        i.state[me] = State::Blocked(l);
        s.switch(me, "block");
    }
}

pub fn unlock(l: usize) {
    let Some((s, _)) = current() else { return };
    let i = s.inner();
    i.locks[l] = false;
    for st in &mut i.state {
        if *st == State::Blocked(l) {
            *st = State::Ready;
        }
    }
}

/// Takes the turn away from a thread in the middle of a call.
pub fn preempt(site: &'static str) {
    if let Some((s, me)) = current() {
        s.inner().preemptions += 1;
        s.switch(me, site);
    }
}

/// The function registered with the library.
pub fn hook(site: &'static str) {
    crate::fine::busy(|| at_hook(site))
}

fn at_hook(site: &'static str) {
    if let Some(f) = NEST.with(|n| n.take()) {
        // Taken while it runs: the nested work does not nest again.
        // SAFETY: `nested` keeps the closure alive while it is registered.
        unsafe { (*f)(site) };
        NEST.with(|n| n.set(Some(f)));
    } else if let Some((s, me)) = current() {
        s.point(me, site);
    }
}

/// Runs `f`; at each hook point reached inside it, `g` runs nested.
pub fn nested<T>(g: &mut dyn FnMut(&'static str), f: impl FnOnce() -> T) -> T {
    struct Reset;
    impl Drop for Reset {
        fn drop(&mut self) {
            NEST.with(|n| n.set(None));
        }
    }
    // SAFETY: reset before `g` goes out of scope.
    let g: *mut dyn FnMut(&'static str) =
        unsafe { std::mem::transmute::<&mut dyn FnMut(&'static str), &'static mut dyn FnMut(&'static str)>(g) };
    let _r = Reset;
    NEST.with(|n| n.set(Some(g)));
    f()
}

type Job = *mut (dyn FnMut() + 'static);
struct Parcel(Job);
// SAFETY: `apart` waits for the helper to be done with it.
unsafe impl Send for Parcel {}
struct Helper {
    to: std::sync::mpsc::Sender<Parcel>,
    back: std::sync::mpsc::Receiver<()>,
}
thread_local! {
    static HELPER: std::cell::OnceCell<Helper> = const { std::cell::OnceCell::new() };
}

/// Runs `f` to completion, on a helper thread if `other` is set.
pub fn apart(other: bool, f: &mut dyn FnMut()) {
    if !other {
        return f();
    }
    HELPER.with(|h| {
        let h = h.get_or_init(|| {
            let (to, jobs) = std::sync::mpsc::channel::<Parcel>();
            let (done, back) = std::sync::mpsc::channel();
            std::thread::spawn(move || {
                for j in jobs {
                    // SAFETY: alive until `done` is told.
                    unsafe { (*j.0)() };
                    if done.send(()).is_err() {
                        break;
                    }
                }
            });
            Helper { to, back }
        });
        // SAFETY: waited for below.
        let f: Job = unsafe { std::mem::transmute::<&mut dyn FnMut(), &'static mut dyn FnMut()>(f) };
        h.to.send(Parcel(f)).expect("helper");
        h.back.recv().expect("helper");
    })
}
