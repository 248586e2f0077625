//! C11: a gateway and a device. The gateway runs the library as built with
//! `std`; the device runs it as built without, in a module of its own. Both are
//! given the same history of requests: what goes over the link is lost,
//! repeated, damaged, cut or late; the device loses power and is brought back
//! by its log. Every answer is the same, byte by byte.
use crate::ctx::{show, Ctx, R};
use crate::model::{self, Style, K};
use crate::rng::{fnv, Rng, FNV0};
use crate::seams::Bytes;
use crate::serve::{Device, Request, OPS};
use crate::world::{Env, Meta, World};
use crate::{ensure, fail};
use serde::{Deserialize, Serialize};
use std::ffi::{c_char, c_int, c_void, CString};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::OnceLock;

extern "C" {
    fn dlopen(path: *const c_char, mode: c_int) -> *mut c_void;
    fn dlsym(lib: *mut c_void, name: *const c_char) -> *mut c_void;
}

#[derive(Clone, Copy)]
struct Api {
    new: extern "C" fn() -> *mut c_void,
    free: unsafe extern "C" fn(*mut c_void),
    #[allow(clippy::type_complexity)]
    serve: unsafe extern "C" fn(*mut c_void, *const Request, *const u8, usize, *mut u8, usize, *mut usize) -> isize,
}

/// The device's module, built by check.sh and loaded once.
fn api() -> Api {
    static API: OnceLock<Api> = OnceLock::new();
    *API.get_or_init(|| {
        let exe = std::env::current_exe().expect("own path");
        let path = exe.parent().and_then(|p| p.parent()).expect("target directory").join("device/release/liblangtag_device.so");
        let path = CString::new(path.to_str().expect("path")).expect("path");
        // SAFETY: the module is ours, and its functions have these types.
        unsafe {
            let lib = dlopen(path.as_ptr(), 2);
            if lib.is_null() {
                eprintln!("no verdict: the device's module cannot be loaded");
                std::process::exit(2);
            }
            let find = |name: &std::ffi::CStr| {
                let f = dlsym(lib, name.as_ptr());
                assert!(!f.is_null(), "{name:?}");
                f
            };
            Api {
                new: std::mem::transmute::<*mut c_void, extern "C" fn() -> *mut c_void>(find(c"device_new")),
                free: std::mem::transmute::<*mut c_void, unsafe extern "C" fn(*mut c_void)>(find(c"device_free")),
                serve: std::mem::transmute::<
                    *mut c_void,
                    unsafe extern "C" fn(*mut c_void, *const Request, *const u8, usize, *mut u8, usize, *mut usize) -> isize,
                >(find(c"device_serve")),
            }
        }
    })
}

/// The real device. It loses everything when it loses power.
struct Real(Api, *mut c_void);
impl Real {
    fn start() -> Real {
        let a = api();
        Real(a, (a.new)())
    }
    /// The answer's length (none if it panicked), and how often memory was asked for.
    fn serve(&mut self, q: &Request, sent: &[u8], out: &mut [u8]) -> (Option<usize>, usize) {
        let mut asked = 0;
        // SAFETY: the device lives, and the pointers are to what they say.
        let n = unsafe { (self.0.serve)(self.1, q, sent.as_ptr(), sent.len(), out.as_mut_ptr(), out.len(), &mut asked) };
        (usize::try_from(n).ok(), asked)
    }
}
impl Drop for Real {
    fn drop(&mut self) {
        // SAFETY: it is not used again.
        unsafe { (self.0.free)(self.1) }
    }
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Fault {
    Lost,
    Twice,
    /// A byte is changed on the link (place, per mille of the length).
    Damaged { at: u16, to: u8 },
    /// A bit flips on the link.
    Flipped { at: u16, bit: u8 },
    Cut { at: u16 },
    /// The next request overtakes this one.
    Late,
    /// The device loses power while it answers; it is started again and takes up its log.
    Power,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Ev {
    op: u8,
    slot: u8,
    other: u8,
    kind: u8,
    arg: u8,
    cap: u16,
    /// Which text is sent.
    t: u8,
    /// Room for the answer.
    room: u16,
    fault: Option<Fault>,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Plan {
    texts: Vec<Bytes>,
    evs: Vec<Ev>,
}

pub struct C11;

const NAMES: [&str; OPS as usize] = [
    "receive", "parse", "errors", "queries", "normal", "open a cursor", "step", "step", "compare", "hash", "format", "singleton",
    "grandfathered", "walk", "data format",
];

impl World for C11 {
    const META: Meta = Meta {
        id: "C11",
        quick: 700_000,
        thorough: 20_000_000,
        batch: 2000,
        threads: false,
        nests: false,
        survey: 0,
        rule: "one run = a history of up to 40 requests to a gateway (built with std) and a device (built without) over a faulty link; \
               a run is nontrivial if a well-formed text was asked about",
        states: "operation, kind, argument class and answer of the two builds",
        interleavings: "order in which requests reach the two (hash of the sequence of requests delivered)",
        real: &["all borrowed types and their cursors, built with std", "the same built without std, in a module of its own, without the hooks"],
        stub: &["gateway, device firmware, link, power, log"],
        assumptions: &["the device's processor is this one; its firmware (device/src/serve.rs) is compiled once for each build and uses core and serde only"],
    };
    type Plan = Plan;

    fn gen(r: &mut Rng, _env: Env) -> Plan {
        let st = Style::new(r);
        let mut kinds = vec![];
        let mut texts: Vec<Bytes> = vec![];
        for _ in 0..r.range(2, 5) {
            let k = if r.chance(1, 2) { K::Tag } else { *r.pick(&model::KINDS) };
            let t = match (r.below(12), texts.is_empty()) {
                (0, _) => model::wild(r),
                (1, _) => {
                    let mut t = model::around_registered(r);
                    if r.chance(1, 3) && !t.is_empty() {
                        let i = r.below(t.len());
                        t[i] ^= 1 << if r.chance(1, 2) { 5 } else { r.below(8) };
                    }
                    t
                }
                (2, _) => {
                    let t = st.text(r, k);
                    model::mutate(r, t.as_bytes())
                }
                (3, _) => st.long_text(r, k, 1400).into_bytes(),
                (4 | 5, false) => {
                    let t = r.pick(&texts).0.clone();
                    let n = r.u64();
                    String::from_utf8(t).map_or_else(|e| e.into_bytes(), |t| model::respell(&t, n).into_bytes())
                }
                (6, false) => {
                    let t = r.pick(&texts).0.clone();
                    String::from_utf8(t).map_or_else(|e| e.into_bytes(), |t| st.near(r, k, &t).into_bytes())
                }
                _ => st.text(r, k).into_bytes(),
            };
            texts.push(Bytes(t));
            kinds.push(model::KINDS.iter().position(|x| *x == k).unwrap_or(0) as u8);
        }
        let mut holds = [0u8; 4];
        let mut evs: Vec<Ev> = (0..4u8)
            .map(|s| {
                let t = if s as usize >= texts.len() { r.below(texts.len()) } else { s as usize };
                holds[s as usize] = kinds[t];
                Ev { op: 0, slot: s, other: 0, kind: r.u8(), arg: r.u8(), cap: 0, t: t as u8, room: 0, fault: None }
            })
            .collect();
        for _ in 0..r.range(3, 36) {
            let slot = r.below(4) as u8;
            let op = *r.pick(&[0, 1, 2, 3, 3, 4, 5, 5, 6, 6, 6, 6, 6, 8, 8, 9, 10, 11, 12, 13, 14]);
            let t = r.below(texts.len());
            if op == 0 {
                holds[slot as usize] = kinds[t];
            }
            evs.push(Ev {
                op,
                slot,
                other: r.below(6) as u8,
                kind: if r.chance(3, 4) { holds[slot as usize] } else { r.u8() },
                arg: r.u8(),
                cap: match r.below(3) {
                    0 => r.below(12) as u16,
                    1 => r.below(80) as u16,
                    _ => 1000 + r.below(16) as u16,
                },
                t: t as u8,
                room: if r.chance(1, 8) { r.below(40) as u16 } else { 4000 },
                fault: match r.below(if op == 0 { 10 } else { 24 }) {
                    0 => Some(Fault::Lost),
                    1 => Some(Fault::Twice),
                    2 => Some(Fault::Damaged { at: r.below(1000) as u16, to: *r.pick(b"-a0xZ \xc3_9") }),
                    3 => Some(Fault::Cut { at: r.below(1000) as u16 }),
                    4 => Some(Fault::Late),
                    5 => Some(Fault::Power),
                    6 if op == 0 => Some(Fault::Flipped { at: r.below(1000) as u16, bit: if r.chance(1, 2) { 5 } else { r.below(8) as u8 } }),
                    _ => None,
                },
            });
        }
        Plan { texts, evs }
    }

    fn exec(p: &Plan, c: &mut Ctx) -> R {
        if p.texts.is_empty() {
            return Ok(());
        }
        let mut gateway = Box::new(Device::new());
        let mut device = Real::start();
        // What was delivered: the request, the text with it, the room, the answer (length and hash).
        let mut log: Vec<(Request, Vec<u8>, usize, usize, u64)> = vec![];
        let mut order: Vec<usize> = (0..p.evs.len()).collect();
        for i in 0..order.len().saturating_sub(1) {
            if matches!(p.evs[order[i]].fault, Some(Fault::Late)) && order[i] == i {
                c.fault("request overtaken");
                order.swap(i, i + 1);
            }
        }
        let (mut a, mut b) = (vec![0u8; 4096], vec![0u8; 4096]);
        for i in order {
            let e = &p.evs[i];
            c.sim_ms += 1 + e.room as u64 / 400;
            let mut sent = if e.op % OPS == 0 { p.texts[e.t as usize % p.texts.len()].0.clone() } else { vec![] };
            let mut times = 1;
            match &e.fault {
                None | Some(Fault::Late | Fault::Power) => {}
                Some(Fault::Lost) => {
                    c.fault("request lost");
                    continue;
                }
                Some(Fault::Twice) => {
                    c.fault("request repeated");
                    times = 2;
                }
                Some(Fault::Damaged { at, to }) => {
                    let n = sent.len();
                    if let Some(x) = sent.get_mut(n.saturating_sub(1) * *at as usize / 999) {
                        c.fault("request damaged");
                        *x = *to;
                    }
                }
                Some(Fault::Flipped { at, bit }) => {
                    let n = sent.len();
                    if let Some(x) = sent.get_mut(n.saturating_sub(1) * *at as usize / 999) {
                        c.fault("bit flipped in a request");
                        *x ^= 1 << (bit & 7);
                    }
                }
                Some(Fault::Cut { at }) => {
                    if !sent.is_empty() {
                        c.fault("end of a request lost");
                        sent.truncate(sent.len() * *at as usize / 1000);
                    }
                }
            }
            let q = Request { op: e.op, slot: e.slot, other: e.other, kind: e.kind, arg: e.arg, cap: e.cap };
            let room = (e.room as usize).min(a.len());
            if room < 40 {
                c.fault("short of room for the answer");
            }
            for _ in 0..times {
                let name = NAMES[(e.op % OPS) as usize];
                a[..room].fill(0xee);
                b[..room].fill(0xee);
                let on = catch_unwind(AssertUnwindSafe(|| gateway.serve(&q, &sent, &mut a[..room]))).ok();
                let (off, asked) = device.serve(&q, &sent, &mut b[..room]);
                c.ops += 2;
                c.checks += 2;
                let (x, y) = (&a[..room.min(on.unwrap_or(0))], &b[..room.min(off.unwrap_or(0))]);
                if on.is_none() && off.is_none() {
                    // Both panic: the same on either build, and for other properties to decide.
                    c.probe("both panicked");
                    return Ok(());
                }
                if on != off || a[..room] != b[..room] {
                    let say = |n: Option<usize>, b: &[u8]| n.map_or("panics".into(), |n| format!("answers {} ({n} bytes)", show(b)));
                    fail!(
                        "builds-disagree",
                        "request {i}, {name} {q:?} of {}: with std {}, without {}",
                        show(log.iter().rev().find(|l| l.0.op % OPS == 0 && l.0.slot % 4 == e.slot % 4).map_or(&[][..], |l| &l.1)),
                        say(on, x), say(off, y)
                    );
                }
                ensure!(asked == 0, "asked-for-memory", "request {i}, {name} {q:?}: {asked} times, on a device that has none to give");
                c.ev(name, &[&sent[..], x].concat());
                c.sched = fnv(fnv(c.sched, &[e.op, e.slot]), &[e.kind]);
                let class = on.unwrap_or(0).min(40) as u8;
                c.state(fnv(FNV0, &[e.op % OPS, e.kind % 15, e.arg % 8, class, x.first().copied().unwrap_or(0)]));
                if class > 3 {
                    c.nontrivial = true;
                }
                log.push((q, sent.clone(), room, on.unwrap_or(0), fnv(FNV0, x)));
            }
            if matches!(e.fault, Some(Fault::Power)) {
                c.fault("device lost power");
                device = Real::start();
                for (q, sent, room, n, want) in &log {
                    let (got, _) = device.serve(q, sent, &mut b[..*room]);
                    c.ops += 1;
                    c.checks += 1;
                    ensure!(
                        got == Some(*n) && fnv(FNV0, &b[..*n.min(room)]) == *want,
                        "answers-differ-after-restart", "{} {q:?} of the log: {}", NAMES[(q.op % OPS) as usize], show(&b[..*n.min(room)])
                    );
                }
                c.probe("device came back");
            }
        }
        Ok(())
    }
}
