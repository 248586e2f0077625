//! C13: owned values take over the caller's buffer, hand it back, and release
//! it once, while the allocator refuses, holders unwind and values change hands.
use crate::alloc::{books, Cost};
use crate::ctx::{show, Ctx, R, V};
use crate::kinds::Ty;
use crate::model::{self, Style, K};
use crate::rng::{fnv, Rng, FNV0};
use crate::sched;
use crate::seams::Bytes;
use crate::world::{panic_violation, Env, Meta, World};
use crate::{dispatch, ensure, fail};
use serde::de::value::{Error as DeError, StrDeserializer, StringDeserializer};
use serde::de::IntoDeserializer;
use serde::{Deserialize, Serialize};
use std::fmt::{self, Write as _};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Op {
    /// The caller's buffer, with room to spare, becomes the value in a slot, or is refused.
    Adopt { slot: u8, text: u8, spare: u8, route: u8, far: bool },
    /// The buffer back; then 0: dropped, 1: adopted again, 2: written on, cut back and adopted again.
    Release { slot: u8, route: u8, then: u8, far: bool },
    Clone { from: u8, to: u8, far: bool },
    /// Copied from the borrowed form.
    ToOwned { from: u8, to: u8 },
    Parse { slot: u8, text: u8 },
    /// From a data format: 0 a text, 1 an owned text, 2 JSON.
    Deserialize { slot: u8, text: u8, how: u8 },
    /// A value is overwritten: 0 by `clone_from`, 1 by `clone_into`, 2 in place by a data format.
    Over { from: u8, to: u8, text: u8, how: u8, far: bool },
    /// Looks at two values: 0 views, 1 comparison, 2 hash, 3 text into a fixed buffer.
    Read { a: u8, b: u8, how: u8, far: bool },
    Drop { slot: u8, far: bool },
    Swap { a: u8, b: u8 },
    /// The holder of the value unwinds while 0: writing its text, 1: hashing it, at the n-th write.
    Unwind { slot: u8, how: u8, at: u8, far: bool },
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Plan {
    kind: u8,
    texts: Vec<Bytes>,
    ops: Vec<Op>,
}

pub struct C13;

const ASKED: &str = "memory-requested";
const BOOKS: &str = "books-do-not-balance";
const MOVED: &str = "buffer-replaced";
const TEXT: &str = "value-altered";
const SLOTS: usize = 5;

/// What a slot holds, and what the model knows about it.
struct Held<T: Ty> {
    v: T::O,
    text: Vec<u8>,
    ptr: usize,
    cap: usize,
}

struct Unwound;

/// Does `f` with the books open, on the helper thread if asked to.
fn costed<X>(far: bool, c: &mut Ctx, f: impl FnOnce() -> X) -> Result<(X, Cost), V> {
    let mut f = Some(f);
    let mut out = None;
    if far {
        c.fault("carried out on another thread");
    }
    sched::apart(far, &mut || {
        if let Some(f) = f.take() {
            let r = catch_unwind(AssertUnwindSafe(|| books(f)));
            out = Some(r.map_err(|p| if p.is::<Unwound>() { None } else { Some(panic_violation()) }));
        }
    });
    match out {
        Some(Ok(x)) => Ok(x),
        Some(Err(Some(v))) => Err(v),
        _ => fail!("harness", "no outcome"),
    }
}

fn free(what: &str, t: &[u8], cost: Cost) -> R {
    ensure!(cost.requests == 0, ASKED, "{what} {} asked for memory {} times while the allocator refused", show(t), cost.requests);
    Ok(())
}
fn net(what: &str, t: &[u8], cost: Cost, blocks: i64, bytes: i64) -> R {
    ensure!(
        cost.blocks == blocks && cost.bytes == bytes,
        BOOKS,
        "{what} {}: {} blocks of {} bytes taken less released, instead of {blocks} of {bytes}",
        show(t), cost.blocks, cost.bytes
    );
    Ok(())
}
/// A fresh copy of `t` and nothing else was taken.
fn one_copy(what: &str, t: &[u8], cost: Cost) -> R {
    ensure!(
        cost.blocks == (!t.is_empty()) as i64 && cost.bytes >= t.len() as i64,
        BOOKS,
        "{what} {}: {} blocks of {} bytes taken less released, instead of one copy of the text",
        show(t), cost.blocks, cost.bytes
    );
    Ok(())
}

fn same_buffer(what: &str, t: &[u8], got: &[u8], ptr: usize, cap: usize) -> R {
    ensure!(got == t, TEXT, "{what}: {} became {}", show(t), show(got));
    ensure!(cap == 0 || got.as_ptr() as usize == ptr, MOVED, "{what}: {} no longer lies in the caller's buffer", show(t));
    Ok(())
}

/// All views of the value show its text, in its own buffer.
fn intact<T: Ty>(what: &str, h: &Held<T>) -> R {
    for v in T::views(&h.v) {
        same_buffer(what, &h.text, v, h.ptr, h.cap)?;
    }
    Ok(())
}

fn drop_it<T: Ty>(h: Option<Held<T>>, far: bool, c: &mut Ctx) -> R {
    let Some(h) = h else { return Ok(()) };
    intact("before its drop", &h)?;
    let Held { v, text, cap, .. } = h;
    let ((), cost) = costed(far, c, move || drop(v))?;
    c.fault("allocator refuses");
    free("dropping", &text, cost)?;
    net("dropping", &text, cost, -((cap > 0) as i64), -(cap as i64))
}

/// Adopts the buffer `v`; what became of it.
fn adopt<T: Ty>(kind: K, buf: Vec<u8>, route: u8, far: bool, c: &mut Ctx) -> Result<Option<Held<T>>, V> {
    let (text, ptr, cap) = (buf.clone(), buf.as_ptr() as usize, buf.capacity());
    let want = model::accepts(kind, &text);
    c.fault("allocator refuses");
    let (r, cost) = match String::from_utf8(buf) {
        Ok(s) if route & 1 == 0 => {
            let (r, cost) = costed(far, c, move || T::adopt_string(route >> 1, s))?;
            (r.map_err(String::into_bytes), cost)
        }
        Ok(s) => costed(far, c, move || T::adopt_bytes(route >> 1, s.into_bytes()))?,
        Err(e) => costed(far, c, move || T::adopt_bytes(route >> 1, e.into_bytes()))?,
    };
    c.checks += 1;
    free("adopting", &text, cost)?;
    net("adopting", &text, cost, 0, 0)?;
    match r {
        Ok(v) => {
            ensure!(want, "accepted-ill-formed", "{kind:?} adopted {}", show(&text));
            c.nontrivial = true;
            let h = Held::<T> { v, text, ptr, cap };
            intact("adoption", &h)?;
            Ok(Some(h))
        }
        Err(back) => {
            ensure!(!want, "refused-well-formed", "{kind:?} refused {}", show(&text));
            c.probe("buffer refused and handed back");
            same_buffer("refusal", &text, &back, ptr, cap)?;
            ensure!(back.capacity() == cap, MOVED, "refusal of {}: room for {} bytes became {}", show(&text), cap, back.capacity());
            Ok(None)
        }
    }
}

/// A value that was copied out of `src`.
fn copied<T: Ty>(what: &str, v: T::O, text: &[u8], src: usize, cost: Cost) -> Result<Held<T>, V> {
    let ptr = T::otext(&v).as_ptr() as usize;
    let got = T::otext(&v).as_bytes();
    ensure!(got == text, TEXT, "{what}: {} became {}", show(text), show(got));
    one_copy(what, text, cost)?;
    ensure!(text.is_empty() || ptr != src, MOVED, "{what}: the copy of {} shares its buffer", show(text));
    let h = Held::<T> { v, text: text.to_vec(), ptr, cap: cost.bytes as usize };
    intact(what, &h)?;
    Ok(h)
}

/// Takes 64 bytes of text; unwinds at the n-th write when armed.
struct Fixed {
    at: u32,
    buf: [u8; 64],
    n: usize,
}
impl Fixed {
    fn tick(&mut self) {
        if self.at == 0 {
            resume_unwind(Box::new(Unwound));
        }
        self.at -= 1;
    }
}
impl fmt::Write for Fixed {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.tick();
        for b in s.bytes() {
            if self.n < 64 {
                self.buf[self.n] = b;
                self.n += 1;
            }
        }
        Ok(())
    }
}
impl Hasher for Fixed {
    fn write(&mut self, b: &[u8]) {
        self.tick();
        self.n = self.n.wrapping_mul(31).wrapping_add(b.len());
    }
    fn finish(&self) -> u64 {
        self.n as u64
    }
}
fn fixed(at: u32) -> Fixed {
    Fixed { at, buf: [0; 64], n: 0 }
}

fn world<T: Ty>(kind: K, p: &Plan, c: &mut Ctx) -> R {
    let mut slots: Vec<Option<Held<T>>> = (0..SLOTS).map(|_| None).collect();
    let r = history::<T>(kind, p, c, &mut slots);
    // At the end everything is given back, violated or not.
    for s in &mut slots {
        let h = s.take();
        if r.is_ok() {
            drop_it(h, false, c)?;
        }
    }
    r
}

fn history<T: Ty>(kind: K, p: &Plan, c: &mut Ctx, slots: &mut [Option<Held<T>>]) -> R {
    let text = |i: u8| p.texts[i as usize % p.texts.len()].0.as_slice();
    let at = |i: u8| i as usize % SLOTS;
    for (n, op) in p.ops.iter().enumerate() {
        c.ops += 1;
        c.sim_ms += 1;
        c.ev("op", &[n as u8]);
        let full: u8 = slots.iter().enumerate().map(|(i, s)| (s.is_some() as u8) << i).sum();
        c.state(fnv(fnv(FNV0, &[kind as u8, full]), format!("{:?}", std::mem::discriminant(op)).as_bytes()));
        match op {
            Op::Adopt { slot, text: t, spare, route, far } => {
                drop_it(slots[at(*slot)].take(), !far, c)?;
                let t = text(*t);
                let mut buf = Vec::with_capacity(t.len() + *spare as usize);
                buf.extend_from_slice(t);
                slots[at(*slot)] = adopt::<T>(kind, buf, *route, *far, c)?;
            }
            Op::Release { slot, route, then, far } => {
                let Some(h) = slots[at(*slot)].take() else { continue };
                intact("before its release", &h)?;
                let Held { v, text, ptr, cap } = h;
                c.fault("allocator refuses");
                let (mut buf, cost) = if route & 1 == 0 {
                    let (s, cost) = costed(*far, c, move || T::release_string(route >> 1, v))?;
                    (s.into_bytes(), cost)
                } else {
                    costed(*far, c, move || T::release_bytes(route >> 1, v))?
                };
                c.checks += 1;
                c.ev("released", &buf);
                free("releasing", &text, cost)?;
                net("releasing", &text, cost, 0, 0)?;
                same_buffer("release", &text, &buf, ptr, cap)?;
                ensure!(buf.capacity() == cap, MOVED, "release of {}: room for {} bytes became {}", show(&text), cap, buf.capacity());
                match then % 3 {
                    0 => {}
                    1 => slots[at(*slot)] = adopt::<T>(kind, buf, *route, !far, c)?,
                    _ => {
                        buf.extend_from_slice(b"-abc");
                        slots[at(*slot)] = adopt::<T>(kind, buf, *route, *far, c)?;
                    }
                }
            }
            Op::Clone { from, to, far } => {
                let (from, to) = (at(*from), at(*to));
                if from == to || slots[from].is_none() {
                    continue;
                }
                drop_it(slots[to].take(), *far, c)?;
                let Some(h) = &slots[from] else { continue };
                let (v, cost) = costed(*far, c, || h.v.clone())?;
                c.checks += 1;
                c.ev("clone", &h.text);
                let copy = copied::<T>("clone", v, &h.text, h.ptr, cost)?;
                intact("cloning", h)?;
                slots[to] = Some(copy);
            }
            Op::ToOwned { from, to } => {
                let (from, to) = (at(*from), at(*to));
                if from == to || slots[from].is_none() {
                    continue;
                }
                drop_it(slots[to].take(), false, c)?;
                let Some(h) = &slots[from] else { continue };
                let b: &T::B = &h.v;
                let (v, cost) = costed(false, c, || b.to_owned())?;
                c.checks += 1;
                let copy = copied::<T>("to_owned", v, &h.text, h.ptr, cost)?;
                slots[to] = Some(copy);
            }
            Op::Parse { slot, text: t } => {
                let Ok(s) = std::str::from_utf8(text(*t)) else { continue };
                drop_it(slots[at(*slot)].take(), false, c)?;
                let (r, cost) = costed(false, c, || T::parse_str(s))?;
                c.checks += 1;
                c.ev("parse", s.as_bytes());
                let want = model::accepts(kind, s.as_bytes());
                match r {
                    Ok(v) => {
                        ensure!(want, "accepted-ill-formed", "{kind:?} parsed {}", show(s.as_bytes()));
                        slots[at(*slot)] = Some(copied::<T>("parse", v, s.as_bytes(), s.as_ptr() as usize, cost)?);
                    }
                    Err(e) => {
                        ensure!(!want, "refused-well-formed", "{kind:?} refused {}", show(s.as_bytes()));
                        ensure!(e == s, TEXT, "refusal of {} carries {}", show(s.as_bytes()), show(e.as_bytes()));
                        one_copy("refusing", s.as_bytes(), cost)?;
                        let ((), back) = costed(true, c, move || drop(e))?;
                        net("dropping the refusal of", s.as_bytes(), back, -cost.blocks, -cost.bytes)?;
                    }
                }
            }
            Op::Deserialize { slot, text: t, how } => {
                let Ok(s) = std::str::from_utf8(text(*t)) else { continue };
                drop_it(slots[at(*slot)].take(), false, c)?;
                let json = serde_json::to_string(s).unwrap_or_default();
                let own = s.to_owned();
                let cap = own.capacity() as i64;
                // Released inside, or taken over.
                let (r, mut cost) = costed(false, c, || match how % 3 {
                    0 => {
                        drop(own);
                        let d: StrDeserializer<DeError> = s.into_deserializer();
                        T::O::deserialize(d).ok()
                    }
                    1 => {
                        let d: StringDeserializer<DeError> = own.into_deserializer();
                        T::O::deserialize(d).ok()
                    }
                    _ => {
                        drop(own);
                        serde_json::from_str(&json).ok()
                    }
                })?;
                cost.blocks += (cap > 0) as i64;
                cost.bytes += cap;
                c.checks += 1;
                c.ev("deserialize", s.as_bytes());
                match r {
                    Some(v) => {
                        let h = copied::<T>("deserialization", v, s.as_bytes(), s.as_ptr() as usize, cost)?;
                        slots[at(*slot)] = Some(h);
                    }
                    None => net("failing to deserialize", s.as_bytes(), cost, 0, 0)?,
                }
            }
            Op::Over { from, to, text: t, how, far } => {
                let (from, to) = (at(*from), at(*to));
                if from == to {
                    continue;
                }
                let Some(mut h) = slots[to].take() else { continue };
                let (what, src, ptr) = match (how % 3, &slots[from]) {
                    (2, _) => {
                        let Ok(s) = std::str::from_utf8(text(*t)) else {
                            slots[to] = Some(h);
                            continue;
                        };
                        ("deserialization in place", s.as_bytes(), s.as_ptr() as usize)
                    }
                    (0, Some(src)) => ("clone_from", &src.text[..], src.ptr),
                    (_, Some(src)) => ("clone_into", &src.text[..], src.ptr),
                    _ => {
                        slots[to] = Some(h);
                        continue;
                    }
                };
                let v = &mut h.v;
                let (done, cost) = match (how % 3, &slots[from]) {
                    (0, Some(src)) => costed(*far, c, || {
                        v.clone_from(&src.v);
                        true
                    })?,
                    (1, Some(src)) => costed(*far, c, || {
                        let b: &T::B = &src.v;
                        b.clone_into(v);
                        true
                    })?,
                    _ => costed(*far, c, || {
                        let s = std::str::from_utf8(src).unwrap_or_default();
                        let d: StrDeserializer<DeError> = s.into_deserializer();
                        T::O::deserialize_in_place(d, v).is_ok()
                    })?,
                };
                c.checks += 1;
                c.probe("value overwritten");
                c.ev(what, src);
                let want = model::accepts(kind, src);
                ensure!(done || !want, "refused-well-formed", "{kind:?} refused {}", show(src));
                ensure!(!done || want, "accepted-ill-formed", "{kind:?} took {} in place", show(src));
                let now = T::otext(&h.v).as_bytes().to_vec();
                if done {
                    ensure!(now == src, TEXT, "{what}: {} became {}", show(src), show(&now));
                } else {
                    // What a failed attempt leaves is not said, but it is well-formed.
                    ensure!(model::accepts(kind, &now), TEXT, "failed {what} of {} left {}", show(src), show(&now));
                }
                h.ptr = T::otext(&h.v).as_ptr() as usize;
                ensure!(now.is_empty() || h.ptr != ptr, MOVED, "{what}: the copy of {} shares its buffer", show(src));
                let cap = h.cap as i64 + cost.bytes;
                ensure!(
                    cap >= now.len() as i64 && cost.blocks == (cap > 0) as i64 - (h.cap > 0) as i64,
                    BOOKS,
                    "{what} of {} over {} with room for {}: {} blocks of {} bytes taken less released",
                    show(src), show(&h.text), h.cap, cost.blocks, cost.bytes
                );
                h.cap = cap as usize;
                h.text = now;
                intact(what, &h)?;
                slots[to] = Some(h);
            }
            Op::Read { a, b, how, far } => {
                let (Some(x), Some(y)) = (&slots[at(*a)], &slots[at(*b)]) else { continue };
                c.fault("allocator refuses");
                c.checks += 1;
                let (ok, cost) = match how % 4 {
                    0 => costed(*far, c, || {
                        T::views(&x.v).iter().all(|v| *v == &x.text[..] && (x.cap == 0 || v.as_ptr() as usize == x.ptr))
                    })?,
                    1 => costed(*far, c, || {
                        let eq = x.text.eq_ignore_ascii_case(&y.text);
                        (x.v == y.v) == eq && (*x.v == *y.v) == eq && (x.v.cmp(&y.v) == std::cmp::Ordering::Equal) == eq && (x.v == *y.v) == eq
                    })?,
                    2 => costed(*far, c, || {
                        let (mut h, mut i) = (fixed(u32::MAX), fixed(u32::MAX));
                        x.v.hash(&mut h);
                        (*x.v).hash(&mut i);
                        h.finish() == i.finish()
                    })?,
                    _ => costed(*far, c, || {
                        let mut f = fixed(u32::MAX);
                        let r = write!(f, "{}", x.v);
                        let n = x.text.len().min(64);
                        r.is_ok() && f.n == n && f.buf[..n] == x.text[..n]
                    })?,
                };
                ensure!(ok, "wrong-answer", "{} of owned {} and {}", ["views", "comparison", "hash", "text"][*how as usize % 4], show(&x.text), show(&y.text));
                free("looking at owned", &x.text, cost)?;
                net("looking at owned", &x.text, cost, 0, 0)?;
            }
            Op::Drop { slot, far } => drop_it(slots[at(*slot)].take(), *far, c)?,
            Op::Swap { a, b } => {
                let (a, b) = (at(*a), at(*b));
                if a != b {
                    slots.swap(a, b);
                    if let Some(h) = &slots[a] {
                        intact("swap", h)?;
                    }
                }
            }
            Op::Unwind { slot, how, at: n, far } => {
                let Some(h) = slots[at(*slot)].take() else { continue };
                let Held { v, text, cap, .. } = h;
                c.fault("holder unwinds");
                let ((), cost) = costed(*far, c, move || {
                    let r = catch_unwind(AssertUnwindSafe(move || {
                        let v = v;
                        let mut f = fixed(*n as u32);
                        if how % 2 == 0 {
                            let _ = write!(f, "{}", v);
                        } else {
                            v.hash(&mut f);
                        }
                        resume_unwind(Box::new(Unwound));
                    }));
                    if let Err(p) = r {
                        if !p.is::<Unwound>() {
                            resume_unwind(p);
                        }
                    }
                })?;
                c.checks += 1;
                // The unwinding's own record is taken and released inside.
                net("unwinding with", &text, cost, -((cap > 0) as i64), -(cap as i64))?;
            }
        }
        // Whatever happened to one value, the others are as they were.
        for h in slots.iter().flatten() {
            intact("later", h)?;
        }
    }
    Ok(())
}

impl World for C13 {
    const META: Meta = Meta {
        id: "C13",
        quick: 1_200_000,
        thorough: 30_000_000,
        batch: 5_000,
        threads: false,
        nests: false,
        survey: 0,
        rule: "one run = a history of up to 24 operations on up to 5 owned values of one type (adoption, refusal, release, copying, overwriting, \
               reading, drop, unwinding holders, hand-over to another thread) with the allocator's books open; non-trivial: at least one \
               buffer was adopted; distinct by the hash of the full event log",
        states: "distinct (type, slots in use, operation)",
        interleavings: "distinct event logs",
        real: &["constructors, conversions, views, Clone, Drop, serde of all 15 owned types", "std String and Vec"],
        stub: &["allocator (counting, overwriting what is released)", "formatter and hasher that unwind"],
        assumptions: &["copying an owned value takes one block of memory: refusing that aborts the process, so copies are made while memory is plentiful"],
    };
    type Plan = Plan;

    fn gen(r: &mut Rng, env: Env) -> Plan {
        let st = Style::new(r);
        let kind = r.below(15) as u8;
        let k = model::kind(kind);
        let mut texts: Vec<Bytes> = vec![];
        for _ in 0..r.range(1, 4) {
            let t = if r.chance(1, 60) {
                let max = Style::reach(r, env.tier).min(5000);
                st.long_text(r, k, max)
            } else {
                st.text(r, k)
            };
            texts.push(Bytes(match r.below(8) {
                0 | 1 => model::mutate(r, t.as_bytes()),
                2 if !texts.is_empty() => {
                    let s = String::from_utf8_lossy(&texts[0].0).into_owned();
                    model::respell(&s, r.u64()).into_bytes()
                }
                _ => t.into_bytes(),
            }));
        }
        let ops = (0..r.range(2, 24))
            .map(|_| {
                let (a, b, far) = (r.below(SLOTS) as u8, r.below(SLOTS) as u8, r.chance(1, 20));
                let (text, route, how) = (r.u8() % 4, r.u8() % 12, r.u8() % 12);
                match r.below(20) {
                    18 | 19 => Op::Over { from: a, to: b, text, how, far },
                    0..=4 => Op::Adopt { slot: a, text, spare: if r.chance(1, 2) { 0 } else { r.u8() % 40 }, route, far },
                    5 | 6 => Op::Release { slot: a, route, then: how, far },
                    7 | 8 => Op::Clone { from: a, to: b, far },
                    9 => Op::ToOwned { from: a, to: b },
                    10 | 11 => Op::Parse { slot: a, text },
                    12 => Op::Deserialize { slot: a, text, how },
                    13 | 14 => Op::Read { a, b, how, far },
                    15 => Op::Drop { slot: a, far },
                    16 => Op::Swap { a, b },
                    _ => Op::Unwind { slot: a, how, at: r.u8() % 6, far },
                }
            })
            .collect();
        Plan { kind, texts, ops }
    }

    fn exec(p: &Plan, c: &mut Ctx) -> R {
        if p.texts.is_empty() {
            return Ok(());
        }
        let kind = model::kind(p.kind);
        dispatch!(kind, T => world::<T>(kind, p, c))
    }
}
