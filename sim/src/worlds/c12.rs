//! C12: a service on a fixed budget. One core, a queue, honest clients and
//! hostile ones; time is the number of steps (edges of the control flow) that
//! the real calls take. No request may take more than its length allows, and
//! the queue is worked off in proportion to the bytes in it.
use crate::ctx::{show, Ctx, R};
use crate::meter::meter;
use crate::kinds::Ty;
use crate::model::{self, Style, K};
use crate::queries::{query, Facts, NQ};
use crate::rng::{fnv, Rng, FNV0};
use crate::seams::{place, Bytes};
use crate::world::{Env, Meta, Tier, World};
use crate::{dispatch, ensure};
use langtag::*;
use serde::{Deserialize, Serialize};
use std::fmt::{self, Write as _};
use std::hash::{Hash, Hasher};
use std::hint::black_box;

/// Steps any request may take, and those it may take per byte.
const FLAT: u64 = 40_000;
const RATE: u64 = 600;

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Fault {
    /// A byte is changed in transit (place, per mille of the length).
    Damaged { at: u16, to: u8 },
    /// The end is lost.
    Cut { at: u16 },
    /// Something is appended.
    Trailing(Bytes),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Req {
    /// Arrival, in thousands of steps after the one before.
    after: u16,
    /// Which text, and which other one it is compared with.
    t: u8,
    u: u8,
    op: u8,
    arg: u8,
    /// Delivered that many times more.
    again: u8,
    fault: Option<Fault>,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Load {
    kind: u8,
    /// Pieces, each repeated.
    parts: Vec<(Bytes, u16)>,
}
impl Load {
    fn text(&self) -> Vec<u8> {
        let mut o = vec![];
        for (p, n) in &self.parts {
            for _ in 0..*n {
                if o.len() > 70_000 {
                    return o;
                }
                o.extend_from_slice(&p.0);
            }
        }
        o
    }
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Plan {
    loads: Vec<Load>,
    reqs: Vec<Req>,
    /// The core is slower: from request, for how many, by which factor.
    slow: Vec<(u8, u8, u8)>,
}

pub struct C12;

const NOP: u8 = 14;
const NAMES: [&str; NOP as usize] = [
    "parse", "parse as another kind", "adopt", "query", "walk", "walk with other steps", "compare", "hash", "display", "serialize",
    "deserialize", "copy", "compare text", "grandfathered",
];

#[derive(Default)]
struct Fnv(u64);
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        self.0 = fnv(self.0 ^ FNV0, b)
    }
}

struct Count(usize);
impl fmt::Write for Count {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.0 += s.len();
        Ok(())
    }
}

/// Steps through an iterator in one of several ways; gives up on one without end.
fn drain<I: Iterator>(mut i: I, cap: usize, how: u8) -> usize {
    let mut n = 0;
    match how % 6 {
        0 => {
            while i.next().is_some() && n < cap {
                n += 1;
            }
        }
        1 => {
            let step = how as usize / 6 % 5;
            while i.nth(step).is_some() && n < cap {
                n += 1;
            }
        }
        2 => n = i.take(cap).count(),
        3 => drop(black_box(i.last())),
        4 => i.for_each(|x| drop(black_box(x))),
        _ => {
            let _ = i.any(|x| {
                n += 1;
                black_box(&x);
                n > cap
            });
        }
    }
    n
}
fn drain_both<I: DoubleEndedIterator>(mut i: I, cap: usize, how: u8) -> usize {
    let mut n = 0;
    match how % 8 {
        0 => {
            while i.next_back().is_some() && n < cap {
                n += 1;
            }
        }
        1 => {
            while n < cap && if n % 2 == 0 { i.next() } else { i.next_back() }.is_some() {
                n += 1;
            }
        }
        2 => {
            let step = how as usize / 8 % 5;
            while i.nth_back(step).is_some() && n < cap {
                n += 1;
            }
        }
        3 => n = i.rev().take(cap).count(),
        4 => n = i.rfold(0, |n, x| {
            black_box(x);
            n + 1
        }),
        5 => {
            let _ = i.rfind(|x| {
                n += 1;
                black_box(x);
                n > cap
            });
        }
        _ => return drain(i, cap, how / 8),
    }
    n
}

/// Everything there is to step through in `v`, once.
fn walk(k: K, b: &[u8], how: u8) -> usize {
    let cap = b.len() + 2;
    let arg = b"abctuvz05"[how as usize % 9];
    let exts = |e: &Extensions| {
        let mut n = 0;
        match how % 3 {
            0 => {
                for x in e.iter().take(cap) {
                    n += drain(x.iter(), cap, how / 3);
                }
            }
            1 => n = drain(e.iter(), cap, how / 3),
            _ => {
                if let Ok(s) = Singleton::new(arg) {
                    n = e.get(s).is_some() as usize + drain(e.iter_extension(s), cap, how / 3);
                }
            }
        }
        n
    };
    match k {
        K::Tag => LangTag::new(b).map_or(0, |t| match how / 32 {
            0 | 1 => drain_both(t.variants().iter(), cap, how),
            2 | 3 => exts(t.extensions()),
            4 => drain(t.private_use_subtags(), cap, how),
            5 => t.language().map_or(0, |l| drain(l.extension_subtags(), cap, how)),
            6 => t.variants().first().is_some() as usize + t.variants().last().is_some() as usize,
            _ => drain_both(t.variants().iter(), cap, how) + exts(t.extensions()) + drain(t.private_use_subtags(), cap, how),
        }),
        K::Normal => NormalLangTag::new(b).map_or(0, |t| {
            drain_both(t.variants().iter(), cap, how)
                + exts(t.extensions())
                + drain(t.private_use_subtags(), cap, how)
                + t.script().is_some() as usize
                + t.region().is_some() as usize
                + drain(t.language().extension_subtags(), cap, how)
        }),
        K::PrivateUse => PrivateUse::new(b).map_or(0, |t| drain(t.iter(), cap, how)),
        K::Variants => Variants::new(b).map_or(0, |t| drain_both(t.iter(), cap, how)),
        K::Extension => Extension::new(b).map_or(0, |t| drain(t.iter(), cap, how)),
        K::Extensions => Extensions::new(b).map_or(0, exts),
        K::Language => Language::new(b).map_or(0, |t| drain(t.extension_subtags(), cap, how)),
        K::Extlang => LanguageExtension::new(b).map_or(0, |t| drain(t.iter(), cap, how)),
        _ => 0,
    }
}

/// What one request has the library do. The answer is a number that says little.
fn serve<T: Ty>(op: u8, arg: u8, k: K, a: &[u8], b: &[u8], f: Option<&Facts>) -> Result<usize, crate::ctx::V> {
    let s = std::str::from_utf8(a).unwrap_or("");
    Ok(match op {
        0 => T::parse(a).is_some() as usize + T::parse_own(s.to_owned()).is_some() as usize,
        2 => match arg % 3 {
            0 => match T::adopt_string(arg / 3, s.to_owned()) {
                Ok(o) => T::release_string(arg / 9, o).len(),
                Err(s) => s.len(),
            },
            1 => match T::adopt_bytes(arg / 3, a.to_vec()) {
                Ok(o) => T::release_bytes(arg / 9, o).len(),
                Err(s) => s.len(),
            },
            _ => T::parse_str(s).map_or_else(|s| s.len(), |o| T::otext(&o).len()),
        },
        3 => match (f, LangTag::new(a)) {
            (Some(f), Ok(t)) => {
                query(arg % NQ, arg, t, f, false)?;
                1
            }
            _ => 0,
        },
        4 => walk(k, a, 0),
        5 => walk(k, a, arg),
        6 => match (T::parse(a), T::parse(b)) {
            (Some(x), Some(y)) => match arg % 4 {
                0 => (x == y) as usize,
                1 => x.cmp(y) as usize,
                2 => x.partial_cmp(y).map_or(3, |o| o as usize),
                _ => (y == x) as usize + y.cmp(x) as usize,
            },
            _ => 0,
        },
        7 => T::parse(a).map_or(0, |x| {
            let mut h = Fnv::default();
            x.hash(&mut h);
            h.finish() as usize & 1
        }),
        8 => {
            let mut w = Count(0);
            let _ = match (T::parse(a), arg % 3) {
                (Some(x), 0) => write!(w, "{x}"),
                (Some(x), 1) => write!(w, "{x:?}"),
                (Some(x), _) => write!(w, "{x:>40}"),
                (None, n) => T::error(s, &mut |e, d| {
                    let _ = if n == 0 { write!(w, "{d:?}") } else { write!(w, "{e}") };
                    Ok(())
                })
                .map_err(|_| fmt::Error),
            };
            w.0
        }
        9 => T::parse(a).map_or(0, |x| serde_json::to_string(x).map_or(0, |s| s.len())),
        10 => {
            use serde::de::value::{BorrowedStrDeserializer as B, StrDeserializer as S};
            use serde::de::IntoDeserializer;
            match arg % 3 {
                0 => T::de_borrowed(B::<serde::de::value::Error>::new(s)).map_or(0, |v| T::text(v).len()),
                1 => {
                    let d: S<serde::de::value::Error> = s.into_deserializer();
                    T::O::deserialize(d).map_or(0, |v| T::otext(&v).len())
                }
                _ => {
                    let d: serde::de::value::StringDeserializer<serde::de::value::Error> = s.to_owned().into_deserializer();
                    T::O::deserialize(d).map_or(0, |v| T::otext(&v).len())
                }
            }
        }
        11 => T::parse(a).map_or(0, |x| match arg % 3 {
            0 => T::otext(&x.to_owned()).len(),
            1 => T::otext(&x.to_owned().clone()).len(),
            _ => x.to_string().len(),
        }),
        12 => match (T::parse(a), std::str::from_utf8(b)) {
            (Some(x), Ok(t)) => match arg % 3 {
                0 => (*x == *t) as usize,
                1 => x.partial_cmp(t).map_or(3, |o| o as usize),
                _ => (*x == *t.as_bytes()) as usize,
            },
            _ => 0,
        },
        _ => GrandfatheredLangTag::new(s).is_ok() as usize + GrandfatheredLangTag::try_from(a).is_ok() as usize,
    })
}

fn unit(r: &mut Rng, st: &Style, k: K) -> String {
    let mut o = String::new();
    for i in 0..if r.chance(1, 2) { 1 } else { r.range(1, 6) } {
        if i > 0 {
            o.push('-');
        }
        o.push_str(&st.text(r, k));
    }
    o
}

fn load(r: &mut Rng, env: Env) -> Load {
    let st = Style::new(r);
    let k = match r.below(20) {
        0..=9 => K::Tag,
        10 | 11 => K::Normal,
        12 | 13 => K::Variants,
        14 | 15 => K::Extensions,
        16 => K::Extension,
        17 | 18 => K::PrivateUse,
        _ => *r.pick(&model::KINDS),
    };
    let i = model::KINDS.iter().position(|x| *x == k).unwrap_or(0) as u8;
    let mut parts: Vec<(Bytes, u16)> = vec![];
    // Long and of no use: what has to be refused takes no longer, whatever it was sent as.
    if r.chance(1, 8) {
        let n = *r.pick(&[300, 1000, 1000, 4000, 16_000]);
        let unit: Vec<u8> = match r.below(12) {
            0 => b"-".to_vec(),
            1 => b"a-".to_vec(),
            2 => b"x-".to_vec(),
            3 => b"abcdefgh".to_vec(),
            4 => b"-1".to_vec(),
            5 => b"en-Latn-DE-".to_vec(),
            6 => b"u-".to_vec(),
            7 => (0..r.range(1, 8)).map(|_| r.u8()).collect(),
            8 => (0..r.range(2, 12)).map(|_| *r.pick(b"-aX9")).collect(),
            9 => format!("{}-", r.pick(&model::IRREGULAR)).into_bytes(),
            10 => "é".as_bytes().to_vec(),
            _ => unit(r, &st, k).into_bytes(),
        };
        let n = (n / unit.len().max(1)).max(2) as u16;
        let i = r.below(model::KINDS.len()) as u8;
        if r.chance(1, 2) {
            parts.push((st.text(r, k).into(), 1));
        }
        parts.push((Bytes(unit), n));
        if r.chance(1, 3) {
            parts.push((st.text(r, k).into(), 1));
        }
        return Load { kind: if r.chance(1, 2) { i } else { model::KINDS.iter().position(|x| *x == k).unwrap_or(0) as u8 }, parts };
    }
    let honest = r.chance(1, 4);
    if honest || !matches!(k, K::Tag | K::Normal | K::Variants | K::Extensions | K::Extension | K::PrivateUse) {
        return Load { kind: i, parts: vec![(st.text(r, k).into(), 1)] };
    }
    let target = match r.below(if env.tier == Tier::Thorough { 20 } else { 60 }) {
        0 => 65_000,
        1..=4 => 25_000,
        5..=14 => 9000,
        15..=29 => 3500,
        _ => 1200,
    };
    let mut seg = |r: &mut Rng, head: &str, k: K, dash: bool, share: usize| {
        if !head.is_empty() {
            parts.push((head.to_owned().into(), 1));
        }
        let mut u = unit(r, &st, k);
        if u.is_empty() {
            u.push_str("abcde");
        }
        let n = (target / share / (u.len() + 1)).max(2) as u16;
        if dash || !head.is_empty() {
            parts.push((format!("-{u}").into(), n));
        } else {
            parts.push((u.clone().into(), 1));
            parts.push((format!("-{u}").into(), n - 1));
        }
    };
    match k {
        K::Variants => seg(r, "", K::Variant, false, 1),
        K::PrivateUse => seg(r, "x", K::PrivateUseSubtag, false, 1),
        K::Extension => seg(r, &(*r.clone().pick(b"abtu0") as char).to_string(), K::ExtensionSubtag, false, 1),
        K::Extensions => seg(r, "", K::Extension, false, 1),
        _ => {
            let mut head = st.text(r, K::Language);
            if r.chance(1, 8) && k == K::Tag {
                seg(r, "x", K::PrivateUseSubtag, false, 1);
            } else {
                if r.chance(1, 3) {
                    head = format!("{head}-{}", st.text(r, K::Script));
                }
                if r.chance(1, 3) {
                    head = format!("{head}-{}", st.text(r, K::Region));
                }
                let pick = r.below(8);
                let n = if pick == 7 { 3 } else { 1 };
                if pick < 3 || pick == 7 {
                    seg(r, &head, K::Variant, true, n);
                    head.clear();
                }
                if pick == 3 || pick == 4 || pick == 7 {
                    seg(r, &head, K::Extension, true, n);
                    head.clear();
                }
                if pick == 5 {
                    seg(r, &format!("{head}-u"), K::ExtensionSubtag, true, 1);
                }
                if pick == 6 || pick == 7 {
                    seg(r, &format!("{head}{}x", if head.is_empty() && pick == 7 { "-" } else if head.is_empty() { "" } else { "-" }), K::PrivateUseSubtag, true, n);
                }
            }
        }
    }
    Load { kind: i, parts }
}

impl World for C12 {
    const META: Meta = Meta {
        id: "C12",
        quick: 60_000,
        thorough: 800_000,
        batch: 250,
        threads: false,
        nests: false,
        survey: 0,
        rule: "one run = a queue of up to 10 requests on up to 4 texts, honest and hostile, up to 65 000 bytes, served by one simulated core \
               whose clock counts the steps taken; a run is nontrivial if a long text was served",
        states: "operation, kind, length class and well-formedness of the text, cost class per byte",
        interleavings: "order and waiting of the requests in the queue (hash of the sequence of operations and finishing times)",
        real: &["parsing, querying, stepping, comparing, hashing, formatting, copying and serde code of all types", "serde_json, core::fmt"],
        stub: &["service, queue and clients", "clock (edges of the control flow taken in this program, the library included; not those inside std and libc as shipped)"],
        assumptions: &[
            "a step is one edge of the control flow; what libc and the precompiled part of std do (copying, allocation, UTF-8 validation) is not counted",
            "proportional means at most 40 000 steps and 600 more for every byte; the shipped code takes 200 a byte at most",
        ],
    };
    type Plan = Plan;

    fn gen(r: &mut Rng, env: Env) -> Plan {
        let loads: Vec<Load> = (0..r.range(1, 4)).map(|_| load(r, env)).collect();
        let reqs = (0..r.range(1, 10))
            .map(|_| Req {
                after: if r.chance(1, 2) { 0 } else { r.below(2000) as u16 },
                t: r.u8(),
                u: r.u8(),
                op: match r.below(20) {
                    0..=5 => r.range(4, 5) as u8,
                    6..=8 => 3,
                    _ => r.below(NOP as usize) as u8,
                },
                arg: r.u8(),
                again: if r.chance(1, 12) { 1 } else { 0 },
                fault: match r.below(10) {
                    0 => Some(Fault::Damaged { at: if r.chance(1, 2) { 999 } else { r.below(1000) as u16 }, to: *r.pick(b"-a0x \xc3_") }),
                    1 => Some(Fault::Cut { at: r.below(1000) as u16 }),
                    2 => Some(Fault::Trailing(Bytes(r.pick(&[&b"-"[..], b"-a", b"-x", b"-abcdefghi", b"\xff", b"-x-1", b"-1"]).to_vec()))),
                    _ => None,
                },
            })
            .collect();
        let slow = if r.chance(1, 4) { vec![(r.below(8) as u8, r.below(6) as u8, r.range(2, 50) as u8)] } else { vec![] };
        Plan { loads, reqs, slow }
    }

    fn exec(p: &Plan, c: &mut Ctx) -> R {
        if p.loads.is_empty() {
            return Ok(());
        }
        let texts: Vec<(K, Vec<u8>)> = p.loads.iter().map(|l| (model::kind(l.kind), l.text())).collect();
        let (mut clock, mut arrival) = (0u64, 0u64);
        // Work offered and not done yet, by the measure of its length.
        let mut owed = 0u64;
        for (i, q) in p.reqs.iter().enumerate() {
            arrival += q.after as u64 * 1000;
            let (k, t) = &texts[q.t as usize % texts.len()];
            let mut t = t.clone();
            match &q.fault {
                None => {}
                Some(Fault::Damaged { at, to }) => {
                    c.fault("request damaged in transit");
                    let n = t.len();
                    if let Some(b) = t.get_mut(n.saturating_sub(1) * *at as usize / 999) {
                        *b = *to;
                    }
                }
                Some(Fault::Cut { at }) => {
                    c.fault("end of a request lost");
                    t.truncate(t.len() * *at as usize / 1000);
                }
                Some(Fault::Trailing(b)) => {
                    c.fault("something appended to a request");
                    t.extend_from_slice(&b.0);
                }
            }
            let t = &t;
            let op = q.op % NOP;
            // What it is compared with: itself in another spelling, but for its end, or another text.
            let other = match q.u % 4 {
                0 => t.to_ascii_uppercase(),
                1 => {
                    let mut o = t.to_ascii_lowercase();
                    if let Some(b) = o.last_mut() {
                        *b = if *b == b'a' { b'b' } else { b'a' };
                    }
                    o
                }
                2 => t[..t.len() - t.len() / 40].to_vec(),
                _ => texts[q.u as usize / 4 % texts.len()].1.clone(),
            };
            let (t, other) = (place(&[t]), place(&[&other]));
            let k = if op == 1 { model::kind(q.arg % 15) } else { *k };
            let long = t.len() > 500;
            let facts = (op == 3).then(|| Facts::new(t));
            let facts = facts.as_ref().filter(|_| model::accepts(K::Tag, t));
            if long {
                c.nontrivial = true;
                c.fault("hostile long request");
            }
            for _ in 0..=q.again.min(3) {
                let slow = p.slow.iter().filter(|s| (s.0 as usize..s.0 as usize + s.1 as usize).contains(&i)).map(|s| s.2 as u64).max().unwrap_or(1).max(1);
                if slow > 1 {
                    c.fault("core slowed down");
                }
                let may = FLAT + RATE * (t.len() + if matches!(op, 6 | 12) { other.len() } else { 0 }) as u64;
                c.ops += 1;
                c.checks += 1;
                let (got, cost) = meter(may * 1000, || dispatch!(k, T => serve::<T>(if op == 1 { 0 } else { op }, q.arg, k, t, other, facts)));
                let got = got?;
                    c.ev(NAMES[op as usize], t);
                c.ev("answer, steps", &[&(got as u64).to_le_bytes()[..], &cost.to_le_bytes()].concat());
                ensure!(
                    cost < may,
                    "cost-out-of-proportion",
                    "{} (argument {}) of {:?} of {} bytes took over {} steps, {} a byte: {}",
                    NAMES[op as usize], q.arg, k, t.len(), may, may / t.len().max(1) as u64, show(t)
                );
                let per = cost.saturating_sub(2000) * RATE / (may - FLAT + RATE);
                if long {
                    c.probe(match per {
                        0..=14 => "long request: under 15 steps a byte",
                        15..=29 => "long request: 15 to 29 steps a byte",
                        30..=59 => "long request: 30 to 59 steps a byte",
                        60..=119 => "long request: 60 to 119 steps a byte",
                        _ => "long request: 120 or more steps a byte",
                    });
                }
                c.state(fnv(FNV0, &[op, q.arg % 8, k as u8, t.len().ilog2_or(0), model::accepts(k, t) as u8, per.min(255) as u8]));
                // The queue.
                if arrival >= clock {
                    owed = 0;
                }
                owed += may * slow;
                let start = clock.max(arrival);
                if start > arrival {
                    c.probe("request waited");
                }
                clock = start + cost * slow;
                c.sched = fnv(c.sched, &clock.to_le_bytes());
                ensure!(
                    clock - arrival <= owed,
                    "queue-not-worked-off",
                    "a request for {} waited {} steps, with {owed} allowed for all that was queued",
                    NAMES[op as usize], clock - arrival
                );
            }
        }
        c.sim_ms += clock / 1_000_000;
        Ok(())
    }
}

trait Log2 {
    fn ilog2_or(self, d: u8) -> u8;
}
impl Log2 for usize {
    fn ilog2_or(self, d: u8) -> u8 {
        self.checked_ilog2().map_or(d, |n| n as u8)
    }
}
