//! C08: borrowed operations while the allocator refuses, at moments that may
//! fall between operations or inside one.
use crate::alloc;
use crate::ctx::{show, Ctx, R};
use crate::kinds::Ty;
use crate::model::{self, Style, K};
use crate::queries::{query, Facts, NQ};
use crate::rng::{fnv, Rng, FNV0};
use crate::sched::nested;
use crate::seams::{place, Bytes};
use crate::world::{Meta, Env, World};
use crate::{dispatch, ensure, fail};
use langtag::*;
use serde::de::value::{BorrowedStrDeserializer, Error as DeError};
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::fmt::{self, Write as _};
use std::hash::{Hash, Hasher};

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Op {
    /// Every borrowed way to parse text `t`, as its own kind or another.
    Parse { t: u8, kind: Option<u8> },
    /// A query, on a text that is a tag.
    Query { t: u8, q: u8, arg: u8 },
    /// Walk the lists of a component parsed on its own.
    Walk { t: u8, arg: u8 },
    /// Equality and order of two texts of one kind, and against plain text.
    Compare { t: u8, u: u8 },
    Hash { t: u8, u: u8 },
    /// Display, Debug, padded and serialized text into a fixed buffer.
    Format { t: u8, how: u8 },
    Deserialize { t: u8 },
    Grandfathered { t: u8 },
    Singleton { b: u8 },
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Plan {
    /// Kind and text.
    texts: Vec<(u8, Bytes)>,
    /// What surrounds each text in memory.
    before: Bytes,
    after: Bytes,
    ops: Vec<Op>,
    /// Moments (operation starts and hook points, counted through the run)
    /// at which the allocator starts to refuse, and for how many moments.
    windows: Vec<(u16, u16)>,
}

pub struct C08;

const WRONG: &str = "wrong-answer";
const PLACE: &str = "component-not-in-caller-text";

/// One text, where it lies, and what the model says about it.
struct Text {
    kind: K,
    arena: &'static [u8],
    at: usize,
    len: usize,
    facts: Option<Facts>,
    items: Items,
    accepts: [bool; 15],
    gf: bool,
    debug: String,
}
impl Text {
    fn b(&self) -> &[u8] {
        &self.arena[self.at..self.at + self.len]
    }
    fn s(&self) -> &str {
        std::str::from_utf8(self.b()).unwrap_or("")
    }
    fn same(&self, got: &[u8], what: &str) -> R {
        ensure!(got == self.b(), WRONG, "{what}: {} became {}", show(self.b()), show(got));
        ensure!(
            got.is_empty() || got.as_ptr() == self.b().as_ptr(),
            PLACE,
            "{what}: the value parsed from {} does not lie in the caller's text",
            show(self.b())
        );
        Ok(())
    }
}

/// Lists of a component parsed on its own.
#[derive(Default)]
struct Items {
    flat: Vec<model::Span>,
    exts: Vec<model::Ext>,
    lang: Option<model::Decomp>,
}

fn items(k: K, b: &[u8]) -> Items {
    let mut i = Items::default();
    match k {
        K::Variants | K::Extlang => i.flat = model::list(b),
        K::PrivateUse => i.flat = model::private_use(b).unwrap_or_default(),
        K::Extension | K::Extensions => i.exts = model::extensions(b).unwrap_or_default(),
        K::Language => i.lang = model::normal(b),
        _ => {}
    }
    i
}

fn list<'x>(t: &Text, what: &str, got: impl Iterator<Item = &'x [u8]>, want: &[model::Span], back: bool) -> R {
    let mut n = 0;
    for g in got {
        let k = if back { want.len().wrapping_sub(1 + n) } else { n };
        let Some(w) = want.get(k) else {
            fail!(WRONG, "{what} of {}: surplus item {}", show(t.b()), show(g))
        };
        at(t, what, g, *w)?;
        n += 1;
    }
    ensure!(n == want.len(), WRONG, "{what} of {}: {n} items instead of {}", show(t.b()), want.len());
    Ok(())
}

fn at(t: &Text, what: &str, got: &[u8], w: model::Span) -> R {
    let want = &t.b()[w.0..w.1];
    ensure!(got == want, WRONG, "{what} of {}: {} instead of {}", show(t.b()), show(got), show(want));
    ensure!(
        got.is_empty() || got.as_ptr() == want.as_ptr(),
        PLACE,
        "{what} of {}: {} does not lie at offset {} of the caller's text",
        show(t.b()),
        show(got),
        w.0
    );
    Ok(())
}

fn opt(t: &Text, what: &str, got: Option<&[u8]>, w: Option<model::Span>) -> R {
    match (got, w) {
        (Some(g), Some(w)) => at(t, what, g, w),
        (None, None) => Ok(()),
        (g, w) => fail!(WRONG, "{what} of {}: {:?} instead of {:?}", show(t.b()), g.map(show), w),
    }
}

fn ext(t: &Text, e: &Extension, w: &model::Ext) -> R {
    at(t, "extension", e.as_bytes(), w.span)?;
    ensure!(e.singleton().unwrap() == w.singleton, WRONG, "singleton of {}", show(t.b()));
    list(t, "extension subtags", e.iter().map(|x| x.as_bytes()), &w.subtags, false)
}

fn walk(t: &Text, arg: u8) -> R {
    let b = t.b();
    macro_rules! parse {
        ($T:ident) => {
            match $T::new(b) {
                Ok(v) => v,
                Err(_) => fail!(WRONG, "{} refused {}", stringify!($T), show(b)),
            }
        };
    }
    match t.kind {
        K::Variants => {
            let v = parse!(Variants);
            let f = &t.items.flat;
            opt(t, "first", v.first().map(|x| x.as_bytes()), f.first().copied())?;
            opt(t, "last", v.last().map(|x| x.as_bytes()), f.last().copied())?;
            list(t, "variants", v.iter().map(|x| x.as_bytes()), f, false)?;
            list(t, "variants reversed", v.iter().rev().map(|x| x.as_bytes()), f, true)
        }
        K::Extlang => {
            list(t, "extlang subtags", parse!(LanguageExtension).iter().map(|x| x.as_bytes()), &t.items.flat, false)
        }
        K::PrivateUse => {
            list(t, "private use subtags", parse!(PrivateUse).iter().map(|x| x.as_bytes()), &t.items.flat, false)
        }
        K::Extension => {
            let e = parse!(Extension);
            match t.items.exts.first() {
                Some(w) => ext(t, e, w),
                None => Ok(()),
            }
        }
        K::Extensions => {
            let e = parse!(Extensions);
            let x = &t.items.exts;
            let mut it = e.iter();
            for w in x {
                match it.next() {
                    Some(g) => ext(t, g, w)?,
                    None => fail!(WRONG, "extensions of {} end early", show(b)),
                }
            }
            ensure!(it.next().is_none(), WRONG, "extensions of {} do not end", show(b));
            let c = match x.get(arg as usize % (x.len() + 1)) {
                Some(w) => w.singleton,
                None => b"0189abyzABYZ"[arg as usize % 12],
            };
            let c = if arg & 64 != 0 && c.is_ascii_alphabetic() { c ^ 32 } else { c };
            let want = x.iter().find(|w| w.singleton.eq_ignore_ascii_case(&c));
            let Ok(s) = Singleton::new(c) else { fail!(WRONG, "Singleton::new({c}) refused") };
            opt(t, "get", e.get(s).map(|x| x.as_bytes()), want.map(|w| w.span))?;
            let subs = want.map(|w| &w.subtags[..]).unwrap_or(&[]);
            list(t, "iter_extension", e.iter_extension(s).map(|x| x.as_bytes()), subs, false)
        }
        K::Language => {
            let l = parse!(Language);
            let Some(d) = &t.items.lang else { return Ok(()) };
            at(t, "primary", l.primary().as_bytes(), d.primary)?;
            opt(t, "extension", l.extension().map(|x| x.as_bytes()), d.extlang)?;
            list(t, "extension subtags", l.extension_subtags().map(|x| x.as_bytes()), &d.extlangs, false)
        }
        K::Tag => {
            if let Some(f) = &t.facts {
                let tag = parse!(LangTag);
                query(19, arg, tag, f, true)?;
            }
            Ok(())
        }
        _ => Ok(()),
    }
}

fn parse<T: Ty>(t: &Text, expect: bool) -> R {
    for v in T::borrowed_routes(t.s()) {
        match v {
            Some(v) if expect => t.same(T::text(v).as_bytes(), "parsing")?,
            None if !expect => {}
            _ => fail!(WRONG, "verdict on {} (expected accepted: {expect})", show(t.b())),
        }
    }
    Ok(())
}

struct H(std::collections::hash_map::DefaultHasher, u64);
impl Hasher for H {
    fn finish(&self) -> u64 {
        self.0.finish() ^ self.1
    }
    fn write(&mut self, b: &[u8]) {
        self.1 = fnv(self.1, b);
        self.0.write(b)
    }
}
fn hash<T: Hash + ?Sized>(v: &T) -> u64 {
    let mut h = H(Default::default(), FNV0);
    v.hash(&mut h);
    h.finish()
}

/// Verdicts of comparing a with b, as a list of small numbers.
fn verdicts<T: Ty>(a: &T::B, b: &T::B, bt: &str) -> [i8; 8] {
    let o = |x: Option<std::cmp::Ordering>| x.map(|o| o as i8).unwrap_or(9);
    [
        (*a == *b) as i8,
        o(Some(a.cmp(b))),
        o(a.partial_cmp(b)),
        o(Some(b.cmp(a))),
        (*a == *bt) as i8,
        (*a == *bt.as_bytes()) as i8,
        o(a.partial_cmp(bt)),
        o(a.partial_cmp(bt.as_bytes())),
    ]
}

fn compare<T: Ty>(a: &Text, b: &Text, want: &[i8; 8]) -> R {
    let (Some(x), Some(y)) = (T::parse(a.b()), T::parse(b.b())) else {
        fail!(WRONG, "refused {} or {}", show(a.b()), show(b.b()))
    };
    let got = verdicts::<T>(x, y, b.s());
    ensure!(got == *want, WRONG, "comparing {} with {}: {got:?} instead of {want:?}", show(a.b()), show(b.b()));
    Ok(())
}
/// What the verdicts must be: fixed where letter case settles them, otherwise
/// what one comparison made with memory to spare says.
fn compare_ref<T: Ty>(a: &Text, b: &Text) -> [i8; 8] {
    if a.b().eq_ignore_ascii_case(b.b()) {
        return [1, 0, 0, 0, 1, 1, 0, 0];
    }
    match (T::parse(a.b()), T::parse(b.b())) {
        (Some(x), Some(y)) => {
            let o = x.cmp(y) as i8;
            [0, o, o, -o, 0, 0, o, o]
        }
        _ => [0; 8],
    }
}

fn hashes<T: Ty>(a: &Text, b: &Text) -> R {
    let (Some(x), Some(y)) = (T::parse(a.b()), T::parse(b.b())) else {
        fail!(WRONG, "refused {} or {}", show(a.b()), show(b.b()))
    };
    let (p, q) = (hash(x), hash(y));
    ensure!(
        p == q || !a.b().eq_ignore_ascii_case(b.b()),
        WRONG,
        "{} and {} hash differently",
        show(a.b()),
        show(b.b())
    );
    ensure!(p == hash(x), WRONG, "{} hashes differently a second time", show(a.b()));
    Ok(())
}

struct Buf {
    b: [u8; 1024],
    n: usize,
}
impl fmt::Write for Buf {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let end = self.n + s.len();
        if end > self.b.len() {
            return Err(fmt::Error);
        }
        self.b[self.n..end].copy_from_slice(s.as_bytes());
        self.n = end;
        Ok(())
    }
}
struct Ser<'a, T: ?Sized>(&'a T);
impl<T: Serialize + ?Sized> fmt::Display for Ser<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        self.0.serialize(f)
    }
}

fn format<T: Ty>(t: &Text, how: u8) -> R {
    let Some(v) = T::parse(t.b()) else { fail!(WRONG, "refused {}", show(t.b())) };
    let mut w = Buf { b: [0; 1024], n: 0 };
    let (r, want) = match how % 4 {
        0 => (write!(w, "{v}"), t.b()),
        1 => (write!(w, "{v:?}"), t.debug.as_bytes()),
        2 => (write!(w, "{v:>4}"), t.b()),
        _ => (write!(w, "{}", Ser(v)), t.b()),
    };
    let got = &w.b[..w.n];
    if want.len() > 1000 {
        return Ok(());
    }
    let fits = how % 4 != 2 || t.len >= 4;
    ensure!(r.is_ok(), WRONG, "formatting {} failed", show(t.b()));
    ensure!(got == want || (!fits && got.ends_with(want)), WRONG, "formatting {} gave {}", show(t.b()), show(got));
    Ok(())
}

fn deserialize<T: Ty>(t: &Text) -> R {
    match T::de_borrowed(BorrowedStrDeserializer::<DeError>::new(t.s())) {
        Ok(v) => t.same(T::text(v).as_bytes(), "deserializing"),
        Err(_) => fail!(WRONG, "deserializing {} refused", show(t.b())),
    }
}

fn grandfathered(t: &Text) -> R {
    for g in [GrandfatheredLangTag::try_from(t.b()).ok(), GrandfatheredLangTag::new(t.s()).ok()] {
        match g {
            None => ensure!(!t.gf, WRONG, "grandfathered {} refused", show(t.b())),
            Some(g) => {
                ensure!(t.gf && g.as_bytes().eq_ignore_ascii_case(t.b()), WRONG, "{} taken for {}", show(t.b()), g.as_str());
                let mut w = Buf { b: [0; 1024], n: 0 };
                let r = write!(w, "{g}");
                ensure!(r.is_ok() && &w.b[..w.n] == g.as_bytes(), WRONG, "displaying {}", g.as_str());
                let _ = g.language();
                ensure!(g == g && g.cmp(&g).is_eq(), WRONG, "{} differs from itself", g.as_str());
                hash(&g);
            }
        }
    }
    Ok(())
}

fn singleton(b: u8) -> R {
    let ok = model::is_singleton(b);
    let one = [b];
    for s in [
        Singleton::new(b).ok(),
        Singleton::try_from(b).ok(),
        Singleton::try_from(b as char).ok(),
        std::str::from_utf8(&one).ok().and_then(|s| Singleton::from_string(s).ok()),
    ] {
        match s {
            None => ensure!(!ok, WRONG, "singleton {b} refused"),
            Some(s) => {
                ensure!(ok && s.unwrap() == b, WRONG, "singleton {b} became {}", s.unwrap());
                let mut w = Buf { b: [0; 1024], n: 0 };
                let r = write!(w, "{s}");
                ensure!(r.is_ok() && w.b[..w.n] == one, WRONG, "displaying singleton {b}");
                ensure!(s == s && s.cmp(&s).is_eq(), WRONG, "singleton {b} differs from itself");
                hash(&s);
            }
        }
    }
    Ok(())
}

enum Ready<'a> {
    Parse(&'a Text, u8),
    Query(&'a Text, &'a Facts, u8, u8),
    Walk(&'a Text, u8),
    Compare(&'a Text, &'a Text, [i8; 8]),
    Hash(&'a Text, &'a Text),
    Format(&'a Text, u8),
    Deserialize(&'a Text),
    Grandfathered(&'a Text),
    Singleton(u8),
}

/// Asks for no memory unless the library does or something is wrong.
fn perform(r: &Ready) -> R {
    match r {
        Ready::Parse(t, k) => dispatch!(model::kind(*k), T => parse::<T>(t, t.accepts[*k as usize % 15])),
        Ready::Query(t, f, q, arg) => match LangTag::new(t.b()) {
            Ok(tag) => query(*q, *arg, tag, f, true),
            Err(_) => fail!(WRONG, "refused {}", show(t.b())),
        },
        Ready::Walk(t, arg) => walk(t, *arg),
        Ready::Compare(a, b, want) => dispatch!(a.kind, T => compare::<T>(a, b, want)),
        Ready::Hash(a, b) => dispatch!(a.kind, T => hashes::<T>(a, b)),
        Ready::Format(t, how) => dispatch!(t.kind, T => format::<T>(t, *how)),
        Ready::Deserialize(t) => dispatch!(t.kind, T => deserialize::<T>(t)),
        Ready::Grandfathered(t) => grandfathered(t),
        Ready::Singleton(b) => singleton(*b),
    }
}

fn debug_of<T: Ty>(b: &[u8]) -> String {
    T::parse(b).map(|v| format!("{v:?}")).unwrap_or_default()
}

impl World for C08 {
    const META: Meta = Meta {
        id: "C08",
        quick: 2_000_000,
        thorough: 8_000_000,
        batch: 5_000,
        threads: false,
        nests: false,
        survey: 0,
        rule: "one run = up to 6 texts lying inside larger buffers and up to 16 borrowed operations on them, with up to 3 windows of \
               refusal whose ends fall between operations or at a hook point inside one; non-trivial: at least one operation ran \
               while the allocator refused; distinct by the hash of the full event log",
        states: "distinct (operation and variant, refusal began before / inside the operation, shape of the text)",
        interleavings: "distinct event logs (operation order and placement of refusal)",
        real: &["every borrowed operation of all types, borrowed deserialization", "caller buffers and addresses"],
        stub: &["global allocator (counts and serves what it would refuse, so that the run can report it)", "formatting sink (fixed buffer)"],
        assumptions: &["moments inside an operation at which refusal can start are the hook points; a request made in an operation with refusal from its start is seen wherever it is made"],
    };
    type Plan = Plan;

    fn gen(r: &mut Rng, env: Env) -> Plan {
        let st = Style::new(r);
        let mut texts: Vec<(u8, Bytes)> = vec![];
        for _ in 0..r.range(1, 6) {
            let i = if r.chance(1, 2) { 0 } else { r.u8() % 15 };
            let k = model::kind(i);
            let (i, t) = match r.below(10) {
                0 | 1 if !texts.is_empty() => {
                    let (i, t) = r.pick(&texts).clone();
                    (i, model::respell(&String::from_utf8_lossy(&t.0), r.u64()))
                }
                2 if !texts.is_empty() => {
                    let (i, t) = r.pick(&texts).clone();
                    let t = String::from_utf8_lossy(&t.0).into_owned();
                    (i, st.near(r, model::kind(i), &t))
                }
                3 if r.chance(1, 4) => {
                    let max = Style::reach(r, env.tier);
                    (i, st.long_text(r, k, max))
                }
                _ => (i, st.text(r, k)),
            };
            texts.push((i, Bytes::from(t)));
        }
        let around = |r: &mut Rng| match r.below(4) {
            0 => vec![],
            1 => st.text(r, K::Tag).into_bytes(),
            2 => model::wild(r),
            _ => (0..r.below(5)).map(|_| *r.pick(b"aZ09-x-")).collect(),
        };
        let (before, after) = (Bytes(around(r)), Bytes(around(r)));
        let n = r.range(1, 16);
        let ops = (0..n)
            .map(|_| {
                let (t, u) = (r.u8() % 6, r.u8() % 6);
                match r.below(16) {
                    0 | 1 => Op::Parse { t, kind: r.chance(1, 2).then(|| r.u8() % 15) },
                    2..=5 => Op::Query { t, q: r.u8() % NQ, arg: r.u8() },
                    6..=8 => Op::Walk { t, arg: r.u8() },
                    9 | 10 => Op::Compare { t, u },
                    11 => Op::Hash { t, u },
                    12 => Op::Format { t, how: r.u8() % 4 },
                    13 => Op::Deserialize { t },
                    14 => Op::Grandfathered { t },
                    _ => Op::Singleton { b: if r.chance(3, 4) { *r.pick(b"0189abxyzABXYZ") } else { r.u8() } },
                }
            })
            .collect();
        let windows = (0..r.range(1, 3))
            .map(|_| {
                let span = if r.chance(1, 2) { n } else { n * 20 };
                let a = if r.chance(1, 3) { 0 } else { r.below(span) as u16 };
                (a, if r.chance(1, 2) { u16::MAX } else { r.below(60) as u16 })
            })
            .collect();
        Plan { texts, before, after, ops, windows }
    }

    fn exec(p: &Plan, c: &mut Ctx) -> R {
        let texts: Vec<Text> = p
            .texts
            .iter()
            .filter(|(k, t)| model::accepts(model::kind(*k), &t.0))
            .map(|(k, t)| {
                let kind = model::kind(*k);
                let arena = place(&[&p.before.0, &t.0, &p.after.0]);
                let mut accepts = [false; 15];
                for (i, a) in accepts.iter_mut().enumerate() {
                    *a = model::accepts(model::kind(i as u8), &t.0);
                }
                Text {
                    kind,
                    at: p.before.0.len(),
                    len: t.0.len(),
                    arena,
                    facts: accepts[0].then(|| Facts::new(&t.0)),
                    items: items(kind, &t.0),
                    gf: model::grandfathered(&t.0).is_some(),
                    accepts,
                    debug: dispatch!(kind, T => debug_of::<T>(&t.0)),
                }
            })
            .collect();
        if texts.is_empty() {
            return Ok(());
        }
        let pick = |t: &u8| &texts[*t as usize % texts.len()];
        let moment = Cell::new(0u32);
        let refusing = || {
            let m = moment.get();
            p.windows.iter().any(|(a, n)| m >= *a as u32 && m - *a as u32 <= *n as u32)
        };
        for op in &p.ops {
            c.sim_ms += 1;
            c.ops += 1;
            let ready = match op {
                Op::Parse { t, kind } => {
                    let t = pick(t);
                    let k = match kind {
                        Some(k) => *k % 15,
                        None => model::KINDS.iter().position(|k| *k == t.kind).unwrap_or(0) as u8,
                    };
                    Ready::Parse(t, k)
                }
                Op::Query { t, q, arg } => {
                    let t = pick(t);
                    match &t.facts {
                        Some(f) => Ready::Query(t, f, *q, *arg),
                        None => Ready::Walk(t, *arg),
                    }
                }
                Op::Walk { t, arg } => Ready::Walk(pick(t), *arg),
                Op::Compare { t, u } | Op::Hash { t, u } => {
                    let a = pick(t);
                    let mut b = pick(u);
                    if a.kind != b.kind {
                        b = a;
                    }
                    if matches!(op, Op::Hash { .. }) {
                        Ready::Hash(a, b)
                    } else {
                        Ready::Compare(a, b, dispatch!(a.kind, T => compare_ref::<T>(a, b)))
                    }
                }
                Op::Format { t, how } => Ready::Format(pick(t), *how),
                Op::Deserialize { t } => Ready::Deserialize(pick(t)),
                Op::Grandfathered { t } => Ready::Grandfathered(pick(t)),
                Op::Singleton { b } => Ready::Singleton(*b),
            };
            let first = refusing();
            let hit = Cell::new(first);
            let start = moment.get();
            alloc::refused();
            let mut g = |_: &'static str| {
                moment.set(moment.get() + 1);
                let on = refusing();
                if on {
                    hit.set(true);
                }
                alloc::deny(on);
            };
            struct Off;
            impl Drop for Off {
                fn drop(&mut self) {
                    alloc::deny(false);
                }
            }
            let _off = Off;
            let r = nested(&mut g, || {
                alloc::deny(first);
                let r = perform(&ready);
                alloc::deny(false);
                r
            });
            let n = alloc::refused();
            let points = moment.get() - start;
            moment.set(moment.get() + 1);
            c.checks += 1;
            if hit.get() {
                c.fault(if first { "allocator refusing from before an operation" } else { "allocator starts refusing inside an operation" });
                c.nontrivial = true;
            }
            let name = match op {
                Op::Parse { .. } => 0u8,
                Op::Query { q, .. } => 20 + q % NQ,
                Op::Walk { .. } => 1,
                Op::Compare { .. } => 2,
                Op::Hash { .. } => 3,
                Op::Format { how, .. } => 4 + how % 4,
                Op::Deserialize { .. } => 8,
                Op::Grandfathered { .. } => 9,
                Op::Singleton { .. } => 10,
            };
            let on = match &ready {
                Ready::Singleton(b) => vec![*b],
                Ready::Parse(t, _) | Ready::Query(t, ..) | Ready::Walk(t, _) | Ready::Compare(t, ..) | Ready::Hash(t, _)
                | Ready::Format(t, _) | Ready::Deserialize(t) | Ready::Grandfathered(t) => t.b().to_vec(),
            };
            c.ev("op", &[name, first as u8, hit.get() as u8]);
            c.ev("on", &on);
            c.ev("points", &points.to_le_bytes());
            c.state(fnv(model::shape(name, &on), &[first as u8, hit.get() as u8]));
            if points > 0 {
                c.probe("operation with moments inside it");
            }
            r?;
            ensure!(n == 0, "memory-requested", "{op:?} on {} asked for memory {n} times while the allocator refused", show(&on));
        }
        Ok(())
    }
}
