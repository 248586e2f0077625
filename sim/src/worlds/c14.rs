//! C14: the caller's code that a call runs (hashers, sinks, serializers,
//! deserializers, closures, text providers) fails, unwinds or calls back into
//! the library; the failure arrives as raised and nothing else changes.
use crate::alloc::books;
use crate::ctx::{show, Ctx, R, V};
use crate::kinds::Ty;
use crate::model::{self, Decomp, Span, Style, K};
use crate::queries::{self, Facts};
use crate::rng::{fnv, Rng, FNV0};
use crate::sched;
use crate::seams::Bytes;
use crate::world::{panic_violation, Env, Meta, Tier, World};
use crate::{dispatch, ensure, fail};
use langtag::{GrandfatheredLangTag, LangTag, Singleton};
use serde::de::{self, Visitor};
use serde::ser::{self, Impossible};
use serde::{Deserialize, Serialize, Serializer};
use std::cell::{Cell, RefCell};
use std::fmt::{self, Display};
use std::hash::{Hash, Hasher};
use std::ops::ControlFlow;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
pub enum Call {
    Display,
    Debug,
    /// Display and Debug of the error for a refused text.
    Refusal(u8),
    /// The singleton, or the registered tag, the argument names.
    Letter(u8),
    Registered(u8),
    Hash,
    Serialize,
    /// `over`: in place of another value.
    Deserialize { lend: bool, late: bool, over: bool },
    /// Steps through list `list` of the tag, by consumer `how`.
    List { list: u8, how: u8 },
    /// Parsed from text that a caller's type provides, each time it is asked
    /// the same (or, if `fickle`, another) text. `grand`: as a registered tag.
    Provide { grand: bool, fickle: bool },
}

/// At which of the caller's turns what happens.
#[derive(Serialize, Deserialize, Clone, Copy, Debug)]
pub struct Turn {
    at: u8,
    act: Act,
}

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
pub enum Act {
    Fail,
    Unwind,
    /// Calls the library: operation `op` on text `t`, possibly on another thread that is waited for.
    Use { op: u8, t: u8, far: bool },
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Step {
    t: u8,
    owned: bool,
    call: Call,
    turns: Vec<Turn>,
    /// The call is made on another thread.
    far: bool,
    /// What is done right after, and where.
    then: Vec<(u8, u8, bool)>,
    /// The failing call is repeated, and the books looked at.
    again: bool,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Plan {
    texts: Vec<(u8, Bytes)>,
    steps: Vec<Step>,
}

pub struct C14;

struct Token(u64);

#[derive(Debug, PartialEq, Clone)]
enum E {
    Raised(u64),
    Other,
}
impl Display for E {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for E {}
impl ser::Error for E {
    fn custom<T: Display>(_: T) -> Self {
        E::Other
    }
}
impl de::Error for E {
    fn custom<T: Display>(_: T) -> Self {
        E::Other
    }
}

/// How a call ended, as the caller sees it.
#[derive(Debug, PartialEq, Clone)]
enum End {
    Done,
    /// The error the caller's code raised; `None`: an error type without content.
    Failed(Option<u64>),
    Unwound(u64),
    /// Another error.
    Refused,
}

/// The caller's code: what it does at each of its turns.
struct Caller<'a> {
    turns: &'a [Turn],
    n: Cell<u32>,
    raised: Cell<u64>,
    failed: Cell<bool>,
    unwound: Cell<bool>,
    used: Cell<u32>,
    /// Turns taken after a failure was raised.
    late: Cell<u32>,
    texts: &'a [(u8, Bytes)],
    bad: RefCell<Option<V>>,
    mute: bool,
}
impl<'a> Caller<'a> {
    fn new(texts: &'a [(u8, Bytes)], turns: &'a [Turn], raised: u64, mute: bool) -> Self {
        Caller {
            turns,
            n: Cell::new(0),
            raised: Cell::new(raised),
            failed: Cell::new(false),
            unwound: Cell::new(false),
            used: Cell::new(0),
            late: Cell::new(0),
            texts,
            bad: RefCell::new(None),
            mute,
        }
    }
    fn turn(&self, can_fail: bool) -> Result<(), u64> {
        let n = self.n.get();
        self.n.set(n + 1);
        if self.failed.get() || self.unwound.get() {
            self.late.set(self.late.get() + 1);
        }
        for t in self.turns {
            if t.at as u32 != n {
                continue;
            }
            match t.act {
                Act::Use { op, t, far } if !self.mute => {
                    self.used.set(self.used.get() + 1);
                    let (k, text) = &self.texts[t as usize % self.texts.len()];
                    let mut r = Ok(());
                    sched::apart(far, &mut || {
                        r = crate::world::guarded(|| using(op, model::kind(*k), &text.0));
                    });
                    if let Err(v) = r {
                        self.bad.borrow_mut().get_or_insert(V {
                            class: v.class,
                            detail: format!("called from the caller's code inside another call{}: {}", if far { ", on another thread" } else { "" }, v.detail),
                        });
                    }
                }
                Act::Use { .. } => {}
                Act::Fail if can_fail => {
                    self.failed.set(true);
                    return Err(self.raised.get());
                }
                _ => {
                    self.unwound.set(true);
                    resume_unwind(Box::new(Token(self.raised.get())));
                }
            }
        }
        Ok(())
    }
}

struct Sink<'a, 'b>(&'b Caller<'a>, &'b mut String);
impl fmt::Write for Sink<'_, '_> {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.0.turn(true).map_err(|_| fmt::Error)?;
        self.1.push_str(s);
        Ok(())
    }
}

struct Record<'a, 'b>(&'b Caller<'a>, Vec<u8>);
macro_rules! record {
    ($($f:ident $t:ty),*) => { $(fn $f(&mut self, v: $t) {
        let _ = self.0.turn(false);
        self.1.push(std::mem::size_of::<$t>() as u8);
        self.1.extend_from_slice(&v.to_le_bytes());
    })* };
}
impl Hasher for Record<'_, '_> {
    fn write(&mut self, b: &[u8]) {
        let _ = self.0.turn(false);
        self.1.push(b.len() as u8 | 0x80);
        self.1.extend_from_slice(b);
    }
    record!(write_u8 u8, write_u16 u16, write_u32 u32, write_u64 u64, write_usize usize);
    fn finish(&self) -> u64 {
        fnv(FNV0, &self.1)
    }
}

struct Out<'a, 'b>(&'b Caller<'a>, &'b mut String);
macro_rules! no_ser {
    ($($f:ident $t:ty),*) => { $(fn $f(self, _: $t) -> Result<(), E> { Err(E::Other) })* };
}
impl Serializer for Out<'_, '_> {
    type Ok = ();
    type Error = E;
    type SerializeSeq = Impossible<(), E>;
    type SerializeTuple = Impossible<(), E>;
    type SerializeTupleStruct = Impossible<(), E>;
    type SerializeTupleVariant = Impossible<(), E>;
    type SerializeMap = Impossible<(), E>;
    type SerializeStruct = Impossible<(), E>;
    type SerializeStructVariant = Impossible<(), E>;
    fn serialize_str(self, v: &str) -> Result<(), E> {
        self.0.turn(true).map_err(E::Raised)?;
        self.1.push_str(v);
        self.0.turn(true).map_err(E::Raised)
    }
    no_ser!(serialize_bool bool, serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64,
        serialize_u8 u8, serialize_u16 u16, serialize_u32 u32, serialize_u64 u64, serialize_f32 f32,
        serialize_f64 f64, serialize_char char, serialize_bytes &[u8], serialize_unit_struct &'static str);
    fn serialize_none(self) -> Result<(), E> {
        Err(E::Other)
    }
    fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Result<(), E> {
        Err(E::Other)
    }
    fn serialize_unit(self) -> Result<(), E> {
        Err(E::Other)
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Result<(), E> {
        Err(E::Other)
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<(), E> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<(), E> {
        Err(E::Other)
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<Self::SerializeSeq, E> {
        Err(E::Other)
    }
    fn serialize_tuple(self, _: usize) -> Result<Self::SerializeTuple, E> {
        Err(E::Other)
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, E> {
        Err(E::Other)
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, E> {
        Err(E::Other)
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, E> {
        Err(E::Other)
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeStruct, E> {
        Err(E::Other)
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, E> {
        Err(E::Other)
    }
}

struct In<'a, 'b, 'de> {
    caller: &'b Caller<'a>,
    text: &'de str,
    lend: bool,
    late: bool,
}
impl<'de> de::Deserializer<'de> for In<'_, '_, 'de> {
    type Error = E;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        if !self.late {
            self.caller.turn(true).map_err(E::Raised)?;
        }
        let x = if self.lend {
            v.visit_borrowed_str(self.text)
        } else {
            let tmp = self.text.to_owned();
            v.visit_str(&tmp)
        }?;
        if self.late {
            self.caller.turn(true).map_err(E::Raised)?;
        }
        Ok(x)
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit
        unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}

/// Text a caller's type provides on request.
struct Provider<'a, 'b> {
    caller: &'b Caller<'a>,
    text: &'b [u8],
    fickle: bool,
    asked: Cell<usize>,
}
impl Provider<'_, '_> {
    fn text(&self, n: usize) -> &[u8] {
        if self.fickle && n > 0 {
            &self.caller.texts[n % self.caller.texts.len()].1 .0
        } else {
            self.text
        }
    }
    /// Whether `b` is what it said at some turn.
    fn said(&self, b: &[u8]) -> bool {
        (0..self.asked.get()).any(|n| {
            let t = self.text(n);
            std::ptr::eq(t, b)
        })
    }
}
impl AsRef<[u8]> for Provider<'_, '_> {
    fn as_ref(&self) -> &[u8] {
        let _ = self.caller.turn(false);
        let n = self.asked.get();
        self.asked.set(n + 1);
        self.text(n)
    }
}

const WRONG: &str = "wrong-answer";
const LOST: &str = "failure-altered";

/// Uses the library on `t`: whole, without fault, against the reference.
fn using(op: u8, kind: K, t: &[u8]) -> R {
    dispatch!(kind, T => using_as::<T>(op, kind, t))
}
fn using_as<T: Ty>(op: u8, kind: K, t: &[u8]) -> R {
    let want = model::accepts(kind, t);
    let Some(v) = T::parse(t) else {
        ensure!(!want, "refused-well-formed", "{kind:?} refused {}", show(t));
        return Ok(());
    };
    ensure!(want, "accepted-ill-formed", "{kind:?} accepted {}", show(t));
    let text = T::text(v);
    ensure!(text.as_bytes() == t, WRONG, "{kind:?} {} became {}", show(t), show(text.as_bytes()));
    match op % 7 {
        0 | 1 if kind == K::Tag => {
            let f = Facts::new(t);
            let tag = LangTag::new(t).map_err(|_| V { class: "refused-well-formed".into(), detail: show(t) })?;
            for q in 0..queries::NQ {
                if op % 7 == 0 || q % 4 == op / 7 % 4 {
                    queries::query(q, op, tag, &f, false)?;
                }
            }
            Ok(())
        }
        6 if kind == K::Tag => {
            let tag = LangTag::new(t).map_err(|_| V { class: "refused-well-formed".into(), detail: show(t) })?;
            lists(t, tag, op)
        }
        2 => {
            let d = v.to_string();
            ensure!(d == text, WRONG, "{kind:?} {} displayed as {}", show(t), show(d.as_bytes()));
            let o = v.to_owned();
            let d = o.to_string();
            ensure!(d == text, WRONG, "owned {kind:?} {} displayed as {}", show(t), show(d.as_bytes()));
            Ok(())
        }
        3 => {
            let j = serde_json::to_string(v).map_err(|e| V { class: WRONG.into(), detail: e.to_string() })?;
            let back = serde_json::from_str::<T::O>(&j);
            ensure!(back.as_ref().is_ok_and(|o| T::otext(o) == text), WRONG, "{kind:?} {} came back from {j} as {back:?}", show(t));
            Ok(())
        }
        4 => {
            // Another spelling: equal, same hash, no order between them.
            let s = model::respell(text, (op as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15));
            let Some(w) = T::parse(s.as_bytes()) else { fail!("refused-well-formed", "{kind:?} refused {}", show(s.as_bytes())) };
            ensure!(*v == *w && v.cmp(w).is_eq(), WRONG, "{kind:?} {} and {} differ", show(t), show(s.as_bytes()));
            ensure!(hash_of(v) == hash_of(w), WRONG, "{kind:?} {} and {} hash differently", show(t), show(s.as_bytes()));
            Ok(())
        }
        _ => {
            if let Some(g) = model::grandfathered(t) {
                let got = GrandfatheredLangTag::new(t).map(|g| g.to_string());
                ensure!(got.as_deref() == Ok(g), WRONG, "registered tag {} is {got:?}", show(t));
            }
            let o = T::parse_own(text.to_owned());
            ensure!(o.is_some_and(|o| o == *v && T::otext(&o) == text), WRONG, "owned {kind:?} of {} differs", show(t));
            Ok(())
        }
    }
}

struct Plain(Vec<u8>);
impl Hasher for Plain {
    fn write(&mut self, b: &[u8]) {
        self.0.push(b.len() as u8 | 0x80);
        self.0.extend_from_slice(b);
    }
    fn finish(&self) -> u64 {
        fnv(FNV0, &self.0)
    }
}
fn hash_of<X: Hash + ?Sized>(x: &X) -> Vec<u8> {
    let mut p = Plain(vec![]);
    x.hash(&mut p);
    p.0
}

/// What the caller collected, whatever the outcome.
#[derive(Default)]
struct Got {
    text: String,
    items: Vec<Vec<u8>>,
    /// What by_ref consumers found on continuing.
    rest: Option<Vec<Vec<u8>>>,
    read: Option<Vec<u8>>,
}

const WAYS: u8 = 20;

fn consume<I: Iterator>(mut it: I, how: u8, cl: &Caller, g: &RefCell<Got>) -> Result<(), u64>
where
    I::Item: AsRef<[u8]>,
{
    // The caller's turn comes with each item, before it is taken down.
    let take = |b: &[u8]| -> Result<(), u64> {
        cl.turn(true)?;
        g.borrow_mut().items.push(b.to_vec());
        Ok(())
    };
    let give = |b: &[u8]| {
        if let Err(x) = take(b) {
            // No way to fail from here but to unwind.
            cl.unwound.set(true);
            cl.failed.set(false);
            resume_unwind(Box::new(Token(x)));
        }
    };
    // Ended early, by a way that goes on after the failure.
    let mut e = Ok(());
    let mut until = |b: &[u8]| {
        e = take(b);
        e.is_err()
    };
    match how % WAYS {
        0 => it.for_each(|b| give(b.as_ref())),
        1 => it.fold((), |(), b| give(b.as_ref())),
        2 => return it.try_for_each(|b| take(b.as_ref())),
        3 => drop(it.find(|b| until(b.as_ref()))),
        4 => drop(it.map(|b| give(b.as_ref())).last()),
        5 => drop(it.map(|b| give(b.as_ref())).count()),
        6 => {
            let r = it.try_fold((), |(), b| match take(b.as_ref()) {
                Ok(()) => ControlFlow::Continue(()),
                Err(e) => ControlFlow::Break(e),
            });
            if let ControlFlow::Break(e) = r {
                return Err(e);
            }
        }
        7 => drop(it.all(|b| !until(b.as_ref()))),
        8 => drop(it.any(|b| until(b.as_ref()))),
        9 => drop(it.position(|b| until(b.as_ref()))),
        10 => drop(it.find_map(|b| until(b.as_ref()).then_some(()))),
        11 => drop(it.max_by_key(|b| give(b.as_ref()))),
        12 => drop(it.partition::<Vec<_>, _>(|b| {
            give(b.as_ref());
            true
        })),
        n => {
            // One consumer takes over from another that was cut short.
            let r = catch_unwind(AssertUnwindSafe(|| {
                match n {
                    13 => return it.by_ref().try_for_each(|b| take(b.as_ref())),
                    14 => it.by_ref().for_each(|b| give(b.as_ref())),
                    15 => drop(it.find(|b| until(b.as_ref()))),
                    16 => drop(it.all(|b| !until(b.as_ref()))),
                    17 => drop(it.any(|b| until(b.as_ref()))),
                    18 => drop(it.position(|b| until(b.as_ref()))),
                    _ => drop(it.find_map(|b| until(b.as_ref()).then_some(()))),
                }
                Ok(())
            }));
            // What is left is found by plain steps, no more than the text can hold.
            g.borrow_mut().rest = Some(it.take(40_000).map(|b| b.as_ref().to_vec()).collect());
            match r {
                Ok(r) => r?,
                Err(p) => resume_unwind(p),
            }
        }
    }
    e
}

/// What list `list` of the tag should deliver. `None`: the tag has no such list.
fn wanted(t: &[u8], d: &Decomp, list: u8) -> Option<Vec<Vec<u8>>> {
    let spans: Vec<Span> = match list % 7 {
        0 | 1 => d.variants.clone(),
        2 => d.pu_subtags.clone(),
        3 => d.extlangs.clone(),
        4 => d.exts.iter().map(|e| e.span).collect(),
        _ => {
            let e = d.exts.get(list as usize / 7 % d.exts.len().max(1))?;
            d.exts.iter().find(|x| x.singleton.eq_ignore_ascii_case(&e.singleton))?.subtags.clone()
        }
    };
    let mut w: Vec<Vec<u8>> = spans.iter().map(|p| t[p.0..p.1].to_vec()).collect();
    if list % 7 == 1 {
        w.reverse();
    }
    Some(w)
}

/// Runs the list's consumer.
fn listing(tag: &LangTag, d: &Decomp, list: u8, how: u8, cl: &Caller, g: &RefCell<Got>) -> Option<Result<(), u64>> {
    Some(match list % 7 {
        0 => consume(tag.variants().iter(), how, cl, g),
        1 => consume(tag.variants().iter().rev(), how, cl, g),
        2 => consume(tag.private_use_subtags(), how, cl, g),
        3 => consume(tag.language()?.extension_subtags(), how, cl, g),
        4 => consume(tag.extensions().iter(), how, cl, g),
        5 => {
            let e = d.exts.get(list as usize / 7 % d.exts.len().max(1))?;
            consume(tag.extensions().iter_extension(Singleton::new(e.singleton).ok()?), how, cl, g)
        }
        _ => {
            let e = d.exts.get(list as usize / 7 % d.exts.len().max(1))?;
            consume(tag.extensions().get(Singleton::new(e.singleton).ok()?)?.iter(), how, cl, g)
        }
    })
}

/// Every list of a tag, to its end, by one consumer.
fn lists(t: &[u8], tag: &LangTag, op: u8) -> R {
    let Some(d) = model::normal(t) else { return Ok(()) };
    for list in 0..7 {
        let cl = Caller::new(&[], &[], 0, true);
        let g = RefCell::new(Got::default());
        let Some(want) = wanted(t, &d, list) else { continue };
        let r = listing(tag, &d, list, op / 7, &cl, &g);
        let got = g.into_inner().items;
        ensure!(matches!(r, Some(Ok(()))) && got == want, WRONG, "list {list} of {}, by consumer {}: {} items instead of {}, or others", show(t), op / 7 % WAYS, got.len(), want.len());
    }
    Ok(())
}

/// Makes the call. `Ok(None)`: there is no such call for this text.
#[allow(clippy::type_complexity)]
fn make<T: Ty>(kind: K, t: &[u8], s: &Step, cl: &Caller, g: &RefCell<Got>) -> Option<(End, Vec<Vec<u8>>)> {
    let fmt_end = |r: fmt::Result| if r.is_ok() { End::Done } else { End::Failed(None) };
    let serde_end = |e: E| match e {
        E::Raised(x) => End::Failed(Some(x)),
        E::Other => End::Refused,
    };
    let list_end = |r: Result<(), u64>| match r {
        Ok(()) => End::Done,
        Err(x) => End::Failed(Some(x)),
    };
    let show_it = |d: fmt::Arguments| {
        let mut text = String::new();
        let r = fmt::write(&mut Sink(cl, &mut text), d);
        g.borrow_mut().text = text;
        r
    };
    let v = T::parse(t);
    let end = match s.call {
        Call::Display => {
            let v = v?;
            fmt_end(if s.owned { show_it(format_args!("{}", v.to_owned())) } else { show_it(format_args!("{v}")) })
        }
        Call::Debug => {
            let v = v?;
            fmt_end(if s.owned { show_it(format_args!("{:?}", v.to_owned())) } else { show_it(format_args!("{v:?}")) })
        }
        Call::Refusal(how) => {
            let text = std::str::from_utf8(t).ok()?;
            let mut end = None;
            let _ = T::error(text, &mut |d, b| {
                if end.is_none() {
                    end = Some(fmt_end(if how & 1 == 0 { show_it(format_args!("{d}")) } else { show_it(format_args!("{b:?}")) }));
                }
                Ok(())
            });
            end?
        }
        Call::Letter(n) => {
            let l = Singleton::new(b"0189abcdpqtuwyzABCPQTUWYZ"[n as usize % 25]).ok()?;
            fmt_end(if s.owned { show_it(format_args!("{l:?}")) } else { show_it(format_args!("{l}")) })
        }
        Call::Registered(n) => {
            let tag = langtag::GRANDFATHERED[n as usize % 26];
            fmt_end(show_it(format_args!("{tag}")))
        }
        Call::Hash => {
            let v = v?;
            let mut h = Record(cl, vec![]);
            if s.owned {
                v.to_owned().hash(&mut h)
            } else {
                v.hash(&mut h)
            }
            g.borrow_mut().read = Some(h.1);
            End::Done
        }
        Call::Serialize => {
            let v = v?;
            let mut text = String::new();
            let r = if s.owned { v.to_owned().serialize(Out(cl, &mut text)) } else { v.serialize(Out(cl, &mut text)) };
            g.borrow_mut().text = text;
            r.map_or_else(serde_end, |()| End::Done)
        }
        Call::Deserialize { lend, late, over } => {
            let text = std::str::from_utf8(t).ok()?;
            let d = In { caller: cl, text, lend: lend || !s.owned, late };
            let r = if s.owned && over {
                let mut o = T::parse_own(v.map_or("", T::text).to_owned())?;
                let r = T::O::deserialize_in_place(d, &mut o);
                let b = T::otext(&o).as_bytes();
                if !model::accepts(kind, b) {
                    let v = V { class: WRONG.into(), detail: format!("failed deserialization in place of {kind:?} {} left {}", show(t), show(b)) };
                    cl.bad.borrow_mut().get_or_insert(v);
                }
                r.map(|()| b.to_vec())
            } else if s.owned {
                T::O::deserialize(d).map(|o| T::otext(&o).as_bytes().to_vec())
            } else {
                T::de_borrowed(d).map(|b| T::text(b).as_bytes().to_vec())
            };
            match r {
                Ok(b) => {
                    g.borrow_mut().read = Some(b);
                    End::Done
                }
                Err(e) => serde_end(e),
            }
        }
        Call::List { list, how } => {
            if kind != K::Tag {
                return None;
            }
            let d = model::normal(t)?;
            let tag = LangTag::new(t).ok()?;
            let want = wanted(t, &d, list)?;
            let r = listing(tag, &d, list, how, cl, g)?;
            return Some((list_end(r), want));
        }
        Call::Provide { grand, fickle } => {
            let me = Provider { caller: cl, text: t, fickle, asked: Cell::new(0) };
            let sane = |ok: bool, what: &str| {
                if !ok {
                    let v = V { class: WRONG.into(), detail: format!("{kind:?} from a provider of {}: {what}", show(t)) };
                    cl.bad.borrow_mut().get_or_insert(v);
                }
            };
            let end = |r: Option<Vec<u8>>| {
                let end = if r.is_some() { End::Done } else { End::Refused };
                g.borrow_mut().read = r;
                end
            };
            if grand {
                match GrandfatheredLangTag::new(&me) {
                    Ok(tag) => {
                        sane((0..me.asked.get()).any(|n| model::grandfathered(me.text(n)) == Some(tag.as_str())), "a registered tag it never provided");
                        end(Some(tag.as_bytes().to_vec()))
                    }
                    Err(p) => {
                        sane(std::ptr::eq(p, &me), "refused with another provider");
                        end(None)
                    }
                }
            } else {
                match T::parse_from(&me) {
                    Ok(v) => {
                        let b = T::text(v).as_bytes();
                        sane(me.said(b), "accepted a text it never provided");
                        sane(model::accepts(kind, b), &format!("accepted {}", show(b)));
                        end(Some(b.to_vec()))
                    }
                    Err(p) => {
                        sane(std::ptr::eq(p, &me), "refused with another provider");
                        end(None)
                    }
                }
            }
        }
    };
    Some((end, vec![]))
}

/// What `make` returned, or how it unwound.
type Made = Result<Option<(End, Vec<Vec<u8>>)>, V>;

fn caught<T: Ty>(kind: K, t: &[u8], s: &Step, cl: &Caller, g: &RefCell<Got>) -> Made {
    match catch_unwind(AssertUnwindSafe(|| make::<T>(kind, t, s, cl, g))) {
        Ok(r) => Ok(r),
        Err(p) => match p.downcast::<Token>() {
            Ok(tok) => {
                // The list is needed all the same.
                let want = match s.call {
                    Call::List { list, .. } => model::normal(t).and_then(|d| wanted(t, &d, list)),
                    _ => None,
                };
                Ok(Some((End::Unwound(tok.0), want.unwrap_or_default())))
            }
            Err(_) => Err(panic_violation()),
        },
    }
}

fn step<T: Ty>(kind: K, t: &[u8], s: &Step, n: usize, p: &Plan, c: &mut Ctx) -> R {
    let raised = 0x1000 + n as u64;
    let cl = Caller::new(&p.texts, &s.turns, raised, false);
    let g = RefCell::new(Got::default());
    // A first time without any of it, to compare with.
    let calm_cl = Caller::new(&p.texts, &[], 0, true);
    let calm = RefCell::new(Got::default());
    let Some((calm_end, _)) = caught::<T>(kind, t, s, &calm_cl, &calm)? else { return Ok(()) };
    if let Some(v) = calm_cl.bad.borrow_mut().take() {
        return Err(v);
    }
    c.ops += 1;
    c.ev("call", format!("{:?}", s.call).as_bytes());
    let mut made = Ok(None);
    {
        let (cl, g) = (Shared(&cl), Shared(&g));
        sched::apart(s.far, &mut || {
            let (cl, g) = (&cl, &g);
            made = caught::<T>(kind, t, s, cl.0, g.0)
        });
    }
    if s.far {
        c.fault("call made on another thread");
    }
    let made = made?;
    if let Some(v) = cl.bad.borrow_mut().take() {
        return Err(v);
    }
    let Some((end, want)) = made else { fail!(WRONG, "{kind:?} {}: {:?} was possible, then was not", show(t), s.call) };
    c.checks += 1;
    if cl.used.get() > 0 {
        c.faults_n("caller's code calls back", cl.used.get() as u64);
        c.nontrivial = true;
    }
    let what = || format!("{:?} of {kind:?} {}", s.call, show(t));
    let (got, calm) = (g.into_inner(), calm.into_inner());
    c.state(fnv(fnv(FNV0, &[kind as u8, cl.n.get().min(40) as u8, cl.failed.get() as u8, cl.unwound.get() as u8, cl.used.get().min(3) as u8]),
        format!("{:?}", s.call).as_bytes()));
    if cl.failed.get() || cl.unwound.get() {
        c.nontrivial = true;
        c.fault(if cl.failed.get() { "caller's code fails" } else { "caller's code unwinds" });
        let fmt = matches!(s.call, Call::Display | Call::Debug | Call::Refusal(_) | Call::Letter(_) | Call::Registered(_));
        let due = if cl.unwound.get() { End::Unwound(raised) } else { End::Failed((!fmt).then_some(raised)) };
        ensure!(end == due, LOST, "{}: the caller's code ended it with {due:?}, the caller saw {end:?}", what());
        ensure!(cl.late.get() == 0, "went-on-after-failure", "{}: the caller's code was called {} times after its failure", what(), cl.late.get());
        ensure!(calm.text.starts_with(&got.text), WRONG, "{}: {} instead of a part of {}", what(), show(got.text.as_bytes()), show(calm.text.as_bytes()));
    } else {
        ensure!(end == calm_end, WRONG, "{}: ended with {end:?}, before with {calm_end:?}", what());
        ensure!(got.text == calm.text && got.read == calm.read, WRONG, "{}: gave {} {:?}, before {} {:?}", what(), show(got.text.as_bytes()),
            got.read, show(calm.text.as_bytes()), calm.read);
        if matches!(s.call, Call::Display | Call::Serialize) {
            ensure!(got.text.as_bytes() == t, WRONG, "{}: gave {}", what(), show(got.text.as_bytes()));
        }
    }
    if let Call::List { .. } = s.call {
        let k = got.items.len();
        ensure!(want.starts_with(&got.items), WRONG, "{}: delivered {} items, not the first of the {}", what(), k, want.len());
        let cut = cl.failed.get() || cl.unwound.get();
        ensure!(cut || k == want.len(), WRONG, "{}: delivered {k} of {} items", what(), want.len());
        if let Some(rest) = &got.rest {
            // The item during which the failure came is gone, the others are not.
            let from = (k + cut as usize).min(want.len());
            ensure!(rest[..] == want[from..], WRONG, "{}: after the failure at item {k}, {} further items instead of {}", what(), rest.len(), want.len() - from);
        }
    }
    // The value and the rest of the world are as they were.
    let after = |op: u8, i: u8, far: bool| -> R {
        let (k, text) = &p.texts[i as usize % p.texts.len()];
        let mut r = Ok(());
        sched::apart(far, &mut || r = crate::world::guarded(|| using(op, model::kind(*k), &text.0)));
        r.map_err(|v| V { class: v.class, detail: format!("after {}, which ended with {end:?}: {}", what(), v.detail) })
    };
    for (op, i, far) in &s.then {
        c.ops += 1;
        c.checks += 1;
        after(*op, *i, *far)?;
    }
    // Made again, it does what it did the first time.
    let calm_cl = Caller::new(&p.texts, &[], 0, true);
    let again = RefCell::new(Got::default());
    let r = caught::<T>(kind, t, s, &calm_cl, &again)?;
    let again = again.into_inner();
    ensure!(r.map(|r| r.0) == Some(calm_end.clone()) && again.text == calm.text && again.read == calm.read && again.items == calm.items, WRONG,
        "{} after a failed attempt: {} {:?}, before {} {:?}", what(), show(again.text.as_bytes()), again.read, show(calm.text.as_bytes()), calm.read);
    if s.again {
        let once = |g: &RefCell<Got>| {
            let cl = Caller::new(&p.texts, &s.turns, raised, true);
            let _ = caught::<T>(kind, t, s, &cl, g);
            *g.borrow_mut() = Got::default();
        };
        let g = RefCell::new(Got::default());
        for _ in 0..4 {
            once(&g);
        }
        const REPS: i64 = 12;
        let ((), cost) = books(|| {
            for _ in 0..REPS {
                once(&g);
            }
        });
        c.probe("failing call repeated with the books open");
        ensure!(cost.blocks < REPS, "memory-lost", "{}: {REPS} attempts that ended with {end:?} left {} blocks of {} bytes behind", what(), cost.blocks, cost.bytes);
    }
    Ok(())
}

/// Handed to a thread that is waited for.
struct Shared<T>(T);
unsafe impl<T> Send for Shared<T> {}
unsafe impl<T> Sync for Shared<T> {}

impl World for C14 {
    const META: Meta = Meta {
        id: "C14",
        quick: 600_000,
        thorough: 15_000_000,
        batch: 4_000,
        threads: false,
        nests: false,
        survey: 0,
        rule: "one run = up to 6 texts and up to 8 calls that run the caller's code (hasher, sink, serializer, deserializer, closure, \
               text provider), which at chosen turns fails, unwinds or itself uses the library, on the same or another thread, \
               followed by ordinary use; non-trivial: the caller's code failed, unwound or called back at least once; distinct by \
               the hash of the event log",
        states: "distinct (call, kind, number of the caller's turns, how it ended)",
        interleavings: "distinct event logs",
        real: &[
            "Display, Debug, Hash, serde implementations of all types, iterators and their default or overridden consumers",
            "OS thread the call or the callback is moved to",
        ],
        stub: &["the caller's hasher, sink, serializer, deserializer, closures and text provider"],
        assumptions: &["a hasher cannot fail but by unwinding", "a consumer cut short by its closure has used up the item it was given"],
    };
    type Plan = Plan;

    fn gen(r: &mut Rng, env: Env) -> Plan {
        let st = Style::new(r);
        let mut texts: Vec<(u8, Bytes)> = vec![];
        for _ in 0..r.range(1, 6) {
            let kind = if r.chance(3, 5) { 0 } else { r.u8() % 15 };
            let k = model::kind(kind);
            let t = match r.below(16) {
                0 => {
                    let t = st.text(r, k);
                    model::mutate(r, t.as_bytes())
                }
                1 if r.chance(1, 6) => {
                    let max = Style::reach(r, env.tier).min(if env.tier == Tier::Thorough { 20_000 } else { 3000 });
                    st.long_text(r, k, max).into_bytes()
                }
                2 if kind == 0 => {
                    let g = if r.chance(1, 2) { *r.pick(&model::IRREGULAR) } else { *r.pick(&model::REGULAR) };
                    model::respell(g, r.u64()).into_bytes()
                }
                _ => st.text(r, k).into_bytes(),
            };
            texts.push((kind, Bytes(t)));
        }
        let steps = (0..r.range(1, 8))
            .map(|_| {
                let call = match r.below(16) {
                    0 | 1 => Call::Display,
                    2 => Call::Debug,
                    3 => Call::Refusal(r.u8()),
                    4 => Call::Letter(r.u8()),
                    5 => Call::Registered(r.u8()),
                    6..=8 => Call::Hash,
                    9 => Call::Serialize,
                    10 => Call::Deserialize { lend: r.chance(1, 2), late: r.chance(1, 2), over: r.chance(1, 3) },
                    11 => Call::Provide { grand: r.chance(1, 3), fickle: r.chance(1, 2) },
                    _ => Call::List { list: r.u8(), how: r.u8() },
                };
                // Few turns come up in most calls; a hasher gets one per byte.
                let span = if call == Call::Hash { 14 } else { 5 };
                let turns = (0..r.range(1, 3))
                    .map(|_| Turn {
                        at: if r.chance(1, 2) { r.below(2) as u8 } else { r.below(span) as u8 },
                        act: match r.below(4) {
                            0 => Act::Fail,
                            1 => Act::Unwind,
                            _ => Act::Use { op: r.u8(), t: r.u8(), far: r.chance(1, 12) },
                        },
                    })
                    .collect();
                let then = (0..r.range(1, 3)).map(|_| (r.u8(), r.u8(), r.chance(1, 12))).collect();
                Step { t: r.u8(), owned: r.chance(1, 2), call, turns, far: r.chance(1, 12), then, again: r.chance(1, 24) }
            })
            .collect();
        Plan { texts, steps }
    }

    fn exec(p: &Plan, c: &mut Ctx) -> R {
        if p.texts.is_empty() {
            return Ok(());
        }
        for (n, s) in p.steps.iter().enumerate() {
            let (k, t) = &p.texts[s.t as usize % p.texts.len()];
            let k = model::kind(*k);
            c.sim_ms += 1;
            c.ev("text", &t.0);
            dispatch!(k, T => step::<T>(k, &t.0, s, n, p, c))?;
        }
        Ok(())
    }
}
