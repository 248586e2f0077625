//! C02: tags through serde over faulty streams and arbitrary data shapes.
use crate::ctx::{show, Ctx, R};
use crate::kinds::Ty;
use crate::model::{self, Style, K};
use crate::rng::{fnv, Rng, FNV0};
use crate::seams::*;
use crate::world::{Meta, Env, Tier, World};
use crate::{dispatch, ensure, fail};
use serde::de::{self, DeserializeSeed, Visitor};
use serde::ser::{self, Impossible};
use serde::{Deserialize, Serialize, Serializer};
use std::cell::RefCell;
use std::fmt::{self, Display};

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Corrupt {
    Flip { at: u16, bit: u8 },
    Set { at: u16, to: u8 },
    Cut { at: u16 },
    Drop { at: u16, n: u8 },
    Insert { at: u16, b: Bytes },
    /// A relay escapes or re-encodes one character of the string.
    Escape { at: u16, how: u8 },
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Shape {
    Str,
    Borrowed,
    String,
    Bytes,
    BorrowedBytes,
    ByteBuf,
    Char,
    Unit,
    None,
    Bool,
    U64,
    I64,
    F64,
    Some(Box<Shape>),
    Newtype(Box<Shape>),
    Seq(Box<Shape>),
    Map,
    Enum,
    /// The stream fails instead of delivering.
    Fail,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Msg {
    kind: u8,
    text: Bytes,
    owned: bool,
    write: Stream,
    /// The serializer itself refuses the string.
    refuse: bool,
    damage: Vec<Corrupt>,
    read: Stream,
    shape: Shape,
    human: bool,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Plan {
    msgs: Vec<Msg>,
    /// Kind and texts of a batch kept in one document, as values and as keys.
    batch: u8,
    keys: Vec<Bytes>,
    stream: Stream,
    pack: PackPlan,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct PackPlan {
    /// Which of the values are written from their owned form.
    owned: u8,
    damage: Vec<(u16, u8)>,
}

pub struct C02;

fn gen_shape(r: &mut Rng, depth: usize) -> Shape {
    match r.below(if depth > 2 { 14 } else { 22 }) {
        0..=2 => Shape::Str,
        3..=5 => Shape::Borrowed,
        6..=7 => Shape::String,
        8 => Shape::Bytes,
        9 => Shape::BorrowedBytes,
        10 => Shape::ByteBuf,
        11 => Shape::Char,
        12 => match r.below(6) {
            0 => Shape::Unit,
            1 => Shape::None,
            2 => Shape::Bool,
            3 => Shape::U64,
            4 => Shape::I64,
            _ => Shape::F64,
        },
        13 => Shape::Fail,
        14..=15 => Shape::Some(Box::new(gen_shape(r, depth + 1))),
        16..=17 => Shape::Newtype(Box::new(gen_shape(r, depth + 1))),
        18..=19 => Shape::Seq(Box::new(gen_shape(r, depth + 1))),
        20 => Shape::Map,
        _ => Shape::Enum,
    }
}

// ------------------------------------------------ a serializer that records

#[derive(Debug, Clone, PartialEq)]
enum E {
    Injected,
    Other(String),
}
impl Display for E {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for E {}
impl ser::Error for E {
    fn custom<T: Display>(m: T) -> Self {
        E::Other(m.to_string())
    }
}
impl de::Error for E {
    fn custom<T: Display>(m: T) -> Self {
        E::Other(m.to_string())
    }
}

struct Tok<'a> {
    got: &'a RefCell<Vec<String>>,
    refuse: bool,
    human: bool,
}
macro_rules! other_ser {
    ($($f:ident $t:ty),*) => { $(fn $f(self, _: $t) -> Result<(), E> {
        self.got.borrow_mut().push(concat!("<", stringify!($f), ">").into());
        Ok(())
    })* };
}
impl Serializer for Tok<'_> {
    type Ok = ();
    type Error = E;
    type SerializeSeq = Impossible<(), E>;
    type SerializeTuple = Impossible<(), E>;
    type SerializeTupleStruct = Impossible<(), E>;
    type SerializeTupleVariant = Impossible<(), E>;
    type SerializeMap = Impossible<(), E>;
    type SerializeStruct = Impossible<(), E>;
    type SerializeStructVariant = Impossible<(), E>;
    fn serialize_str(self, v: &str) -> Result<(), E> {
        if self.refuse {
            return Err(E::Injected);
        }
        self.got.borrow_mut().push(format!("={v}"));
        Ok(())
    }
    other_ser!(serialize_bool bool, serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64,
        serialize_u8 u8, serialize_u16 u16, serialize_u32 u32, serialize_u64 u64, serialize_f32 f32,
        serialize_f64 f64, serialize_char char, serialize_bytes &[u8]);
    fn serialize_none(self) -> Result<(), E> {
        Err(E::Other("none".into()))
    }
    fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Result<(), E> {
        Err(E::Other("some".into()))
    }
    fn serialize_unit(self) -> Result<(), E> {
        Err(E::Other("unit".into()))
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<(), E> {
        Err(E::Other("unit struct".into()))
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Result<(), E> {
        Err(E::Other("unit variant".into()))
    }
    /// Transparent for a newtype: what matters is the one string inside.
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<(), E> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(
        self,
        _: &'static str,
        _: u32,
        _: &'static str,
        _: &T,
    ) -> Result<(), E> {
        Err(E::Other("newtype variant".into()))
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<Self::SerializeSeq, E> {
        Err(E::Other("seq".into()))
    }
    fn serialize_tuple(self, _: usize) -> Result<Self::SerializeTuple, E> {
        Err(E::Other("tuple".into()))
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, E> {
        Err(E::Other("tuple struct".into()))
    }
    fn serialize_tuple_variant(
        self,
        _: &'static str,
        _: u32,
        _: &'static str,
        _: usize,
    ) -> Result<Self::SerializeTupleVariant, E> {
        Err(E::Other("tuple variant".into()))
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, E> {
        Err(E::Other("map".into()))
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeStruct, E> {
        Err(E::Other("struct".into()))
    }
    fn serialize_struct_variant(
        self,
        _: &'static str,
        _: u32,
        _: &'static str,
        _: usize,
    ) -> Result<Self::SerializeStructVariant, E> {
        Err(E::Other("struct variant".into()))
    }
    fn is_human_readable(&self) -> bool {
        self.human
    }
}

// ------------------------------------- a deserializer presenting any shape

#[derive(Clone, Copy)]
struct Show<'a, 'de> {
    shape: &'a Shape,
    data: &'de [u8],
    human: bool,
}

impl<'a, 'de> Show<'a, 'de> {
    fn present<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        let text = std::str::from_utf8(self.data).ok();
        let inner = |s: &'a Shape| Show { shape: s, ..self };
        match self.shape {
            Shape::Str => match text {
                Some(t) => {
                    // Dies with this call, as a stream's buffer does.
                    let tmp = t.to_owned();
                    v.visit_str(&tmp)
                }
                None => Err(E::Injected),
            },
            Shape::Borrowed => match text {
                Some(t) => v.visit_borrowed_str(t),
                None => Err(E::Injected),
            },
            Shape::String => match text {
                Some(t) => v.visit_string(t.to_owned()),
                None => Err(E::Injected),
            },
            Shape::Bytes => {
                let tmp = self.data.to_vec();
                v.visit_bytes(&tmp)
            }
            Shape::BorrowedBytes => v.visit_borrowed_bytes(self.data),
            Shape::ByteBuf => v.visit_byte_buf(self.data.to_vec()),
            Shape::Char => match text.and_then(|t| t.chars().next()) {
                Some(c) => v.visit_char(c),
                None => Err(E::Injected),
            },
            Shape::Unit => v.visit_unit(),
            Shape::None => v.visit_none(),
            Shape::Bool => v.visit_bool(self.data.len() & 1 == 1),
            Shape::U64 => v.visit_u64(self.data.len() as u64),
            Shape::I64 => v.visit_i64(-(self.data.len() as i64)),
            Shape::F64 => v.visit_f64(self.data.len() as f64),
            Shape::Some(s) => v.visit_some(inner(s)),
            Shape::Newtype(s) => v.visit_newtype_struct(inner(s)),
            Shape::Seq(s) => v.visit_seq(Items { show: inner(s), left: 1 }),
            Shape::Map => v.visit_map(Items { show: self, left: 1 }),
            Shape::Enum => v.visit_enum(de::value::StrDeserializer::<E>::new(text.unwrap_or(""))),
            Shape::Fail => Err(E::Injected),
        }
    }
}

struct Items<'a, 'de> {
    show: Show<'a, 'de>,
    left: u8,
}
impl<'de> de::SeqAccess<'de> for Items<'_, 'de> {
    type Error = E;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, E> {
        if self.left == 0 {
            return Ok(None);
        }
        self.left -= 1;
        s.deserialize(self.show).map(Some)
    }
}
impl<'de> de::MapAccess<'de> for Items<'_, 'de> {
    type Error = E;
    fn next_key_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, E> {
        if self.left == 0 {
            return Ok(None);
        }
        self.left -= 1;
        s.deserialize(Show { shape: &Shape::Borrowed, ..self.show }).map(Some)
    }
    fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<T::Value, E> {
        s.deserialize(Show { shape: &Shape::Borrowed, ..self.show })
    }
}
impl<'de> de::Deserializer<'de> for Show<'_, 'de> {
    type Error = E;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        self.present(v)
    }
    fn is_human_readable(&self) -> bool {
        self.human
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit
        unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}

// --------------------------- a compact format that does not describe itself

/// One value after the other, each a length (two bytes) and the string. The
/// reader has to know what it asks for: `deserialize_any` is refused.
struct Pack<'a>(&'a mut Vec<u8>);
impl Pack<'_> {
    fn put(self, v: &[u8]) -> Result<(), E> {
        self.0.extend_from_slice(&(v.len() as u16).to_le_bytes());
        self.0.extend_from_slice(v);
        Ok(())
    }
}
macro_rules! no_ser {
    ($($f:ident $t:ty),*) => { $(fn $f(self, _: $t) -> Result<(), E> {
        Err(E::Other(stringify!($f).into()))
    })* };
}
impl Serializer for Pack<'_> {
    type Ok = ();
    type Error = E;
    type SerializeSeq = Impossible<(), E>;
    type SerializeTuple = Impossible<(), E>;
    type SerializeTupleStruct = Impossible<(), E>;
    type SerializeTupleVariant = Impossible<(), E>;
    type SerializeMap = Impossible<(), E>;
    type SerializeStruct = Impossible<(), E>;
    type SerializeStructVariant = Impossible<(), E>;
    fn serialize_str(self, v: &str) -> Result<(), E> {
        self.put(v.as_bytes())
    }
    fn serialize_bytes(self, v: &[u8]) -> Result<(), E> {
        self.put(v)
    }
    no_ser!(serialize_bool bool, serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64,
        serialize_u8 u8, serialize_u16 u16, serialize_u32 u32, serialize_u64 u64, serialize_f32 f32,
        serialize_f64 f64, serialize_char char, serialize_unit_struct &'static str);
    fn serialize_none(self) -> Result<(), E> {
        Err(E::Other("none".into()))
    }
    fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Result<(), E> {
        Err(E::Other("some".into()))
    }
    fn serialize_unit(self) -> Result<(), E> {
        Err(E::Other("unit".into()))
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Result<(), E> {
        Err(E::Other("unit variant".into()))
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<(), E> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(
        self,
        _: &'static str,
        _: u32,
        _: &'static str,
        _: &T,
    ) -> Result<(), E> {
        Err(E::Other("newtype variant".into()))
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<Self::SerializeSeq, E> {
        Err(E::Other("seq".into()))
    }
    fn serialize_tuple(self, _: usize) -> Result<Self::SerializeTuple, E> {
        Err(E::Other("tuple".into()))
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, E> {
        Err(E::Other("tuple struct".into()))
    }
    fn serialize_tuple_variant(
        self,
        _: &'static str,
        _: u32,
        _: &'static str,
        _: usize,
    ) -> Result<Self::SerializeTupleVariant, E> {
        Err(E::Other("tuple variant".into()))
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, E> {
        Err(E::Other("map".into()))
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeStruct, E> {
        Err(E::Other("struct".into()))
    }
    fn serialize_struct_variant(
        self,
        _: &'static str,
        _: u32,
        _: &'static str,
        _: usize,
    ) -> Result<Self::SerializeStructVariant, E> {
        Err(E::Other("struct variant".into()))
    }
    fn is_human_readable(&self) -> bool {
        false
    }
}

/// Reads [`Pack`]. `lend`: from a slice, strings can be borrowed.
struct Unpack<'de> {
    rest: &'de [u8],
    lend: bool,
}
impl<'de> Unpack<'de> {
    fn take(&mut self) -> Result<&'de [u8], E> {
        let (n, rest) = self.rest.split_first_chunk::<2>().ok_or(E::Injected)?;
        let n = u16::from_le_bytes(*n) as usize;
        if rest.len() < n {
            return Err(E::Injected);
        }
        let (v, rest) = rest.split_at(n);
        self.rest = rest;
        Ok(v)
    }
    fn text(&mut self) -> Result<&'de str, E> {
        std::str::from_utf8(self.take()?).map_err(|_| E::Injected)
    }
}
macro_rules! no_de {
    ($($f:ident)*) => { $(fn $f<V: Visitor<'de>>(self, _: V) -> Result<V::Value, E> {
        Err(E::Other(stringify!($f).into()))
    })* };
}
impl<'de> de::Deserializer<'de> for &mut Unpack<'de> {
    type Error = E;
    fn deserialize_str<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        let t = self.text()?;
        if self.lend {
            v.visit_borrowed_str(t)
        } else {
            v.visit_str(&t.to_owned())
        }
    }
    fn deserialize_string<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        let t = self.text()?;
        v.visit_string(t.to_owned())
    }
    fn deserialize_bytes<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        let t = self.take()?;
        if self.lend {
            v.visit_borrowed_bytes(t)
        } else {
            v.visit_bytes(&t.to_owned())
        }
    }
    fn deserialize_byte_buf<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        let t = self.take()?;
        v.visit_byte_buf(t.to_owned())
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, E> {
        v.visit_newtype_struct(self)
    }
    no_de!(deserialize_any deserialize_bool deserialize_i8 deserialize_i16 deserialize_i32 deserialize_i64
        deserialize_u8 deserialize_u16 deserialize_u32 deserialize_u64 deserialize_f32 deserialize_f64 deserialize_char
        deserialize_option deserialize_unit deserialize_seq deserialize_map deserialize_identifier deserialize_ignored_any);
    fn deserialize_unit_struct<V: Visitor<'de>>(self, _: &'static str, _: V) -> Result<V::Value, E> {
        Err(E::Other("unit struct".into()))
    }
    fn deserialize_tuple<V: Visitor<'de>>(self, _: usize, _: V) -> Result<V::Value, E> {
        Err(E::Other("tuple".into()))
    }
    fn deserialize_tuple_struct<V: Visitor<'de>>(self, _: &'static str, _: usize, _: V) -> Result<V::Value, E> {
        Err(E::Other("tuple struct".into()))
    }
    fn deserialize_struct<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], _: V) -> Result<V::Value, E> {
        Err(E::Other("struct".into()))
    }
    fn deserialize_enum<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], _: V) -> Result<V::Value, E> {
        Err(E::Other("enum".into()))
    }
    fn is_human_readable(&self) -> bool {
        false
    }
}

/// A log of values in the compact format, damaged, read back value by value.
/// The twin reads plain strings from the same bytes.
fn compact<T: Ty>(kind: K, keys: &[Bytes], pack: &PackPlan, c: &mut Ctx) -> R {
    let mut log = vec![];
    let mut sent = vec![];
    for (i, k) in keys.iter().enumerate() {
        let Some(v) = T::parse(&k.0).filter(|_| model::accepts(kind, &k.0) && k.0.len() < 60_000) else { continue };
        let r = if pack.owned >> (i % 8) & 1 == 1 { v.to_owned().serialize(Pack(&mut log)) } else { v.serialize(Pack(&mut log)) };
        c.ops += 1;
        ensure!(r.is_ok(), "no-round-trip", "{kind:?} {} not taken by a compact format: {r:?}", show(&k.0));
        sent.push(T::text(v).to_owned());
    }
    if log.is_empty() {
        return Ok(());
    }
    if !pack.damage.is_empty() {
        c.fault("compact log damaged");
        for (at, how) in &pack.damage {
            let n = log.len();
            if n == 0 {
                break;
            }
            let at = *at as usize % n;
            match how % 4 {
                0 => log[at] ^= 1 << (how / 4 % 8),
                1 => log.truncate(at),
                2 => drop(log.remove(at)),
                _ => log.insert(at, how / 4),
            }
        }
    }
    c.ev("compact log", &log);
    for lend in [false, true] {
        let mut own = Unpack { rest: &log, lend };
        let mut twin = Unpack { rest: &log, lend };
        for i in 0..=sent.len() {
            let want = String::deserialize(&mut twin);
            let bor = {
                let mut d = Unpack { rest: own.rest, lend };
                let r = T::de_borrowed(&mut d).map(T::text);
                if r.is_ok() {
                    ensure!(d.rest.len() == twin.rest.len(), "stream-misread", "borrowed {kind:?}: {} bytes left, a string would leave {}", d.rest.len(), twin.rest.len());
                }
                r
            };
            let got = T::O::deserialize(&mut own);
            c.checks += 2;
            if pack.damage.is_empty() && i < sent.len() {
                ensure!(got.as_ref().is_ok_and(|o| T::otext(o) == sent[i]), "no-round-trip", "compact {kind:?} {} came back as {got:?}", show(sent[i].as_bytes()));
                ensure!(!lend || bor == Ok(&sent[i]), "no-round-trip", "compact borrowed {kind:?} {} came back as {bor:?}", show(sent[i].as_bytes()));
            }
            let text = want.as_deref().ok();
            verdict("compact", kind, &got, |o| T::otext(o), text, true)?;
            verdict("compact (borrowed)", kind, &bor, |t| t, text, lend)?;
            if got.is_ok() {
                ensure!(own.rest.len() == twin.rest.len(), "stream-misread", "{kind:?}: {} bytes left, a string would leave {}", own.rest.len(), twin.rest.len());
            }
            if want.is_err() {
                break;
            }
            own.rest = twin.rest;
        }
    }
    c.probe("compact log");
    Ok(())
}

// ------------------------------------------------------------------ checks

/// The string a shape carries, when it is a string; `Err(false)` when the shape is not one.
fn carried(s: &Shape) -> Option<bool> {
    match s {
        Shape::Str | Shape::String => Some(false),
        Shape::Borrowed => Some(true),
        _ => None,
    }
}

fn verdict<O>(
    name: &str,
    kind: K,
    got: &Result<O, impl std::fmt::Debug>,
    text_of: impl Fn(&O) -> &str,
    received: Option<&str>,
    must: bool,
) -> R {
    match (got, received) {
        (Ok(v), Some(s)) => {
            let t = text_of(v);
            ensure!(model::accepts(kind, s.as_bytes()), "deserialized-ill-formed", "{name}: {kind:?} from {} gave {}",
                show(s.as_bytes()), show(t.as_bytes()));
            ensure!(t == s, "deserialized-other-text", "{name}: {kind:?} from {} gave {}", show(s.as_bytes()), show(t.as_bytes()));
        }
        (Ok(v), None) => fail!("deserialized-from-broken-stream", "{name}: {kind:?} gave {} though no string was received",
            show(text_of(v).as_bytes())),
        (Err(e), Some(s)) => ensure!(!must || !model::accepts(kind, s.as_bytes()), "well-formed-not-deserialized",
            "{name}: {kind:?} from {} failed: {e:?}", show(s.as_bytes())),
        (Err(_), None) => {}
    }
    Ok(())
}

/// What is left of a value that a message was read over.
fn in_place<E: std::fmt::Debug>(name: &str, kind: K, r: Result<(), E>, now: &str, json: &[u8], how: &Stream) -> R {
    // Only the string: nobody looked for the end of the message.
    let twin = String::deserialize(&mut serde_json::Deserializer::from_reader(SimReader::new(json, how)));
    if r.is_err() {
        ensure!(model::accepts(kind, now.as_bytes()), "deserialized-ill-formed", "{name}: {kind:?} from {} failed and left {}",
            show(json), show(now.as_bytes()));
    }
    verdict(name, kind, &r.map(|()| now), |t| t, twin.as_deref().ok(), true)
}

fn message<T: Ty>(m: &Msg, kind: K, c: &mut Ctx) -> R {
    let text = std::str::from_utf8(&m.text.0).ok();
    let mut json: Vec<u8> = vec![b'"'];
    if let Some(v) = T::parse(&m.text.0).filter(|_| model::accepts(kind, &m.text.0)) {
        let s = text.unwrap_or_default();
        let owned = v.to_owned();
        // Into a serializer: exactly one string, the exact text; its error comes back.
        let got = RefCell::new(vec![]);
        let tok = Tok { got: &got, refuse: m.refuse, human: m.human };
        let r = if m.owned { owned.serialize(tok) } else { v.serialize(tok) };
        c.checks += 1;
        if m.refuse {
            c.fault("serializer error");
            ensure!(r == Err(E::Injected), "serializer-error-lost", "{kind:?} {}: serializer failed, caller saw {r:?}", show(&m.text.0));
            ensure!(got.borrow().is_empty(), "serialized-other-text", "{kind:?} {}: {:?} after an error", show(&m.text.0), got.borrow());
        } else {
            ensure!(r == Ok(()) && *got.borrow() == [format!("={s}")], "serialized-other-text",
                "{kind:?} {} reached the serializer as {:?} ({r:?})", show(&m.text.0), got.borrow());
        }
        // Onto a byte stream.
        let want = format!("\"{s}\"");
        let mut w = SimWriter::new(&m.write);
        let r = if m.owned { serde_json::to_writer(&mut w, &owned) } else { serde_json::to_writer(&mut w, v) };
        c.checks += 1;
        c.ops += 2;
        let f = w.fired();
        count(c, f, true);
        c.ev("wrote", &w.data);
        ensure!(want.as_bytes().starts_with(&w.data), "serialized-other-text", "{kind:?} {}: stream holds {}", show(&m.text.0), show(&w.data));
        if f.fail + f.end > 0 {
            ensure!(r.is_err(), "stream-error-lost", "{kind:?} {}: write failed after {} bytes, caller saw success", show(&m.text.0), w.data.len());
        } else {
            ensure!(r.is_ok() && w.data == want.as_bytes(), "serialized-other-text",
                "{kind:?} {}: nothing failed, stream holds {} ({r:?})", show(&m.text.0), show(&w.data));
            // No fault at all: it must come back, borrowed and owned.
            let back = serde_json::from_slice::<T::O>(&w.data);
            ensure!(back.as_ref().is_ok_and(|b| T::otext(b) == s), "no-round-trip",
                "{kind:?} {} came back as {back:?}", show(&m.text.0));
            let mut d = serde_json::Deserializer::from_slice(&w.data);
            let b = T::de_borrowed(&mut d);
            ensure!(b.as_ref().is_ok_and(|b| T::text(b) == s), "no-round-trip", "borrowed {kind:?} {} came back as {:?}",
                show(&m.text.0), b.map(|b| T::text(b).to_owned()));
        }
        // What is on the medium: the torn message when the write failed.
        json = if f.fail + f.end > 0 { w.data } else { want.into_bytes() };
        c.nontrivial = true;
    } else {
        // Another program wrote this one.
        json.extend_from_slice(&m.text.0);
        json.push(b'"');
        c.probe("message from another program");
    }
    for d in &m.damage {
        let n = json.len();
        if n == 0 {
            break;
        }
        match d {
            Corrupt::Flip { at, bit } => {
                json[*at as usize % n] ^= 1 << (bit % 8);
                c.fault("bit flipped in transit");
            }
            Corrupt::Set { at, to } => {
                json[*at as usize % n] = *to;
                c.fault("byte replaced in transit");
            }
            Corrupt::Cut { at } => {
                json.truncate(*at as usize % n);
                c.fault("message cut");
            }
            Corrupt::Drop { at, n: k } => {
                let s = *at as usize % n;
                json.drain(s..(s + *k as usize).min(n));
                c.fault("bytes lost in transit");
            }
            Corrupt::Insert { at, b } => {
                let s = *at as usize % n;
                json.splice(s..s, b.0.iter().copied());
                c.fault("bytes inserted in transit");
            }
            Corrupt::Escape { at, how } => {
                let i = *at as usize % n;
                let b = json[i];
                let e = match how % 4 {
                    0 | 1 => format!("\\u{:04x}", b).into_bytes(),
                    2 => format!("\\u{:04X}", 0x100 + b as u32).into_bytes(),
                    _ => model::reencode(b, how >> 2),
                };
                json.splice(i..i + 1, e);
                c.fault("character re-encoded in transit");
            }
        }
    }
    c.ev("medium", &json);
    // Owned, from a stream; a plain string read through an identical stream tells what was received.
    let mut tw = SimReader::new(&json, &m.read);
    let twin: Result<String, _> = serde_json::from_reader(&mut tw);
    let mut rd = SimReader::new(&json, &m.read);
    let got: Result<T::O, _> = serde_json::from_reader(&mut rd);
    count(c, rd.fired(), false);
    c.checks += 1;
    c.ops += 1;
    verdict("from_reader", kind, &got, |o| T::otext(o), twin.as_deref().ok(), true)?;
    // Over a value that is already there.
    if let Some(mut o) = T::parse(&m.text.0).filter(|_| model::accepts(kind, &m.text.0)).map(|v| v.to_owned()) {
        let mut rd = SimReader::new(&json, &m.read);
        let r = T::O::deserialize_in_place(&mut serde_json::Deserializer::from_reader(&mut rd), &mut o);
        c.probe("value overwritten by a message");
        in_place("in place", kind, r, T::otext(&o), &json, &m.read)?;
        let r = T::O::deserialize_in_place(Show { shape: &m.shape, data: &json, human: m.human }, &mut o);
        let t = T::otext(&o);
        ensure!(model::accepts(kind, t.as_bytes()), "deserialized-ill-formed", "in place ({r:?}): {kind:?} from {} left {}", show(&json), show(t.as_bytes()));
    }
    // Borrowed, from the received buffer.
    let twin = serde_json::from_slice::<&str>(&json);
    let mut d = serde_json::Deserializer::from_slice(&json);
    let got = T::de_borrowed(&mut d).and_then(|v| d.end().map(|_| v));
    c.checks += 1;
    verdict("from_slice (borrowed)", kind, &got, |o| T::text(o), twin.ok(), true)?;
    let twin = serde_json::from_slice::<String>(&json);
    let got = serde_json::from_slice::<T::O>(&json);
    verdict("from_slice", kind, &got, |o| T::otext(o), twin.as_deref().ok(), true)?;
    c.state(fnv(model::shape(kind as u8, &json), &[twin.is_ok() as u8, got.is_ok() as u8]));
    // Any shape a deserializer may present. Payload: the possibly damaged text.
    let payload: &[u8] = json.strip_prefix(b"\"").unwrap_or(&json);
    let payload = payload.strip_suffix(b"\"").unwrap_or(payload);
    let utf8 = std::str::from_utf8(payload).ok();
    let show_ = Show { shape: &m.shape, data: payload, human: m.human };
    let own = T::O::deserialize(show_);
    let bor = T::de_borrowed(show_);
    c.checks += 2;
    c.fault(match &m.shape {
        Shape::Str | Shape::Borrowed | Shape::String => "string delivered as transient, borrowed or owned",
        Shape::Bytes | Shape::BorrowedBytes | Shape::ByteBuf => "bytes delivered where a string is due",
        Shape::Fail => "deserializer error",
        _ => "another data shape delivered",
    });
    match carried(&m.shape) {
        Some(borrowed) => {
            verdict("deserializer", kind, &own, |o| T::otext(o), utf8, true)?;
            // A borrowed value can only be had from borrowed text.
            verdict("deserializer (borrowed)", kind, &bor, |o| T::text(o), utf8, borrowed)?;
        }
        None if matches!(m.shape, Shape::Fail) => {
            verdict("deserializer", kind, &own, |o| T::otext(o), None, false)?;
            verdict("deserializer (borrowed)", kind, &bor, |o| T::text(o), None, false)?;
        }
        // Not a string: whether the type takes it is its choice, but what it
        // gives must be well-formed, and the text received where there is one.
        None => {
            let ch = utf8.and_then(|t| t.chars().next()).map(|c| c.to_string());
            let texts = [utf8, ch.as_deref()];
            for (name, t) in [("deserializer", own.as_ref().ok().map(T::otext)), ("deserializer (borrowed)", bor.ok().map(T::text))] {
                let Some(t) = t else { continue };
                c.probe("non-string shape accepted");
                ensure!(model::accepts(kind, t.as_bytes()), "deserialized-ill-formed", "{name}: {kind:?} from {:?} gave {}", m.shape, show(t.as_bytes()));
                ensure!(texts.contains(&Some(t)), "deserialized-other-text", "{name}: {kind:?} from {:?} of {} gave {}", m.shape, show(payload), show(t.as_bytes()));
            }
        }
    }
    Ok(())
}

/// A map in document order: depends neither on the order nor on the hash of the keys.
struct Entries<O>(Vec<(O, u32)>);
impl<O: Serialize> Serialize for Entries<O> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.collect_map(self.0.iter().map(|e| (&e.0, &e.1)))
    }
}
impl<'de, O: Deserialize<'de>> Deserialize<'de> for Entries<O> {
    fn deserialize<D: de::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V<O>(std::marker::PhantomData<O>);
        impl<'de, O: Deserialize<'de>> Visitor<'de> for V<O> {
            type Value = Entries<O>;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                f.write_str("a map")
            }
            fn visit_map<A: de::MapAccess<'de>>(self, mut a: A) -> Result<Entries<O>, A::Error> {
                let mut v = vec![];
                while let Some(e) = a.next_entry()? {
                    v.push(e);
                }
                Ok(Entries(v))
            }
        }
        d.deserialize_map(V(std::marker::PhantomData))
    }
}

fn batch<T: Ty>(kind: K, keys: &[Bytes], stream: &Stream, c: &mut Ctx) -> R {
    // A document holding tags as list items, optional items and map keys.
    let mut list: Vec<Option<T::O>> = vec![];
    let mut map = Entries::<T::O>(vec![]);
    for (i, k) in keys.iter().enumerate() {
        if !model::accepts(kind, &k.0) {
            continue;
        }
        let Ok(s) = String::from_utf8(k.0.clone()) else { continue };
        let Some(o) = T::parse_own(s) else {
            fail!("no-round-trip", "{kind:?} {} refused", show(&k.0))
        };
        map.0.push((o.clone(), i as u32));
        list.push(Some(o));
        list.push(None);
    }
    if list.is_empty() {
        return Ok(());
    }
    let mut w = SimWriter::new(stream);
    let r = serde_json::to_writer(&mut w, &(&list, &map));
    c.ops += list.len() as u64;
    let f = w.fired();
    count(c, f, true);
    if f.fail + f.end > 0 {
        ensure!(r.is_err(), "stream-error-lost", "document of {kind:?}: write failed, caller saw success");
        return Ok(());
    }
    ensure!(r.is_ok(), "no-round-trip", "document of {kind:?} not written: {r:?}");
    // Cut it in pieces on the way back.
    let mut s = stream.clone();
    s.fail = None;
    let mut rd = SimReader::new(&w.data, &s);
    let back: Result<(Vec<Option<T::O>>, Entries<T::O>), _> = serde_json::from_reader(&mut rd);
    count(c, rd.fired(), false);
    c.checks += 1;
    match back {
        Ok((l, m)) => {
            let same = l.len() == list.len()
                && l.iter().zip(&list).all(|(a, b)| a.as_ref().map(T::otext) == b.as_ref().map(T::otext))
                && m.0.len() == map.0.len()
                && m.0.iter().zip(&map.0).all(|(a, b)| T::otext(&a.0) == T::otext(&b.0) && a.1 == b.1);
            ensure!(same, "no-round-trip", "document of {kind:?} changed: {} came back as {l:?} {:?}", show(&w.data), m.0);
        }
        Err(e) => fail!("no-round-trip", "document of {kind:?} {} not read back: {e}", show(&w.data)),
    }
    c.probe("document round-trip");
    Ok(())
}

impl World for C02 {
    const META: Meta = Meta {
        id: "C02",
        quick: 2_000_000,
        thorough: 6_000_000,
        batch: 4_000,
        threads: false,
        nests: false,
        survey: 0,
        rule: "one run = up to 6 messages (a tag or component each) serialized over a simulated stream, damaged in transit and \
               deserialized, owned and borrowed, plus one document of many and one log in a compact format that does not describe itself; non-trivial: at least one fault fired and at least \
               one well-formed value was serialized; distinct by the hash of the full event log",
        states: "distinct (kind, shape of the received document, string received or not, accepted or not)",
        interleavings: "distinct event logs",
        real: &["serde implementations of all 15 types and their owned forms", "serde_json reader and writer"],
        stub: &["byte streams (short, interrupted, failing, ending)", "medium (corruption)", "a recording Serializer and a Deserializer presenting any shape", "a compact binary format"],
        assumptions: &["serde_json reads a String correctly (used as the twin)", "reference RFC 5646 grammar"],
    };
    type Plan = Plan;

    fn gen(r: &mut Rng, env: Env) -> Plan {
        let st = Style::new(r);
        let mut msgs = vec![];
        let quiet = r.chance(1, 6);
        for _ in 0..r.range(1, 6) {
            let kind = r.u8() % 15;
            let k = model::kind(kind);
            let text = match r.below(12) {
                0 => model::wild(r),
                1 | 2 => {
                    let t = st.text(r, k);
                    model::mutate(r, t.as_bytes())
                }
                3 if r.chance(1, 4) => {
                    let max = if env.tier == Tier::Thorough { Style::reach(r, env.tier) } else { Style::reach(r, env.tier).min(6000) };
                    st.long_text(r, k, max).into_bytes()
                }
                _ => st.text(r, k).into_bytes(),
            };
            let n = text.len() + 2;
            let mut damage = vec![];
            if !quiet && r.chance(1, 2) {
                for _ in 0..1 + r.small(1, 3) {
                    let at = r.below(n) as u16;
                    damage.push(match r.below(8) {
                        0 | 1 => Corrupt::Flip { at, bit: r.below(8) as u8 },
                        2 => Corrupt::Set { at, to: if r.chance(1, 2) { r.u8() } else { *r.pick(b"-xX@[`{/:aZ09\"\\ ") } },
                        3 => Corrupt::Cut { at },
                        4 => Corrupt::Drop { at, n: r.range(1, 4) as u8 },
                        5 => Corrupt::Insert { at, b: Bytes(model::wild(r)) },
                        _ => Corrupt::Escape { at, how: r.u8() },
                    });
                }
            }
            let (mut write, mut read) = (gen_stream(r, n), gen_stream(r, n));
            if quiet || r.chance(1, 2) {
                write.fail = None;
            }
            if quiet || r.chance(1, 2) {
                read.fail = None;
            }
            msgs.push(Msg {
                kind,
                text: Bytes(text),
                owned: r.chance(1, 2),
                write,
                refuse: !quiet && r.chance(1, 6),
                damage,
                read,
                shape: gen_shape(r, 0),
                human: r.chance(1, 2),
            });
        }
        let batch = r.u8() % 15;
        let mut keys = vec![];
        if r.chance(1, 4) {
            for _ in 0..r.range(1, 6) {
                keys.push(Bytes::from(st.text(r, model::kind(batch))));
            }
        }
        let mut stream = gen_stream(r, 60);
        if r.chance(2, 3) {
            stream.fail = None;
        }
        let mut damage = vec![];
        if !quiet && r.chance(1, 2) {
            for _ in 0..r.range(1, 3) {
                let span = *r.pick(&[24, 200]);
                damage.push((r.below(span) as u16, r.u8()));
            }
        }
        Plan { msgs, batch, keys, stream, pack: PackPlan { owned: r.u8(), damage } }
    }

    fn exec(p: &Plan, c: &mut Ctx) -> R {
        for m in &p.msgs {
            let k = model::kind(m.kind);
            c.sim_ms += 10;
            c.ev("message", &m.text.0);
            dispatch!(k, T => message::<T>(m, k, c))?;
        }
        let k = model::kind(p.batch);
        dispatch!(k, T => batch::<T>(k, &p.keys, &p.stream, c))?;
        dispatch!(k, T => compact::<T>(k, &p.keys, &p.pack, c))?;
        c.nontrivial &= c.fired > 0;
        let _ = FNV0;
        Ok(())
    }
}
