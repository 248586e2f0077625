//! What a device does with the borrowed types, the same on every build of the
//! library: receive buffers, open cursors, and answers of bytes. Uses `core` only.
use core::fmt::{self, Write};
use core::hash::{Hash, Hasher};
use langtag::*;
use serde::de::{self, Visitor};
use serde::ser::{self, Impossible};
use serde::{Deserialize, Deserializer, Serialize, Serializer};

pub const SLOTS: usize = 4;
pub const ROOM: usize = 1500;
pub const CURSORS: usize = 6;
pub const OPS: u8 = 15;

#[repr(C)]
#[derive(Clone, Copy, Debug)]
pub struct Request {
    pub op: u8,
    pub slot: u8,
    pub other: u8,
    pub kind: u8,
    pub arg: u8,
    /// How much a sink takes before it fails.
    pub cap: u16,
}

/// The answer: what does not fit is counted and dropped.
struct Out<'a> {
    buf: &'a mut [u8],
    n: usize,
}
impl Out<'_> {
    fn bytes(&mut self, b: &[u8]) {
        for b in b {
            if let Some(p) = self.buf.get_mut(self.n) {
                *p = *b;
            }
            self.n += 1;
        }
    }
    fn byte(&mut self, b: u8) {
        self.bytes(&[b])
    }
    fn num(&mut self, n: usize) {
        self.bytes(&(n as u32).to_le_bytes())
    }
    fn order(&mut self, o: core::cmp::Ordering) {
        self.byte(b'1'.wrapping_add(o as i8 as u8))
    }
    /// A part of `all`: where it lies, and the bytes.
    fn part(&mut self, all: &[u8], p: Option<&[u8]>) {
        match p {
            None => self.byte(b'-'),
            Some(p) => {
                let at = (p.as_ptr() as usize).wrapping_sub(all.as_ptr() as usize);
                if p.is_empty() {
                    self.byte(b'e')
                } else if at <= all.len() {
                    self.byte(b'@');
                    self.num(at)
                } else {
                    self.byte(b'c')
                }
                self.num(p.len());
                self.bytes(p);
            }
        }
    }
}

struct Sink<'a, 'b> {
    out: &'a mut Out<'b>,
    left: usize,
}
impl fmt::Write for Sink<'_, '_> {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let n = s.len().min(self.left);
        self.out.bytes(&s.as_bytes()[..n]);
        self.left -= n;
        if n < s.len() {
            self.out.byte(b'!');
            return Err(fmt::Error);
        }
        Ok(())
    }
}

struct Fnv(u64, u32);
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        self.1 += 1;
        for b in b {
            self.0 = (self.0 ^ *b as u64).wrapping_mul(0x100_0000_01b3);
        }
    }
}

enum Cursor {
    None,
    Variants(VariantsIter<'static>),
    Extensions(ExtensionsIter<'static>),
    Extension(ExtensionIter<'static>),
    Private(PrivateUseIter<'static>),
    Extlangs(LanguageExtensionIter<'static>),
}

pub struct Device {
    slots: [[u8; ROOM]; SLOTS],
    /// Where the text lies in each slot.
    lies: [(usize, usize); SLOTS],
    cursors: [(usize, Cursor); CURSORS],
}

macro_rules! kinds {
    ($k:expr, $T:ident => $e:expr) => {
        match $k % 15 {
            0 => { type $T = LangTag; $e }
            1 => { type $T = NormalLangTag; $e }
            2 => { type $T = PrivateUse; $e }
            3 => { type $T = PrivateUseSubtag; $e }
            4 => { type $T = Language; $e }
            5 => { type $T = PrimaryLanguage; $e }
            6 => { type $T = LanguageExtension; $e }
            7 => { type $T = ExtendedLangTag; $e }
            8 => { type $T = Script; $e }
            9 => { type $T = Region; $e }
            10 => { type $T = Variant; $e }
            11 => { type $T = Variants; $e }
            12 => { type $T = Extension; $e }
            13 => { type $T = ExtensionSubtag; $e }
            _ => { type $T = Extensions; $e }
        }
    };
}

fn kind_of(k: Kind) -> u8 {
    (match k {
        Kind::Normal => 0,
        Kind::PrivateUse => 1,
        Kind::Grandfathered => 2,
    }) | (k.is_normal() as u8) << 4
        | (k.is_private_use() as u8) << 5
        | (k.is_grandfathered() as u8) << 6
}

impl Device {
    pub fn new() -> Self {
        Device { slots: [[0; ROOM]; SLOTS], lies: [(0, 0); SLOTS], cursors: [const { (0, Cursor::None) }; CURSORS] }
    }

    fn text(&self, slot: u8) -> &[u8] {
        let s = slot as usize % SLOTS;
        let (at, n) = self.lies[s];
        &self.slots[s][at..at + n]
    }

    /// The answer's length, even if it does not fit.
    pub fn serve(&mut self, q: &Request, sent: &[u8], buf: &mut [u8]) -> usize {
        let mut out = Out { buf, n: 0 };
        let o = &mut out;
        match q.op % OPS {
            0 => self.receive(q, sent),
            1 => parse(q, self.text(q.slot), o),
            2 => errors(q, self.text(q.slot), o),
            3 => queries(q, self.text(q.slot), o),
            4 => normal(self.text(q.slot), o),
            5 => self.open(q, o),
            6 | 7 => self.step(q, o),
            8 => compare(q, self.text(q.slot), self.text(q.other), o),
            9 => hash(q, self.text(q.slot), o),
            10 => format(q, self.text(q.slot), o),
            11 => singleton(q, self.text(q.slot), o),
            12 => grandfathered(q, self.text(q.slot), self.text(q.other), o),
            13 => walk(q, self.text(q.slot), o),
            _ => formats(q, self.text(q.slot), o),
        }
        out.n
    }

    /// A receive buffer is overwritten: the cursors over it are closed first.
    fn receive(&mut self, q: &Request, sent: &[u8]) {
        let s = q.slot as usize % SLOTS;
        for c in &mut self.cursors {
            if c.0 == s {
                c.1 = Cursor::None;
            }
        }
        let at = q.arg as usize % 16;
        let n = sent.len().min(ROOM - at);
        self.slots[s] = [q.kind; ROOM];
        self.slots[s][at..at + n].copy_from_slice(&sent[..n]);
        self.lies[s] = (at, n);
    }

    fn open(&mut self, q: &Request, o: &mut Out) {
        let s = q.slot as usize % SLOTS;
        // SAFETY: the device is not moved while cursors are open, and the cursors
        // over a slot are closed before it is overwritten.
        let t: &'static [u8] = unsafe { core::mem::transmute(self.text(q.slot)) };
        let letter = b"abctuvz05AUT"[q.arg as usize / 8 % 12];
        let c = match q.kind % 15 {
            2 => PrivateUse::new(t).map_or(Cursor::None, |p| Cursor::Private(p.iter())),
            4 => Language::new(t).map_or(Cursor::None, |p| Cursor::Extlangs(p.extension_subtags())),
            6 => LanguageExtension::new(t).map_or(Cursor::None, |p| Cursor::Extlangs(p.iter())),
            11 => Variants::new(t).map_or(Cursor::None, |p| Cursor::Variants(p.iter())),
            12 => Extension::new(t).map_or(Cursor::None, |p| Cursor::Extension(p.iter())),
            14 => match (Extensions::new(t), Singleton::new(letter)) {
                (Ok(e), Ok(l)) if q.arg & 1 == 0 => Cursor::Extension(e.iter_extension(l)),
                (Ok(e), _) => Cursor::Extensions(e.iter()),
                _ => Cursor::None,
            },
            _ => match (LangTag::new(t), q.arg % 8) {
                (Ok(t), 0..=2) => Cursor::Variants(t.variants().iter()),
                (Ok(t), 3) => Cursor::Extensions(t.extensions().iter()),
                (Ok(t), 4) => Singleton::new(letter).map_or(Cursor::None, |l| Cursor::Extension(t.extensions().iter_extension(l))),
                (Ok(t), 5 | 6) => Cursor::Private(t.private_use_subtags()),
                (Ok(t), _) => t.language().map_or(Cursor::None, |l| Cursor::Extlangs(l.extension_subtags())),
                _ => match q.arg % 5 {
                    0 => Cursor::Variants(VariantsIter::empty()),
                    1 => Cursor::Private(PrivateUseIter::empty()),
                    2 => Cursor::Extension(ExtensionIter::empty()),
                    3 => Cursor::Extlangs(LanguageExtensionIter::empty()),
                    _ => Cursor::None,
                },
            },
        };
        o.byte(matches!(c, Cursor::None) as u8);
        self.cursors[q.other as usize % CURSORS] = (s, c);
    }

    fn step(&mut self, q: &Request, o: &mut Out) {
        let (s, c) = &mut self.cursors[q.other as usize % CURSORS];
        let (at, n) = self.lies[*s];
        let all = &self.slots[*s][at..at + n];
        fn forward<'a, I: Iterator>(i: &mut I, how: u8, all: &[u8], o: &mut Out, f: impl Fn(I::Item) -> &'a [u8]) {
            match how % 8 {
                0..=3 => o.part(all, i.next().map(f)),
                4 => o.part(all, i.nth(how as usize / 8 % 4).map(f)),
                5 => {
                    let end = i.any(|x| {
                        let b = f(x);
                        o.part(all, Some(b));
                        b.len() % 3 == 0
                    });
                    o.byte(end as u8);
                }
                6 => {
                    let (lo, hi) = i.size_hint();
                    let mut n = 0;
                    while n < 3 {
                        n += 1;
                        o.part(all, i.next().map(&f));
                    }
                    o.num(lo);
                    o.num(hi.unwrap_or(usize::MAX));
                }
                _ => {
                    let n = i.by_ref().take(ROOM).map(|x| o.part(all, Some(f(x)))).count();
                    o.num(n);
                }
            }
        }
        match c {
            Cursor::None => o.byte(b'?'),
            Cursor::Variants(i) if q.arg & 0x80 != 0 => match q.arg % 8 {
                0..=3 => o.part(all, i.next_back().map(|x| x.as_bytes())),
                4 => o.part(all, i.nth_back(q.arg as usize / 8 % 4).map(|x| x.as_bytes())),
                5 => o.part(all, i.rfind(|x| x.as_bytes().len() % 3 == 0).map(|x| x.as_bytes())),
                6 => {
                    o.part(all, i.next().map(|x| x.as_bytes()));
                    o.part(all, i.next_back().map(|x| x.as_bytes()));
                }
                _ => {
                    let n = i.by_ref().rev().take(ROOM).map(|x| o.part(all, Some(x.as_bytes()))).count();
                    o.num(n);
                }
            },
            Cursor::Variants(i) => forward(i, q.arg, all, o, |x| x.as_bytes()),
            Cursor::Extensions(i) => forward(i, q.arg, all, o, |x| x.as_bytes()),
            Cursor::Extension(i) => forward(i, q.arg, all, o, |x| x.as_bytes()),
            Cursor::Private(i) => forward(i, q.arg, all, o, |x| x.as_bytes()),
            Cursor::Extlangs(i) => forward(i, q.arg, all, o, |x| x.as_bytes()),
        }
    }
}

fn parse(q: &Request, t: &[u8], o: &mut Out) {
    kinds!(q.kind, T => {
        o.byte(T::validate_bytes(t) as u8);
        o.part(t, T::new(t).ok().map(|v| v.as_bytes()));
        o.part(t, T::from_bytes(t).ok().map(|v| v.as_str().as_bytes()));
        o.part(t, <&T>::try_from(t).ok().map(|v| AsRef::<[u8]>::as_ref(v)));
        if let Ok(s) = core::str::from_utf8(t) {
            o.byte(T::validate_str(s) as u8);
            o.part(t, T::new(s).ok().map(|v| v.as_bytes()));
            o.part(t, T::from_str(s).ok().map(|v| AsRef::<str>::as_ref(v).as_bytes()));
            o.part(t, <&T>::try_from(s).ok().map(|v| <&str>::from(v).as_bytes()));
        }
    })
}

fn errors(q: &Request, t: &[u8], o: &mut Out) {
    kinds!(q.kind, T => {
        if let Err(e) = T::new(t) {
            o.part(t, Some(e.0));
        }
        if let Some(e) = core::str::from_utf8(t).ok().and_then(|s| T::new(s).err()) {
            o.part(t, Some(e.0.as_bytes()));
            let mut s = Sink { out: o, left: q.cap as usize };
            let r = if q.arg & 1 == 0 { write!(s, "{e}") } else { write!(s, "{e:?}") };
            o.byte(r.is_err() as u8);
        }
    })
}

fn queries(q: &Request, t: &[u8], o: &mut Out) {
    let Ok(g) = LangTag::new(t) else { return o.byte(b'?') };
    let letter = if q.arg < 128 { q.arg } else { b"aAbBuUtTvV0159zZxX"[q.arg as usize % 18] };
    match q.cap % 16 {
        0 => o.part(t, g.language().map(|x| x.as_bytes())),
        1 => o.part(t, g.language().map(|x| x.primary().as_bytes())),
        2 => o.part(t, g.language().and_then(|x| x.extension()).map(|x| x.as_bytes())),
        3 => o.part(t, g.script().map(|x| x.as_bytes())),
        4 => o.part(t, g.region().map(|x| x.as_bytes())),
        5 => o.part(t, Some(g.variants().as_bytes())),
        6 => o.part(t, Some(g.extensions().as_bytes())),
        7 => o.part(t, g.private_use().map(|x| x.as_bytes())),
        8 => o.bytes(&[kind_of(g.kind()), g.is_normal() as u8, g.is_private_use() as u8, g.is_grandfathered() as u8]),
        9 => {
            let y = g.as_typed();
            o.bytes(&[kind_of(y.kind()), y.is_normal() as u8, y.is_private_use() as u8, y.is_grandfathered() as u8]);
            o.part(t, y.language().map(|x| x.as_bytes()));
            o.part(t, y.as_normal().map(|x| x.as_bytes()));
            o.part(t, y.as_private_use().map(|x| x.as_bytes()));
            o.part(t, y.as_grandfathered().as_ref().map(|x| x.as_bytes()));
        }
        10 => {
            o.part(t, g.as_normal().map(|x| x.as_bytes()));
            o.part(t, g.as_private_use().map(|x| x.as_bytes()));
            o.part(t, g.as_grandfathered().as_ref().map(|x| x.as_bytes()));
        }
        11 => {
            o.part(t, g.variants().first().map(|x| x.as_bytes()));
            o.part(t, g.variants().last().map(|x| x.as_bytes()));
        }
        12 | 13 => match Singleton::new(letter) {
            Ok(s) => {
                let x = g.extensions().get(s);
                o.part(t, x.map(|x| x.as_bytes()));
                o.part(t, x.and_then(|x| x.iter().last()).map(|x| x.as_bytes()));
                o.byte(x.map_or(0, |x| x.singleton().unwrap()));
                o.num(g.extensions().iter_extension(s).count());
            }
            Err(e) => o.bytes(&[b'!', e.0]),
        },
        14 => o.part(t, g.private_use_subtags().nth(q.arg as usize % 4).map(|x| x.as_bytes())),
        _ => o.num(g.variants().iter().count() * 10_000 + g.extensions().iter().count() * 100 + g.private_use_subtags().count()),
    }
}

fn normal(t: &[u8], o: &mut Out) {
    let Ok(g) = NormalLangTag::new(t) else { return o.byte(b'?') };
    o.part(t, Some(g.language().as_bytes()));
    o.part(t, g.script().map(|x| x.as_bytes()));
    o.part(t, g.region().map(|x| x.as_bytes()));
    o.part(t, Some(g.variants().as_bytes()));
    o.part(t, Some(g.extensions().as_bytes()));
    o.part(t, g.private_use().map(|x| x.as_bytes()));
    o.num(g.private_use_subtags().count());
}

fn compare(q: &Request, t: &[u8], u: &[u8], o: &mut Out) {
    kinds!(q.kind, T => {
        let Ok(a) = T::new(t) else { return o.byte(b'?') };
        o.bytes(&[(*a == *u) as u8, (*a == u) as u8, (*u == *a) as u8]);
        o.byte(a.partial_cmp(u).map_or(9, |x| x as i8 as u8));
        if let Ok(s) = core::str::from_utf8(u) {
            o.bytes(&[(*a == *s) as u8, (*a == s) as u8, (*s == *a) as u8]);
            o.byte(a.partial_cmp(s).map_or(9, |x| x as i8 as u8));
            o.byte(s.partial_cmp(a).map_or(9, |x| x as i8 as u8));
        }
        if let Ok(b) = T::new(u) {
            o.order(a.cmp(b));
            o.order(b.cmp(a));
            o.byte(a.partial_cmp(b).map_or(9, |x| x as i8 as u8));
            o.bytes(&[(a == b) as u8, (a != b) as u8, (a < b) as u8, (a <= b) as u8, (a > b) as u8, (a >= b) as u8]);
        }
    })
}

fn hash(q: &Request, t: &[u8], o: &mut Out) {
    kinds!(q.kind, T => {
        let Ok(a) = T::new(t) else { return o.byte(b'?') };
        let mut h = Fnv(q.arg as u64, 0);
        a.hash(&mut h);
        o.bytes(&h.finish().to_le_bytes());
        o.num(h.1 as usize);
    })
}

fn format(q: &Request, t: &[u8], o: &mut Out) {
    kinds!(q.kind, T => {
        let Ok(a) = T::new(t) else { return o.byte(b'?') };
        let mut s = Sink { out: o, left: q.cap as usize };
        let r = match q.arg % 5 {
            0 => write!(s, "{a}"),
            1 => write!(s, "{a:?}"),
            2 => write!(s, "{a:>12}"),
            3 => write!(s, "{a:*^9.5}"),
            _ => write!(s, "[{a:#?}]"),
        };
        o.byte(r.is_err() as u8);
    })
}

fn singleton(q: &Request, t: &[u8], o: &mut Out) {
    let show = |s: Singleton, o: &mut Out| {
        o.byte(s.unwrap());
        o.bytes(&[(s == q.kind) as u8, (s == q.kind as char) as u8, (s == s.unwrap()) as u8]);
        let mut w = Sink { out: o, left: q.cap as usize % 4 };
        let r = write!(w, "{s}").is_err() as u8 | (write!(w, "{s:?}").is_err() as u8) << 1;
        o.byte(r);
        let mut h = Fnv(1, 0);
        s.hash(&mut h);
        o.bytes(&h.finish().to_le_bytes());
    };
    match Singleton::new(q.arg) {
        Ok(s) => show(s, o),
        Err(e) => o.bytes(&[b'!', e.0]),
    }
    let c = if q.cap & 1 == 0 { q.arg as char } else { char::from_u32(q.cap as u32 * 7).unwrap_or('-') };
    match Singleton::try_from(c) {
        Ok(s) => show(s, o),
        Err(e) => {
            o.num(e.0 as usize);
            o.byte(Singleton::try_from(q.arg).is_ok() as u8);
        }
    }
    let Ok(s) = core::str::from_utf8(t) else { return };
    let n = s.char_indices().nth(1 + (q.cap & 2) as usize).map_or(s.len(), |x| x.0);
    match Singleton::from_string(&s[..n]) {
        Ok(s) => show(s, o),
        Err(e) => {
            o.part(t, Some(e.0.as_bytes()));
            let mut w = Sink { out: o, left: q.cap as usize };
            let _ = if q.arg & 1 == 0 { write!(w, "{e}") } else { write!(w, "{e:?}") };
        }
    }
    if let (Ok(a), Ok(b)) = (Singleton::new(q.arg), Singleton::new(q.kind)) {
        o.order(a.cmp(&b));
        o.byte((a == b) as u8);
    }
}

fn grandfathered(q: &Request, t: &[u8], u: &[u8], o: &mut Out) {
    match GrandfatheredLangTag::new(t) {
        Ok(g) => {
            o.bytes(g.as_bytes());
            o.bytes(g.as_str().as_bytes());
            o.part(t, g.language().map(|x| x.as_bytes()));
            let mut w = Sink { out: o, left: q.cap as usize };
            let r = if q.arg & 1 == 0 { write!(w, "{g}") } else { write!(w, "{g:>15}") };
            o.byte(r.is_err() as u8);
            if let Ok(h) = GrandfatheredLangTag::new(u) {
                o.byte((g == h) as u8);
                o.order(g.cmp(&h));
            }
        }
        Err(e) => o.part(t, Some(e)),
    }
    match GrandfatheredLangTag::try_from(t) {
        Ok(g) => o.bytes(g.as_bytes()),
        Err(e) => {
            o.part(t, Some(e.0));
            if let Ok(s) = core::str::from_utf8(e.0) {
                let mut w = Sink { out: o, left: q.cap as usize };
                let e = InvalidGrandfatheredTag(s);
                let _ = if q.arg & 1 == 0 { write!(w, "{e}") } else { write!(w, "{e:?}") };
            }
        }
    }
}

/// Everything there is, of whatever kind it is.
fn walk(q: &Request, t: &[u8], o: &mut Out) {
    match q.kind % 15 {
        2 => PrivateUse::new(t).map_or((), |p| p.iter().for_each(|x| o.part(t, Some(x.as_bytes())))),
        4 => Language::new(t).map_or((), |l| {
            o.part(t, Some(l.primary().as_bytes()));
            o.part(t, l.extension().map(|x| x.as_bytes()));
            l.extension_subtags().for_each(|x| o.part(t, Some(x.as_bytes())));
        }),
        6 => LanguageExtension::new(t).map_or((), |p| p.iter().for_each(|x| o.part(t, Some(x.as_bytes())))),
        11 => Variants::new(t).map_or((), |p| {
            p.iter().for_each(|x| o.part(t, Some(x.as_bytes())));
            p.iter().rev().for_each(|x| o.part(t, Some(x.as_bytes())));
            o.part(t, p.first().map(|x| x.as_bytes()));
            o.part(t, p.last().map(|x| x.as_bytes()));
        }),
        12 => Extension::new(t).map_or((), |p| {
            o.byte(p.singleton().unwrap());
            p.iter().for_each(|x| o.part(t, Some(x.as_bytes())))
        }),
        14 => Extensions::new(t).map_or((), |p| {
            p.iter().for_each(|x| {
                o.part(t, Some(x.as_bytes()));
                o.part(t, p.get(x.singleton()).map(|y| y.as_bytes()));
                x.iter().for_each(|y| o.part(t, Some(y.as_bytes())));
            })
        }),
        _ => LangTag::new(t).map_or((), |g| {
            g.variants().iter().for_each(|x| o.part(t, Some(x.as_bytes())));
            g.extensions().iter().for_each(|x| x.iter().for_each(|y| o.part(t, Some(y.as_bytes()))));
            g.private_use_subtags().for_each(|x| o.part(t, Some(x.as_bytes())));
            if let Some(l) = g.language() {
                l.extension_subtags().for_each(|x| o.part(t, Some(x.as_bytes())))
            }
        }),
    }
}

/// What a data format that has no memory to spare reports: some of the message.
struct Error([u8; 200], usize);
impl Error {
    fn new(m: impl fmt::Display) -> Error {
        let mut buf = [0; 200];
        let mut out = Out { buf: &mut buf, n: 0 };
        let _ = write!(Sink { out: &mut out, left: 200 }, "{m}");
        let n = out.n.min(200);
        Error(buf, n)
    }
}
impl fmt::Debug for Error {
    fn fmt(&self, _: &mut fmt::Formatter) -> fmt::Result {
        Ok(())
    }
}
impl fmt::Display for Error {
    fn fmt(&self, _: &mut fmt::Formatter) -> fmt::Result {
        Ok(())
    }
}
impl core::error::Error for Error {}
impl de::Error for Error {
    fn custom<T: fmt::Display>(m: T) -> Self {
        Error::new(m)
    }
}
impl ser::Error for Error {
    fn custom<T: fmt::Display>(m: T) -> Self {
        Error::new(m)
    }
}

/// A data format over a buffer: presents it in one shape or another.
struct De<'de>(&'de [u8], u8);
impl<'de> Deserializer<'de> for De<'de> {
    type Error = Error;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        match (self.1 % 8, core::str::from_utf8(self.0)) {
            (0..=2, Ok(s)) => v.visit_borrowed_str(s),
            (3, Ok(s)) => v.visit_str(s),
            (4, _) => v.visit_borrowed_bytes(self.0),
            (5, _) => v.visit_bytes(self.0),
            (6, _) => v.visit_u64(self.0.len() as u64),
            (7, _) => v.visit_unit(),
            _ => Err(Error::new("not a text")),
        }
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct
        newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}

/// A data format that knows texts only.
struct Ser<'a, 'b>(Sink<'a, 'b>);
macro_rules! none {
    ($($f:ident($($t:ty),*);)*) => {$(fn $f(self $(, _: $t)*) -> Result<(), Error> { Err(Error::new(stringify!($f))) })*};
}
macro_rules! never {
    ($($f:ident($($t:ty),*) -> $r:ident;)*) => {$(fn $f(self $(, _: $t)*) -> Result<Self::$r, Error> { Err(Error::new(stringify!($f))) })*};
}
type No = Impossible<(), Error>;
impl Serializer for Ser<'_, '_> {
    type Ok = ();
    type Error = Error;
    type SerializeSeq = No;
    type SerializeTuple = No;
    type SerializeTupleStruct = No;
    type SerializeTupleVariant = No;
    type SerializeMap = No;
    type SerializeStruct = No;
    type SerializeStructVariant = No;
    fn serialize_str(mut self, s: &str) -> Result<(), Error> {
        self.0.write_str(s).map_err(Error::new)
    }
    fn collect_str<T: fmt::Display + ?Sized>(mut self, t: &T) -> Result<(), Error> {
        write!(self.0, "{t}").map_err(Error::new)
    }
    none! {
        serialize_bool(bool); serialize_i8(i8); serialize_i16(i16); serialize_i32(i32); serialize_i64(i64); serialize_u8(u8);
        serialize_u16(u16); serialize_u32(u32); serialize_u64(u64); serialize_f32(f32); serialize_f64(f64); serialize_char(char);
        serialize_bytes(&[u8]); serialize_none(); serialize_unit(); serialize_unit_struct(&'static str);
        serialize_unit_variant(&'static str, u32, &'static str);
    }
    never! {
        serialize_seq(Option<usize>) -> SerializeSeq; serialize_tuple(usize) -> SerializeTuple;
        serialize_tuple_struct(&'static str, usize) -> SerializeTupleStruct;
        serialize_tuple_variant(&'static str, u32, &'static str, usize) -> SerializeTupleVariant;
        serialize_map(Option<usize>) -> SerializeMap; serialize_struct(&'static str, usize) -> SerializeStruct;
        serialize_struct_variant(&'static str, u32, &'static str, usize) -> SerializeStructVariant;
    }
    fn serialize_some<T: Serialize + ?Sized>(self, t: &T) -> Result<(), Error> {
        t.serialize(self)
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, t: &T) -> Result<(), Error> {
        t.serialize(self)
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, _: u32, _: &'static str, t: &T) -> Result<(), Error> {
        t.serialize(self)
    }
}

/// Into and out of a data format.
fn formats(q: &Request, t: &[u8], o: &mut Out) {
    kinds!(q.kind, T => {
        match <&T>::deserialize(De(t, q.arg)) {
            Ok(v) => {
                o.part(t, Some(v.as_bytes()));
                let r = v.serialize(Ser(Sink { out: o, left: q.cap as usize }));
                o.byte(r.is_err() as u8);
            }
            Err(e) => o.bytes(&e.0[..e.1]),
        }
    })
}
