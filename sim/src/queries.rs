//! Queries on a tag, each checked against the reference decomposition.
//! On success nothing here allocates, so C08 can run it under refusal.
use crate::ctx::{show, R};
use crate::model::{self, Decomp, Span};
use crate::{ensure, fail};
use langtag::*;

/// What the reference model says about one text.
pub struct Facts {
    pub text: Vec<u8>,
    pub normal: Option<Decomp>,
    pub pu: Option<Vec<Span>>,
    pub gf: Option<&'static str>,
}

impl Facts {
    pub fn new(text: &[u8]) -> Facts {
        Facts {
            text: text.to_vec(),
            normal: model::normal(text),
            pu: model::private_use(text),
            gf: model::grandfathered(text),
        }
    }
    fn s(&self, p: Span) -> &[u8] {
        &self.text[p.0..p.1]
    }
    /// (normal, private use, grandfathered) as the classification order gives it.
    pub fn kind(&self) -> Kind {
        if self.normal.is_some() {
            Kind::Normal
        } else if self.pu.is_some() {
            Kind::PrivateUse
        } else {
            Kind::Grandfathered
        }
    }
}

pub const NQ: u8 = 24;
pub const NAMES: [&str; NQ as usize] = [
    "language", "primary", "extlang", "extlang subtags", "script", "region", "variants", "variants iter",
    "variants first/last", "extensions", "extensions iter", "extension get", "iter_extension", "private_use",
    "private_use_subtags", "kind predicates", "as_normal", "as_private_use", "as_grandfathered", "as_typed", "text",
    "normal scalar", "normal lists", "variants reversed",
];

const WRONG: &str = "wrong-answer";

struct Q<'a> {
    name: &'static str,
    f: &'a Facts,
    base: &'a [u8],
    loc: bool,
}

impl Q<'_> {
    #[cold]
    fn wrong(&self, got: &str, want: &str) -> R {
        fail!(WRONG, "{} of {} gave {got}, expected {want}", self.name, show(&self.f.text))
    }
    fn is(&self, got: &[u8], p: Span) -> R {
        let want = self.f.s(p);
        if got != want {
            return self.wrong(&show(got), &show(want));
        }
        if self.loc && !want.is_empty() {
            ensure!(
                got.as_ptr() as usize == self.base.as_ptr() as usize + p.0,
                "component-not-in-caller-text",
                "{} of {}: component {} does not lie at offset {} of the caller's text",
                self.name,
                show(&self.f.text),
                show(got),
                p.0
            );
        }
        Ok(())
    }
    fn opt(&self, got: Option<&[u8]>, want: Option<Span>) -> R {
        match (got, want) {
            (Some(g), Some(w)) => self.is(g, w),
            (None, None) => Ok(()),
            (Some(g), None) => self.wrong(&show(g), "none"),
            (None, Some(w)) => self.wrong("none", &show(self.f.s(w))),
        }
    }
    /// Items in order, then the end. A runaway iterator stops at the first surplus item.
    fn list<'x>(&self, got: impl Iterator<Item = &'x [u8]>, want: impl Iterator<Item = Span>) -> R {
        let mut want = want;
        for g in got {
            match want.next() {
                Some(w) => self.is(g, w)?,
                None => return self.wrong(&format!("a further item {}", show(g)), "the end"),
            }
        }
        match want.next() {
            Some(w) => self.wrong("the end", &format!("a further item {}", show(self.f.s(w)))),
            None => Ok(()),
        }
    }
    fn yes(&self, got: bool, want: bool, what: &str) -> R {
        if got != want {
            return self.wrong(&format!("{what} = {got}"), if want { "true" } else { "false" });
        }
        Ok(())
    }
    fn variants(&self, v: &Variants, d: Option<&Decomp>) -> R {
        self.is(v.as_bytes(), d.map(|d| d.variants_span).unwrap_or((0, 0)))
    }
    fn exts(&self, v: &Extensions, d: Option<&Decomp>) -> R {
        self.is(v.as_bytes(), d.map(|d| d.exts_span).unwrap_or((0, 0)))
    }
    fn pu_opt(&self, got: Option<&PrivateUse>) -> R {
        match &self.f.normal {
            Some(d) => self.opt(got.map(|p| p.as_bytes()), d.pu),
            // A tag that is private use as a whole: the API does not say
            // whether it is its own private use part; either is accepted.
            None => match got {
                Some(g) if self.f.pu.is_some() => self.is(g.as_bytes(), (0, self.f.text.len())),
                g => self.opt(g.map(|p| p.as_bytes()), None),
            },
        }
    }
    fn pu_iter(&self, mut it: PrivateUseIter<'_>) -> R {
        match &self.f.normal {
            Some(d) => self.list(it.map(|x| x.as_bytes()), d.pu_subtags.iter().copied()),
            None => match (it.next(), &self.f.pu) {
                (None, _) => Ok(()),
                (Some(g), Some(p)) => {
                    self.list(std::iter::once(g.as_bytes()).chain(it.map(|x| x.as_bytes())), p.iter().copied())
                }
                (Some(g), None) => self.wrong(&show(g.as_bytes()), "no item"),
            },
        }
    }
    fn ext_items(&self, mut it: ExtensionsIter<'_>, exts: &[model::Ext]) -> R {
        for e in exts {
            let Some(g) = it.next() else {
                return self.wrong("the end", &show(self.f.s(e.span)));
            };
            self.is(g.as_bytes(), e.span)?;
            self.yes(g.singleton().unwrap() == e.singleton, true, "singleton matches")?;
            self.list(g.iter().map(|x| x.as_bytes()), e.subtags.iter().copied())?;
        }
        match it.next() {
            Some(g) => self.wrong(&show(g.as_bytes()), "the end"),
            None => Ok(()),
        }
    }
}

/// The singleton a query with argument `arg` asks for, and the expected extension.
fn lookup(exts: &[model::Ext], arg: u8) -> (u8, Option<&model::Ext>) {
    let c = if arg & 1 == 0 && !exts.is_empty() {
        let c = exts[(arg >> 2) as usize % exts.len()].singleton;
        if arg & 2 != 0 && c.is_ascii_alphabetic() {
            c ^ 0x20
        } else {
            c
        }
    } else {
        const S: &[u8] = b"0123456789abcdefghijklmnopqrstuvwyzABCDEFGHIJKLMNOPQRSTUVWYZ";
        S[(arg >> 1) as usize % S.len()]
    };
    (c, exts.iter().find(|e| e.singleton.eq_ignore_ascii_case(&c)))
}

/// Runs query `q` on `tag`, whose text is `f.text`.
pub fn query(q: u8, arg: u8, tag: &LangTag, f: &Facts, loc: bool) -> R {
    let q = q % NQ;
    let x = Q { name: NAMES[q as usize], f, base: tag.as_bytes(), loc };
    let d = f.normal.as_ref();
    let no_exts: &[model::Ext] = &[];
    let exts = d.map(|d| &d.exts[..]).unwrap_or(no_exts);
    match q {
        0 => x.opt(tag.language().map(|l| l.as_bytes()), d.map(|d| d.language)),
        1 => x.opt(tag.language().map(|l| l.primary().as_bytes()), d.map(|d| d.primary)),
        2 => x.opt(tag.language().and_then(|l| l.extension()).map(|l| l.as_bytes()), d.and_then(|d| d.extlang)),
        3 => match tag.language() {
            None => x.opt(None, d.map(|d| d.language)),
            Some(l) => x.list(
                l.extension_subtags().map(|e| e.as_bytes()),
                d.map(|d| &d.extlangs[..]).unwrap_or(&[]).iter().copied(),
            ),
        },
        4 => x.opt(tag.script().map(|l| l.as_bytes()), d.and_then(|d| d.script)),
        5 => x.opt(tag.region().map(|l| l.as_bytes()), d.and_then(|d| d.region)),
        6 => x.variants(tag.variants(), d),
        7 => x.list(
            tag.variants().iter().map(|v| v.as_bytes()),
            d.map(|d| &d.variants[..]).unwrap_or(&[]).iter().copied(),
        ),
        8 => {
            let v = d.map(|d| &d.variants[..]).unwrap_or(&[]);
            x.opt(tag.variants().first().map(|v| v.as_bytes()), v.first().copied())?;
            x.opt(tag.variants().last().map(|v| v.as_bytes()), v.last().copied())
        }
        9 => x.exts(tag.extensions(), d),
        10 => x.ext_items(tag.extensions().iter(), exts),
        11 => {
            let (c, want) = lookup(exts, arg);
            let Ok(s) = Singleton::new(c) else {
                fail!(WRONG, "Singleton::new({:?}) refused", c as char)
            };
            x.opt(tag.extensions().get(s).map(|e| e.as_bytes()), want.map(|e| e.span))
        }
        12 => {
            let (c, want) = lookup(exts, arg);
            let Ok(s) = Singleton::new(c) else {
                fail!(WRONG, "Singleton::new({:?}) refused", c as char)
            };
            x.list(
                tag.extensions().iter_extension(s).map(|e| e.as_bytes()),
                want.map(|e| &e.subtags[..]).unwrap_or(&[]).iter().copied(),
            )
        }
        13 => x.pu_opt(tag.private_use()),
        14 => x.pu_iter(tag.private_use_subtags()),
        15 => {
            let k = f.kind();
            x.yes(tag.is_normal(), d.is_some(), "is_normal")?;
            x.yes(tag.is_private_use(), k == Kind::PrivateUse, "is_private_use")?;
            x.yes(tag.is_grandfathered(), f.gf.is_some(), "is_grandfathered")?;
            if tag.kind() != k {
                return x.wrong(&format!("kind {:?}", tag.kind()), &format!("{k:?}"));
            }
            x.yes(k.is_normal(), d.is_some(), "Kind::is_normal")?;
            x.yes(k.is_private_use(), d.is_none() && f.pu.is_some(), "Kind::is_private_use")?;
            x.yes(k.is_grandfathered(), d.is_none() && f.pu.is_none(), "Kind::is_grandfathered")
        }
        16 => x.opt(tag.as_normal().map(|n| n.as_bytes()), d.map(|_| (0, f.text.len()))),
        17 => {
            let p = tag.as_private_use();
            x.opt(p.map(|n| n.as_bytes()), f.pu.as_ref().map(|_| (0, f.text.len())))?;
            if let (Some(p), Some(w)) = (p, &f.pu) {
                x.list(p.iter().map(|s| s.as_bytes()), w.iter().copied())?;
            }
            Ok(())
        }
        18 => grandfathered(&x, tag.as_grandfathered(), f),
        19 => {
            let t = tag.as_typed();
            let k = f.kind();
            if t.kind() != k {
                return x.wrong(&format!("kind {:?}", t.kind()), &format!("{k:?}"));
            }
            x.yes(t.is_normal(), k == Kind::Normal, "is_normal")?;
            x.yes(t.is_private_use(), k == Kind::PrivateUse, "is_private_use")?;
            x.yes(t.is_grandfathered(), k == Kind::Grandfathered, "is_grandfathered")?;
            let all = Some((0, f.text.len()));
            x.opt(t.as_normal().map(|n| n.as_bytes()), all.filter(|_| k == Kind::Normal))?;
            x.opt(t.as_private_use().map(|n| n.as_bytes()), all.filter(|_| k == Kind::PrivateUse))?;
            if k == Kind::Grandfathered {
                grandfathered(&x, t.as_grandfathered(), f)?;
            } else {
                x.yes(t.as_grandfathered().is_none(), true, "as_grandfathered is none")?;
            }
            x.opt(t.language().map(|l| l.as_bytes()), d.map(|d| d.language))
        }
        20 => {
            let all = (0, f.text.len());
            x.is(tag.as_str().as_bytes(), all)?;
            x.is(tag.as_bytes(), all)?;
            x.is(AsRef::<str>::as_ref(tag).as_bytes(), all)?;
            x.is(AsRef::<[u8]>::as_ref(tag), all)
        }
        21 | 22 => {
            let (Some(n), Some(d)) = (tag.as_normal(), d) else {
                return x.opt(tag.as_normal().map(|n| n.as_bytes()), d.map(|_| (0, f.text.len())));
            };
            if q == 21 {
                match arg % 5 {
                    0 => x.is(n.language().as_bytes(), d.language),
                    1 => x.opt(n.script().map(|l| l.as_bytes()), d.script),
                    2 => x.opt(n.region().map(|l| l.as_bytes()), d.region),
                    3 => x.is(n.language().primary().as_bytes(), d.primary),
                    _ => x.opt(n.private_use().map(|l| l.as_bytes()), d.pu),
                }
            } else {
                match arg % 5 {
                    0 => {
                        x.variants(n.variants(), Some(d))?;
                        x.list(n.variants().iter().map(|v| v.as_bytes()), d.variants.iter().copied())
                    }
                    1 => {
                        x.exts(n.extensions(), Some(d))?;
                        x.ext_items(n.extensions().iter(), &d.exts)
                    }
                    2 => x.pu_iter(n.private_use_subtags()),
                    3 => x.list(
                        n.language().extension_subtags().map(|v| v.as_bytes()),
                        d.extlangs.iter().copied(),
                    ),
                    _ => {
                        let (c, want) = lookup(&d.exts, arg / 5);
                        let Ok(s) = Singleton::new(c) else {
                            fail!(WRONG, "Singleton::new({:?}) refused", c as char)
                        };
                        x.opt(n.extensions().get(s).map(|e| e.as_bytes()), want.map(|e| e.span))
                    }
                }
            }
        }
        _ => x.list(
            tag.variants().iter().rev().map(|v| v.as_bytes()),
            d.map(|d| &d.variants[..]).unwrap_or(&[]).iter().rev().copied(),
        ),
    }
}

fn grandfathered(x: &Q, got: Option<GrandfatheredLangTag>, f: &Facts) -> R {
    match (got, f.gf) {
        (None, None) => Ok(()),
        (Some(g), None) => x.wrong(g.as_str(), "none"),
        (None, Some(w)) => x.wrong("none", w),
        (Some(g), Some(w)) => {
            if g.as_str() != w || g.as_bytes() != w.as_bytes() {
                return x.wrong(g.as_str(), w);
            }
            // Only regular ones have language subtags; the first is the primary.
            let want = model::is_regular(w.as_bytes()).then(|| &w[..w.find('-').unwrap_or(w.len())]);
            match (g.language(), want) {
                (None, None) => Ok(()),
                (Some(l), Some(p)) if l.primary().as_str() == p => Ok(()),
                (l, p) => x.wrong(&format!("language {:?}", l.map(|l| l.as_str())), &format!("{p:?}")),
            }
        }
    }
}
