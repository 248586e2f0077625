//! C05: cursors over the lists of a tag, stepped in any interleaving.
use crate::fine::{self, Point};
use crate::ctx::{show, Ctx, R, V};
use crate::model::{self, Decomp, Style, K};
use crate::rng::{fnv, Rng, FNV0};
use crate::sched;
use crate::seams::{place, Bytes};
use crate::world::{guarded, ENDLESS, Meta, Env, World};
use crate::{ensure, fail};
use langtag::*;
use serde::{Deserialize, Serialize};
use std::collections::VecDeque;

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Open {
    text: u8,
    /// Which list, and by which route it is reached.
    list: u8,
    route: u8,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Do {
    Next,
    Back,
    Nth(u8),
    NthBack(u8),
    /// The first `n` of what is left, through an adapter.
    Take(u8),
    TakeBack(u8),
    SizeHint,
    /// Runs to the end.
    Drain,
    DrainBack,
    Last,
    Count,
    Fold,
    Rfold,
    /// Looks for the `k`-th of what is left, by one of the ways that are cut short where it is found.
    Search { how: u8, k: u8, back: bool },
    /// All that is left, by one of the consuming ways.
    Use { how: u8, back: bool },
    /// Abandons the cursor.
    Drop,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Step {
    cur: u8,
    act: Do,
    /// Performed by another thread.
    moved: bool,
    /// Steps of other cursors that run when this one reaches its n-th preemption point.
    nested: Vec<(u8, u8, Do)>,
    /// They run when this one's execution reaches a point, instead.
    fine: Option<Point>,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Plan {
    /// (kind, text): a whole tag, or one list on its own.
    texts: Vec<(u8, Bytes)>,
    cursors: Vec<Open>,
    steps: Vec<Step>,
}

pub struct C05;

enum Iter<'a> {
    Var(VariantsIter<'a>),
    Exts(ExtensionsIter<'a>),
    Ext(ExtensionIter<'a>),
    Pu(PrivateUseIter<'a>),
    Lang(LanguageExtensionIter<'a>),
}

macro_rules! each {
    ($s:expr, $i:ident => $e:expr) => {
        match $s {
            Iter::Var($i) => $e,
            Iter::Exts($i) => $e,
            Iter::Ext($i) => $e,
            Iter::Pu($i) => $e,
            Iter::Lang($i) => $e,
        }
    };
}

struct Cursor<'a> {
    it: Option<Iter<'a>>,
    left: VecDeque<&'a [u8]>,
    item: K,
    ended: bool,
    name: String,
}

fn spans<'a>(t: &'a [u8], s: &[model::Span]) -> VecDeque<&'a [u8]> {
    s.iter().map(|p| &t[p.0..p.1]).collect()
}

fn lost(what: &str, t: &[u8]) -> V {
    V { class: "list-unavailable".into(), detail: format!("{what} of {}", show(t)) }
}

/// Opens a cursor: the iterator and the items it must deliver.
fn open<'a>(o: &Open, kind: K, t: &'a [u8]) -> Result<Option<Cursor<'a>>, V> {
    let done = |it, left, item, name: &str| {
        Ok(Some(Cursor { it: Some(it), left, item, ended: false, name: format!("{name} of {}", show(t)) }))
    };
    let text = std::str::from_utf8(t).map_err(|_| V { class: "harness".into(), detail: "text".into() })?;
    match kind {
        K::Variants => {
            let v = Variants::new(text).map_err(|_| lost("variants", t))?;
            done(Iter::Var(v.iter()), spans(t, &model::list(t)), K::Variant, "variants list")
        }
        K::Extlang => {
            let v = LanguageExtension::new(text).map_err(|_| lost("extlang", t))?;
            done(Iter::Lang(v.iter()), spans(t, &model::list(t)), K::ExtlangTag, "extlang list")
        }
        K::PrivateUse => {
            let v = PrivateUse::new(text).map_err(|_| lost("private use", t))?;
            let Some(p) = model::private_use(t) else { return Ok(None) };
            done(Iter::Pu(v.iter()), spans(t, &p), K::PrivateUseSubtag, "private use")
        }
        K::Extension => {
            let v = Extension::new(text).map_err(|_| lost("extension", t))?;
            let Some(e) = model::extensions(t).and_then(|e| e.into_iter().next()) else { return Ok(None) };
            done(Iter::Ext(v.iter()), spans(t, &e.subtags), K::ExtensionSubtag, "extension")
        }
        K::Extensions => {
            let v = Extensions::new(text).map_err(|_| lost("extensions", t))?;
            let Some(e) = model::extensions(t) else { return Ok(None) };
            let all: Vec<_> = e.iter().map(|e| e.span).collect();
            if o.list % 2 == 0 || e.is_empty() {
                return done(Iter::Exts(v.iter()), spans(t, &all), K::Extension, "extensions list");
            }
            let want = &e[o.route as usize % e.len()];
            let s = Singleton::new(want.singleton).map_err(|_| lost("singleton", t))?;
            let first = e.iter().find(|x| x.singleton.eq_ignore_ascii_case(&want.singleton)).unwrap_or(want);
            done(Iter::Ext(v.iter_extension(s)), spans(t, &first.subtags), K::ExtensionSubtag, "iter_extension")
        }
        _ => {
            let tag = LangTag::new(text).map_err(|_| lost("tag", t))?;
            let none = Decomp::default();
            let d = model::normal(t);
            let n = tag.as_normal();
            let normal = d.is_some();
            let d = d.as_ref().unwrap_or(&none);
            let by_normal = o.route & 1 == 1 && n.is_some();
            match o.list % 6 {
                0 => {
                    let it = match n {
                        Some(n) if by_normal => n.variants().iter(),
                        _ => tag.variants().iter(),
                    };
                    done(Iter::Var(it), spans(t, &d.variants), K::Variant, "variants")
                }
                1 => {
                    let it = match n {
                        Some(n) if by_normal => n.extensions().iter(),
                        _ => tag.extensions().iter(),
                    };
                    let all: Vec<_> = d.exts.iter().map(|e| e.span).collect();
                    done(Iter::Exts(it), spans(t, &all), K::Extension, "extensions")
                }
                2 => {
                    if d.exts.is_empty() {
                        let s = Singleton::new(b'a').map_err(|_| lost("singleton", t))?;
                        return done(Iter::Ext(tag.extensions().iter_extension(s)), VecDeque::new(), K::ExtensionSubtag, "iter_extension");
                    }
                    let i = (o.route >> 2) as usize % d.exts.len();
                    let want = &d.exts[i];
                    if o.route & 2 == 0 {
                        let e = tag.extensions().iter().nth(i).ok_or_else(|| lost("extension", t))?;
                        return done(Iter::Ext(e.iter()), spans(t, &want.subtags), K::ExtensionSubtag, "extension subtags");
                    }
                    let s = Singleton::new(want.singleton).map_err(|_| lost("singleton", t))?;
                    let first = d.exts.iter().find(|x| x.singleton.eq_ignore_ascii_case(&want.singleton)).unwrap_or(want);
                    done(Iter::Ext(tag.extensions().iter_extension(s)), spans(t, &first.subtags), K::ExtensionSubtag, "iter_extension")
                }
                3 => match (&d.pu, model::private_use(t)) {
                    (Some(_), _) => {
                        let it = match (n, o.route >> 1 & 1) {
                            (Some(n), 0) if by_normal => n.private_use_subtags(),
                            (_, 1) => tag.private_use().ok_or_else(|| lost("private use", t))?.iter(),
                            _ => tag.private_use_subtags(),
                        };
                        done(Iter::Pu(it), spans(t, &d.pu_subtags), K::PrivateUseSubtag, "private use subtags")
                    }
                    (None, Some(subs)) => {
                        let p = tag.as_private_use().ok_or_else(|| lost("private use tag", t))?;
                        done(Iter::Pu(p.iter()), spans(t, &subs), K::PrivateUseSubtag, "private use tag")
                    }
                    _ => done(Iter::Pu(tag.private_use_subtags()), VecDeque::new(), K::PrivateUseSubtag, "private use subtags"),
                },
                4 => match tag.language() {
                    Some(l) if normal => {
                        let it = match (l.extension(), by_normal) {
                            (Some(e), true) => e.iter(),
                            _ => l.extension_subtags(),
                        };
                        done(Iter::Lang(it), spans(t, &d.extlangs), K::ExtlangTag, "extended language subtags")
                    }
                    _ if normal => Err(lost("language", t)),
                    _ => done(Iter::Lang(LanguageExtensionIter::empty()), VecDeque::new(), K::ExtlangTag, "empty cursor"),
                },
                _ => {
                    let it = match o.route % 8 {
                        0 => Iter::Var(VariantsIter::empty()),
                        1 => Iter::Var(Default::default()),
                        2 => Iter::Ext(ExtensionIter::empty()),
                        3 => Iter::Ext(Default::default()),
                        4 => Iter::Pu(PrivateUseIter::empty()),
                        5 => Iter::Pu(Default::default()),
                        6 => Iter::Lang(LanguageExtensionIter::empty()),
                        _ => Iter::Lang(Default::default()),
                    };
                    done(it, VecDeque::new(), K::Variant, "empty cursor")
                }
            }
        }
    }
}

const BAD: &str = "wrong-item";

/// What is left according to the model, as an iterator with nothing but the plain steps.
struct Left<'a, 'b>(&'b mut VecDeque<&'a [u8]>);
impl<'a> Iterator for Left<'a, '_> {
    type Item = &'a [u8];
    fn next(&mut self) -> Option<&'a [u8]> {
        self.0.pop_front()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (0, None)
    }
}
impl<'a> DoubleEndedIterator for Left<'a, '_> {
    fn next_back(&mut self) -> Option<&'a [u8]> {
        self.0.pop_back()
    }
}

type Out = Vec<Option<Vec<u8>>>;
const FAR: usize = 200_000;

/// The items the closure was shown, and the answer.
struct Seen(Out);
impl Seen {
    fn take(&mut self, b: &[u8]) -> usize {
        if self.0.len() > FAR {
            panic!("{ENDLESS}");
        }
        self.0.push(Some(b.to_vec()));
        self.0.len() - 1
    }
    fn say(mut self, x: Option<impl std::fmt::Debug>) -> Out {
        self.0.push(x.map(|x| format!("{x:?}").into_bytes()));
        self.0
    }
    fn item(mut self, x: Option<impl AsRef<[u8]>>) -> Out {
        self.0.push(x.map(|x| x.as_ref().to_vec()));
        self.0
    }
}

/// The consumers that are cut short at the `k`-th item. Asked of the iterator
/// itself: each is a method it may have its own version of.
fn search<I: Iterator>(it: &mut I, how: u8, k: usize) -> Out
where
    I::Item: AsRef<[u8]>,
{
    let mut s = Seen(vec![]);
    match how % 10 {
        0 => {
            let r = it.all(|x| s.take(x.as_ref()) < k);
            s.say(Some(r))
        }
        1 => {
            let r = it.any(|x| s.take(x.as_ref()) >= k);
            s.say(Some(r))
        }
        2 => {
            let r = it.find(|x| s.take(x.as_ref()) >= k);
            s.item(r)
        }
        3 => {
            let r = it.find_map(|x| (s.take(x.as_ref()) >= k).then_some(x));
            s.item(r)
        }
        4 => {
            let r = it.position(|x| s.take(x.as_ref()) >= k);
            s.say(r)
        }
        5 => {
            let r = it.try_for_each(|x| if s.take(x.as_ref()) < k { Ok(()) } else { Err(k) });
            s.say(Some(r))
        }
        6 => {
            let r = it.try_fold(0, |n, x| if s.take(x.as_ref()) < k { Some(n + 1) } else { None });
            s.say(Some(r))
        }
        7 => {
            let n = it.by_ref().take_while(|x| s.take(x.as_ref()) < k).count();
            s.say(Some(n))
        }
        8 => {
            let r = it.by_ref().skip_while(|x| s.take(x.as_ref()) < k).next();
            s.item(r)
        }
        _ => {
            for x in it.by_ref().step_by(k % 3 + 1).take(k) {
                s.take(x.as_ref());
            }
            Seen(s.0).say(Some(()))
        }
    }
}

fn search_back<I: DoubleEndedIterator>(it: &mut I, how: u8, k: usize) -> Out
where
    I::Item: AsRef<[u8]>,
{
    let mut s = Seen(vec![]);
    match how % 4 {
        0 => {
            let r = it.rfind(|x| s.take(x.as_ref()) >= k);
            s.item(r)
        }
        1 => {
            let r = it.try_rfold(0, |n, x| if s.take(x.as_ref()) < k { Ok(n + 1) } else { Err(n) });
            s.say(Some(r))
        }
        _ => search(&mut it.by_ref().rev(), how / 4, k),
    }
}

/// The consumers that use an iterator up.
fn using<I: Iterator>(it: I, how: u8) -> Out
where
    I::Item: AsRef<[u8]>,
{
    let mut s = Seen(vec![]);
    match how % 12 {
        0 => {
            it.for_each(|x| _ = s.take(x.as_ref()));
            s.0
        }
        1 => it.fold(s, |mut s, x| {
            s.take(x.as_ref());
            s
        }).0,
        2 => {
            let (a, b): (Vec<_>, Vec<_>) = it.partition(|x| s.take(x.as_ref()) % 2 == 0);
            a.iter().chain(&b).for_each(|x| _ = s.take(x.as_ref()));
            s.0
        }
        3 => {
            let r = it.reduce(|a, b| {
                s.take(a.as_ref());
                b
            });
            s.item(r)
        }
        4 => {
            let r = it.max_by(|a, b| a.as_ref().cmp(b.as_ref()));
            s.item(r)
        }
        5 => {
            let r = it.min_by(|a, b| a.as_ref().cmp(b.as_ref()));
            s.item(r)
        }
        6 => {
            let r = it.max_by_key(|x| (x.as_ref().len(), s.take(x.as_ref()) % 3));
            s.item(r)
        }
        7 => {
            let r = it.min_by_key(|x| (x.as_ref().len(), s.take(x.as_ref()) % 3));
            s.item(r)
        }
        8 => {
            it.take(FAR).collect::<Vec<_>>().iter().for_each(|x| _ = s.take(x.as_ref()));
            s.0
        }
        9 => {
            let r = it.is_sorted_by(|a, b| a.as_ref().len() <= b.as_ref().len());
            s.say(Some(r))
        }
        10 => {
            let mut it = it.peekable();
            while let Some(x) = it.next_if(|_| true) {
                s.take(x.as_ref());
            }
            s.0
        }
        _ => {
            let r = it.enumerate().last().map(|(n, x)| {
                s.take(x.as_ref());
                n
            });
            s.say(r)
        }
    }
}

/// Performs one step on the real cursor: what came out, in order, `None` marking an end report.
fn real(cur: &mut Option<Iter>, act: &Do, limit: usize) -> Vec<Option<Vec<u8>>> {
    let Some(it) = cur else { return vec![] };
    let mut out = vec![];
    fn b(x: Option<&[u8]>) -> Option<Vec<u8>> {
        x.map(|x| x.to_vec())
    }
    match act {
        Do::Next => out.push(b(each!(it, i => i.next().map(|x| x.as_bytes())))),
        Do::Nth(n) => out.push(b(each!(it, i => i.nth(*n as usize).map(|x| x.as_bytes())))),
        Do::Take(n) => each!(it, i => out.extend(i.by_ref().take(*n as usize).map(|x| Some(x.as_bytes().to_vec())))),
        Do::Drain => each!(it, i => {
            for x in i.by_ref().take(limit) {
                out.push(Some(x.as_bytes().to_vec()))
            }
        }),
        Do::Last | Do::Count | Do::Fold | Do::Rfold | Do::SizeHint | Do::Drop | Do::Use { .. } => {}
        Do::Search { how, k, back: false } => return each!(it, i => search(i, *how, *k as usize)),
        Do::Search { how, k, back: true } => {
            if let Iter::Var(i) = it {
                return search_back(i, *how, *k as usize);
            }
        }
        Do::Back | Do::NthBack(_) | Do::TakeBack(_) | Do::DrainBack => {
            let Iter::Var(i) = it else { return out };
            match act {
                Do::Back => out.push(b(i.next_back().map(|x| x.as_bytes()))),
                Do::NthBack(n) => out.push(b(i.nth_back(*n as usize).map(|x| x.as_bytes()))),
                Do::TakeBack(n) => out.extend(i.by_ref().rev().take(*n as usize).map(|x| Some(x.as_bytes().to_vec()))),
                _ => {
                    for x in i.by_ref().rev().take(limit) {
                        out.push(Some(x.as_bytes().to_vec()))
                    }
                }
            }
        }
    }
    out
}

/// The same step on the model.
fn ideal(left: &mut VecDeque<&[u8]>, act: &Do, two_ended: bool, limit: usize) -> Vec<Option<Vec<u8>>> {
    let mut out = vec![];
    match act {
        Do::Next => out.push(left.pop_front()),
        Do::Nth(n) => {
            for _ in 0..*n {
                left.pop_front();
            }
            out.push(left.pop_front());
        }
        Do::Take(n) => {
            for _ in 0..*n {
                match left.pop_front() {
                    Some(x) => out.push(Some(x)),
                    None => break,
                }
            }
        }
        Do::Drain => {
            for _ in 0..limit {
                match left.pop_front() {
                    Some(x) => out.push(Some(x)),
                    None => break,
                }
            }
        }
        Do::Search { how, k, back: false } => return search(&mut Left(left), *how, *k as usize),
        _ if !two_ended => {}
        Do::Search { how, k, back: true } => return search_back(&mut Left(left), *how, *k as usize),
        Do::Back => out.push(left.pop_back()),
        Do::NthBack(n) => {
            for _ in 0..*n {
                left.pop_back();
            }
            out.push(left.pop_back());
        }
        Do::TakeBack(n) => {
            for _ in 0..*n {
                match left.pop_back() {
                    Some(x) => out.push(Some(x)),
                    None => break,
                }
            }
        }
        Do::DrainBack => {
            for _ in 0..limit {
                match left.pop_back() {
                    Some(x) => out.push(Some(x)),
                    None => break,
                }
            }
        }
        _ => {}
    }
    out.into_iter().map(|x| x.map(|x| x.to_vec())).collect()
}

fn judge(cur: &mut Cursor, act: &Do, got: &[Option<Vec<u8>>], want: &[Option<Vec<u8>>], c: &mut Ctx) -> R {
    c.checks += 1;
    for g in got.iter().flatten() {
        c.ev("item", g);
        if !cur.name.starts_with("empty") && !matches!(act, Do::Search { .. } | Do::Use { .. }) {
            ensure!(model::accepts(cur.item, g), "ill-formed-item", "{}: {act:?} delivered {}, not a {:?}", cur.name, show(g), cur.item);
        }
    }
    let f = |v: &[Option<Vec<u8>>]| {
        v.iter().map(|x| x.as_ref().map(|x| show(x)).unwrap_or("end".into())).collect::<Vec<_>>().join(" ")
    };
    if got != want {
        if cur.ended && got.iter().any(|x| x.is_some()) {
            fail!("item-after-end", "{}: {act:?} delivered {} after the end was reported", cur.name, f(got));
        }
        fail!(BAD, "{}: {act:?} delivered {}, expected {}", cur.name, f(got), f(want));
    }
    if want.contains(&None) {
        if cur.ended {
            c.probe("end reported again");
        }
        cur.ended = true;
    }
    Ok(())
}

/// One step with what it needs of the model; `nest` runs at preemption points.
fn step(cur: &mut Cursor, act: &Do, moved: bool, c: &mut Ctx, nest: Option<(Option<Point>, &mut dyn FnMut(&mut Ctx))>) -> R {
    c.ops += 1;
    if cur.it.is_none() {
        return Ok(());
    }
    let limit = cur.left.len() + 3;
    let two = matches!(cur.it, Some(Iter::Var(_)));
    match act {
        Do::Drop => {
            cur.it = None;
            c.fault("cursor abandoned");
            return Ok(());
        }
        Do::SizeHint => {
            let (lo, hi) = match &cur.it {
                Some(it) => each!(it, i => i.size_hint()),
                None => return Ok(()),
            };
            let n = cur.left.len();
            ensure!(lo <= n && hi.is_none_or(|h| n <= h), "wrong-size-hint", "{}: size_hint {:?} with {n} left", cur.name, (lo, hi));
            return Ok(());
        }
        Do::Last | Do::Count | Do::Fold | Do::Rfold | Do::Use { .. } => {
            // These consume the cursor. One that does not end is stopped where it passes a
            // hook point, or reported as a hang.
            let Some(it) = cur.it.take() else { return Ok(()) };
            fn own(mut v: Vec<Option<Vec<u8>>>, x: &[u8]) -> Vec<Option<Vec<u8>>> {
                if v.len() > 200_000 {
                    panic!("{ENDLESS}");
                }
                v.push(Some(x.to_vec()));
                v
            }
            let n = cur.left.len();
            let mut points = 0u64;
            let mut tick = |_: &'static str| {
                points += 1;
                if points > 2_000_000 + 50 * (n * n) as u64 {
                    panic!("{ENDLESS}");
                }
            };
            let (got, want): (Vec<_>, Vec<_>) = match act {
                Do::Last => (
                    vec![sched::nested(&mut tick, || each!(it, i => i.last().map(|x| x.as_bytes().to_vec())))],
                    vec![cur.left.back().map(|x| x.to_vec())],
                ),
                Do::Count => {
                    let k = sched::nested(&mut tick, || each!(it, i => i.count()));
                    ensure!(k == n, BAD, "{}: count {k}, {n} left", cur.name);
                    (vec![], vec![])
                }
                Do::Use { how, back } => match it {
                    Iter::Var(i) if *back => (
                        sched::nested(&mut tick, || using(i.rev(), *how)),
                        using(Left(&mut cur.left).rev(), *how),
                    ),
                    it => (sched::nested(&mut tick, || each!(it, i => using(i, *how))), using(Left(&mut cur.left), *how)),
                },
                _ => {
                    let all = cur.left.iter().map(|x| Some(x.to_vec()));
                    match (it, act) {
                        (Iter::Var(i), Do::Rfold) => (i.rfold(vec![], |v, x| own(v, x.as_bytes())), all.rev().collect()),
                        (it, _) => (each!(it, i => i.fold(vec![], |v, x| own(v, x.as_bytes()))), all.collect()),
                    }
                }
            };
            cur.left.clear();
            return judge(cur, act, &got, &want, c);
        }
        _ => {}
    }
    // Move the cursor out while it steps: the nested steps belong to others.
    let mut it = cur.it.take();
    let got = if moved {
        c.fault("cursor handed to another thread");
        std::thread::scope(|s| {
            let it = &mut it;
            match s.spawn(move || real(it, act, limit)).join() {
                Ok(g) => Ok(g),
                Err(_) => Err(V { class: "panic".into(), detail: format!("stepping {act:?} on another thread") }),
            }
        })?
    } else {
        match nest {
            Some((None, g)) => {
                let other = c.apart;
                sched::nested(&mut |_| sched::apart(other, &mut || g(c)), || real(&mut it, act, limit))
            }
            Some((Some(k), g)) => {
                let other = c.apart;
                fine::load(&[k]);
                let r = fine::window(&mut || sched::apart(other, &mut || g(c)), || real(&mut it, act, limit));
                c.faults_n("step preempted at an instruction", fine::fired());
                r
            }
            None => fine::look(|| real(&mut it, act, limit)),
        }
    };
    cur.it = it;
    let want = ideal(&mut cur.left, act, two, limit);
    judge(cur, act, &got, &want, c)
}

impl World for C05 {
    const META: Meta = Meta {
        id: "C05",
        quick: 2_000_000,
        thorough: 9_000_000,
        batch: 5_000,
        threads: false,
        nests: true,
        survey: 60,
        rule: "one run = up to 6 cursors over up to 4 texts, up to 40 steps (from either end, skipping, through adapters), some \
               preempted inside the step by steps of other cursors, some on another thread; non-trivial: at least one cursor \
               abandoned, handed over or preempted inside a step, and at least one item delivered; distinct by the hash of the \
               full event log",
        states: "distinct (cursor type, items left, step, end already reported)",
        interleavings: "distinct sequences of (cursor, step, nested cursor)",
        real: &["VariantsIter, ExtensionsIter, ExtensionIter, PrivateUseIter, LanguageExtensionIter and the ways to obtain them"],
        stub: &["scheduler of steps, including steps nested inside a step at its hook points"],
        assumptions: &["a step is preempted at hook points and, in one run of 40, at chosen instructions"],
    };
    type Plan = Plan;

    fn gen(r: &mut Rng, env: Env) -> Plan {
        let st = Style::new(r);
        let mut texts: Vec<(u8, Bytes)> = vec![];
        for _ in 0..r.range(1, 4) {
            let k = match r.below(10) {
                0..=4 => 0u8,
                5 => 11,
                6 => 6,
                7 => 2,
                8 => 12,
                _ => 14,
            };
            let kind = model::kind(k);
            let long = r.chance(1, 40);
            let t = if long {
                {
                    let max = Style::reach(r, env.tier);
                    st.long_text(r, kind, max)
                }
            } else if r.chance(1, 4) && texts.first().is_some_and(|t| t.0 == k) {
                let t = String::from_utf8_lossy(&texts[0].1 .0).into_owned();
                st.near(r, kind, &t)
            } else {
                st.text(r, kind)
            };
            texts.push((k, Bytes::from(t)));
        }
        let n = r.range(1, 6);
        let cursors = (0..n).map(|_| Open { text: r.u8(), list: r.u8(), route: r.u8() }).collect();
        let act = |r: &mut Rng| match r.below(28) {
            24..=26 => Do::Search { how: r.u8(), k: r.below(4) as u8, back: r.chance(1, 2) },
            27 => Do::Use { how: r.u8(), back: r.chance(1, 2) },
            0..=7 => Do::Next,
            8..=14 => Do::Back,
            15 => Do::Nth(r.below(4) as u8),
            16 => Do::NthBack(r.below(4) as u8),
            17 => Do::Take(r.below(4) as u8),
            18 => Do::TakeBack(r.below(4) as u8),
            19 => Do::SizeHint,
            20 => match r.below(8) {
                0 => Do::Drain,
                1 => Do::DrainBack,
                2 => Do::Last,
                3 => Do::Count,
                4 => Do::Fold,
                5 => Do::Rfold,
                _ => Do::Next,
            },
            21 if r.chance(1, 3) => Do::Drop,
            _ => Do::Next,
        };
        let moves = r.chance(1, 30);
        let huge = texts.iter().any(|t| t.1 .0.len() > 4000);
        let fine = !huge && r.chance(1, if env.hot { 4 } else { 40 });
        let mut steps: Vec<Step> = (0..r.range(2, 40))
            .map(|_| Step {
                cur: r.below(n) as u8,
                act: act(r),
                moved: moves && r.chance(1, 4),
                fine: (fine && r.chance(1, 3)).then(|| {
                    let span = *r.pick(&[30usize, 120, 500]);
                    Point::gen(r, env.hot, span)
                }),
                nested: (0..r.below(3)).map(|_| (r.below(3) as u8, r.below(n) as u8, act(r))).collect(),
            })
            .collect();
        if huge || r.chance(1, 20) {
            // To the end, by every cursor.
            for cur in 0..n as u8 {
                let act = match r.below(6) {
                    5 => Do::Use { how: r.u8(), back: r.chance(1, 2) },
                    0 => Do::Drain,
                    1 => Do::DrainBack,
                    2 => Do::Count,
                    3 => Do::Last,
                    _ => Do::Fold,
                };
                steps.push(Step { cur, act, moved: false, nested: vec![], fine: None });
            }
        }
        Plan { texts, cursors, steps }
    }

    fn exec(p: &Plan, c: &mut Ctx) -> R {
        let texts: Vec<(K, &[u8])> = p
            .texts
            .iter()
            .map(|(k, b)| (model::kind(*k), b.0.as_slice()))
            .filter(|(k, b)| model::accepts(*k, b))
            .map(|(k, b)| (k, place(&[b])))
            .collect();
        if texts.is_empty() {
            return Ok(());
        }
        let mut curs: Vec<Cursor> = vec![];
        for o in &p.cursors {
            let (k, t) = texts[o.text as usize % texts.len()];
            if let Some(x) = open(o, k, t)? {
                curs.push(x);
            }
        }
        if curs.is_empty() {
            return Ok(());
        }
        let mut delivered = false;
        for s in &p.steps {
            let i = s.cur as usize % curs.len();
            c.sched = fnv(c.sched, &[i as u8, act_id(&s.act)]);
            // Take the stepping cursor out; nested steps see the others.
            let placeholder = Cursor { it: None, left: VecDeque::new(), item: K::Tag, ended: false, name: String::new() };
            let mut cur = std::mem::replace(&mut curs[i], placeholder);
            let before = cur.left.len();
            let mut nested_err: Option<V> = None;
            let r = if s.nested.is_empty() || c.call_granular {
                step(&mut cur, &s.act, s.moved, c, None)
            } else {
                let mut k = 0u8;
                let others = &mut curs;
                let err = &mut nested_err;
                let mut nest = |c: &mut Ctx| {
                    for (at, o, act) in &s.nested {
                        if *at == k || s.fine.is_some() {
                            let j = *o as usize % others.len();
                            c.sched = fnv(c.sched, &[200, j as u8]);
                            if others[j].it.is_some() {
                                c.fault("step preempted by another cursor's step");
                            }
                            if let Err(v) = guarded(|| step(&mut others[j], act, false, c, None)) {
                                err.get_or_insert(v);
                            }
                        }
                    }
                    k = k.saturating_add(1);
                };
                step(&mut cur, &s.act, s.moved, c, Some((s.fine, &mut nest)))
            };
            delivered |= cur.left.len() < before;
            c.state(fnv(FNV0, &[cur.item as u8, cur.left.len().min(20) as u8, act_id(&s.act), cur.ended as u8, cur.it.is_none() as u8]));
            curs[i] = cur;
            if let Some(v) = nested_err {
                return Err(v);
            }
            r?;
            c.sim_ms += 1;
        }
        c.ev("schedule", &c.sched.to_le_bytes());
        c.nontrivial = c.fired > 0 && delivered;
        Ok(())
    }
}

fn act_id(a: &Do) -> u8 {
    match a {
        Do::Next => 0,
        Do::Back => 1,
        Do::Nth(_) => 2,
        Do::NthBack(_) => 3,
        Do::Take(_) => 4,
        Do::TakeBack(_) => 5,
        Do::SizeHint => 6,
        Do::Drain => 7,
        Do::DrainBack => 8,
        Do::Last => 9,
        Do::Count => 10,
        Do::Drop => 11,
        Do::Fold => 12,
        Do::Rfold => 13,
        Do::Search { how, back, .. } => 14 + how % 10 + 10 * *back as u8,
        Do::Use { how, back } => 40 + how % 12 + 12 * *back as u8,
    }
}
