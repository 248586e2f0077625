//! C06: a sharded hash registry keyed by tags, under any hasher.
use crate::fine::{self, Point};
use crate::ctx::{show, Ctx, R, V};
use crate::kinds::Ty;
use crate::model::{self, Style, K};
use crate::rng::{fnv, mix, Rng, FNV0};
use crate::sched::{self, Sched};
use crate::seams::{Bytes, Placed};
use crate::world::{guarded, panic_violation, Meta, Env, World};
use crate::{dispatch, ensure, fail};
use langtag::{Singleton, GRANDFATHERED};
use serde::{Deserialize, Serialize};
use std::cell::{Cell, UnsafeCell};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::hash::{BuildHasher, Hash, Hasher};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Op {
    Insert { key: u8, spell: u32, val: u16 },
    /// Through the entry interface.
    Bump { key: u8, spell: u32 },
    Get { key: u8, spell: u32, borrowed: bool },
    Remove { key: u8, spell: u32, borrowed: bool },
    /// Lookup during which the caller's hasher unwinds at its n-th write.
    GetUnwind { key: u8, spell: u32, at: u8 },
    /// Hashing and comparison interrupted by another: at the n-th hook point, at the n-th
    /// instruction, or by the hasher at its n-th write.
    Nested { key: u8, spell: u32, how: u8, at: u16, fine: Point, key2: u8, spell2: u32 },
    /// Direct comparison of two spellings of two keys.
    Compare { a: u8, b: u8, sa: u32, sb: u32 },
    /// Comparison with plain text.
    Plain { key: u8, spell: u32, text: Bytes },
    /// The process restarts: shards are rebuilt under new hash keys.
    Restart { keys: u32, hasher: u8 },
    /// A singleton or registered tag as a key and against plain letters.
    Letter { a: u8, b: u8, c: u32 },
    Yield,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Plan {
    kind: u8,
    keys: Vec<Bytes>,
    shards: u8,
    hasher: u8,
    hash_keys: u32,
    threads: Vec<Vec<Op>>,
    decisions: Vec<u16>,
    gaps: Vec<u32>,
}

pub struct C06;

// ---------------------------------------------------------------- hashers

thread_local! {
    static BOMB: Cell<u32> = const { Cell::new(u32::MAX) };
}
struct Unwound;

thread_local! {
    static CALLBACK: Cell<Option<*mut dyn FnMut()>> = const { Cell::new(None) };
}
/// Runs `f`; its hasher calls `g` before each write.
fn interrupting<T>(g: &mut dyn FnMut(), f: impl FnOnce() -> T) -> T {
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            CALLBACK.with(|c| c.set(None))
        }
    }
    let _off = Off;
    // SAFETY: forgotten before `g` goes out of scope.
    let g: *mut dyn FnMut() = unsafe { std::mem::transmute::<&mut dyn FnMut(), &'static mut dyn FnMut()>(g) };
    CALLBACK.with(|c| c.set(Some(g)));
    f()
}

/// Ticks at each write; unwinds when armed and due.
fn tick() {
    if let Some(g) = CALLBACK.with(|c| c.take()) {
        // SAFETY: registered by `interrupting`, which is still running. Taken: no recursion.
        unsafe { (*g)() };
        CALLBACK.with(|c| c.set(Some(g)));
    }
    BOMB.with(|b| {
        let n = b.get();
        if n != u32::MAX {
            if n == 0 {
                b.set(u32::MAX);
                resume_unwind(Box::new(Unwound));
            }
            b.set(n - 1);
        }
    });
}

#[derive(Clone, Debug)]
pub struct Build {
    kind: u8,
    key: u64,
}
pub const HASHERS: [&str; 6] = ["siphash", "fnv", "weak (4 values)", "constant", "call-boundary sensitive", "width sensitive"];

#[allow(deprecated)]
pub enum SimHasher {
    Sip(std::hash::SipHasher),
    Plain { kind: u8, h: u64 },
}
impl BuildHasher for Build {
    type Hasher = SimHasher;
    #[allow(deprecated)]
    fn build_hasher(&self) -> SimHasher {
        match self.kind % 6 {
            0 => SimHasher::Sip(std::hash::SipHasher::new_with_keys(mix(self.key), mix(!self.key))),
            k => SimHasher::Plain { kind: k, h: mix(self.key) },
        }
    }
}
impl Hasher for SimHasher {
    fn write(&mut self, b: &[u8]) {
        tick();
        match self {
            SimHasher::Sip(h) => h.write(b),
            SimHasher::Plain { kind, h } => {
                // Kinds 4 and 5 also see where one write ends and the next begins.
                if *kind >= 4 {
                    *h = fnv(*h, &(b.len() as u64 + 1000).to_le_bytes());
                }
                *h = fnv(*h, b);
            }
        }
    }
    fn write_u8(&mut self, v: u8) {
        match self {
            // Another algorithm for single bytes than for slices of length one.
            SimHasher::Plain { kind: 5, h } => {
                tick();
                *h = mix(*h ^ v as u64);
            }
            _ => self.write(&[v]),
        }
    }
    fn finish(&self) -> u64 {
        match self {
            SimHasher::Sip(h) => h.finish(),
            SimHasher::Plain { kind: 2, h } => mix(*h) & 3,
            SimHasher::Plain { kind: 3, .. } => 7,
            SimHasher::Plain { h, .. } => mix(*h),
        }
    }
}

// --------------------------------------------------------------- registry

struct Shard<T: Ty> {
    map: HashMap<T::O, u64, Build>,
    set: HashSet<T::O, Build>,
    /// Model: text in lower case to value.
    model: BTreeMap<String, u64>,
}

struct Shared<'a, T: Ty> {
    shards: UnsafeCell<Vec<Shard<T>>>,
    c: UnsafeCell<&'a mut Ctx>,
    failed: UnsafeCell<Option<V>>,
    build: UnsafeCell<Build>,
    keys: Vec<String>,
    kind: K,
}
// SAFETY: only the thread holding the scheduler's turn touches the cells.
unsafe impl<T: Ty> Sync for Shared<'_, T> {}

struct Unlock(usize);
impl Drop for Unlock {
    fn drop(&mut self) {
        sched::unlock(self.0)
    }
}

impl<T: Ty> Shared<'_, T> {
    #[allow(clippy::mut_from_ref)]
    fn c(&self) -> &mut Ctx {
        unsafe { &mut *self.c.get() }
    }
    fn build(&self) -> Build {
        unsafe { (*self.build.get()).clone() }
    }
    fn text(&self, key: u8, spell: u32) -> Placed {
        Placed::new(model::respell(&self.keys[key as usize % self.keys.len()], spell as u64), spell as u64)
    }
    fn owned(&self, t: &str) -> Result<T::O, V> {
        T::parse_own(t.to_owned())
            .ok_or_else(|| V { class: "well-formed-key-refused".into(), detail: format!("{:?} {}", self.kind, show(t.as_bytes())) })
    }
    fn borrowed<'t>(&self, t: &'t str) -> Result<&'t T::B, V> {
        T::parse(t.as_bytes())
            .ok_or_else(|| V { class: "well-formed-key-refused".into(), detail: format!("{:?} {}", self.kind, show(t.as_bytes())) })
    }
    fn nshards(&self) -> usize {
        unsafe { (&*self.shards.get()).len() }
    }
    /// The shard a text belongs to, by the model alone.
    fn shard_of(&self, t: &str) -> usize {
        fnv(FNV0, model::lower(t).as_bytes()) as usize % self.nshards()
    }
    /// Locks the shard of `t` and works on it.
    fn on<X>(&self, t: &str, f: impl FnOnce(&mut Shard<T>) -> Result<X, V>) -> Result<X, V> {
        let s = self.shard_of(t);
        if sched::lock(s) {
            self.c().fault("client blocked on a shard lock");
        }
        let _u = Unlock(s);
        // SAFETY: the simulated lock is held; the vector itself does not change while clients run.
        let sh = unsafe { &mut *(*self.shards.get()).as_mut_ptr().add(s) };
        f(sh)
    }
}

const MISS: &str = "entry-not-found";
const FALSE: &str = "other-entry-found";

fn lookup<T: Ty>(sh: &Shared<T>, key: u8, spell: u32, borrowed: bool) -> R {
    let t = sh.text(key, spell);
    sh.on(&t, |s| {
        let (got, has) = if borrowed {
            let b = sh.borrowed(&t)?;
            fine::look(|| (s.map.get(b).copied(), s.set.contains(b)))
        } else {
            let o = sh.owned(&t)?;
            fine::look(|| (s.map.get::<T::O>(&o).copied(), s.set.contains::<T::O>(&o)))
        };
        let want = s.model.get(&model::lower(&t)).copied();
        judge(sh, "lookup", &t, got, want)?;
        judge(sh, "set lookup", &t, has.then_some(0), want.map(|_| 0))
    })
}

fn judge<T: Ty>(sh: &Shared<T>, what: &str, t: &str, got: Option<u64>, want: Option<u64>) -> R {
    let c = sh.c();
    c.ops += 1;
    c.checks += 1;
    c.ev(what, t.as_bytes());
    if want.is_some() {
        c.nontrivial = true;
    }
    match (got, want) {
        (g, w) if g == w => Ok(()),
        (None, Some(_)) => fail!(MISS, "{what} of {:?} {} found nothing", sh.kind, show(t.as_bytes())),
        (Some(_), None) => fail!(FALSE, "{what} of {:?} {} found an entry never stored under it", sh.kind, show(t.as_bytes())),
        (g, w) => fail!("wrong-entry", "{what} of {:?} {} gave {g:?} instead of {w:?}", sh.kind, show(t.as_bytes())),
    }
}

fn client<T: Ty>(sh: &Shared<T>, id: usize, ops: &[Op]) -> R {
    let mut stamp = (id as u64) << 32;
    for op in ops {
        if unsafe { (*sh.failed.get()).is_some() } {
            break;
        }
        stamp += 1;
        match op {
            Op::Insert { key, spell, val } => {
                let t = sh.text(*key, *spell);
                let v = stamp << 16 | *val as u64;
                sh.on(&t, |s| {
                    let old = s.map.insert(sh.owned(&t)?, v);
                    let new = s.set.insert(sh.owned(&t)?);
                    let want = s.model.insert(model::lower(&t), v);
                    judge(sh, "insert", &t, old, want)?;
                    judge(sh, "set insert", &t, (!new).then_some(0), want.map(|_| 0))?;
                    ensure!(s.map.len() == s.model.len() && s.set.len() == s.model.len(), "wrong-size",
                        "{} entries in the map, {} in the set, {} keys differ ignoring case", s.map.len(), s.set.len(), s.model.len());
                    Ok(())
                })?;
            }
            Op::Bump { key, spell } => {
                let t = sh.text(*key, *spell);
                sh.on(&t, |s| {
                    let e = s.map.entry(sh.owned(&t)?).or_insert(0);
                    let before = *e;
                    *e += 1 << 50;
                    if !s.set.contains(sh.borrowed(&t)?) {
                        s.set.insert(sh.owned(&t)?);
                    }
                    let m = s.model.entry(model::lower(&t)).or_insert(0);
                    let want = *m;
                    *m += 1 << 50;
                    judge(sh, "entry", &t, Some(before), Some(want))?;
                    ensure!(s.map.len() == s.model.len() && s.set.len() == s.model.len(), "wrong-size",
                        "{} entries in the map, {} in the set, {} keys differ ignoring case", s.map.len(), s.set.len(), s.model.len());
                    Ok(())
                })?;
            }
            Op::Get { key, spell, borrowed } => lookup(sh, *key, *spell, *borrowed)?,
            Op::Remove { key, spell, borrowed } => {
                let t = sh.text(*key, *spell);
                sh.on(&t, |s| {
                    let (got, had) = if *borrowed {
                        let b = sh.borrowed(&t)?;
                        (s.map.remove(b), s.set.remove(b))
                    } else {
                        let o = sh.owned(&t)?;
                        (s.map.remove::<T::O>(&o), s.set.remove::<T::O>(&o))
                    };
                    let want = s.model.remove(&model::lower(&t));
                    judge(sh, "remove", &t, got, want)?;
                    judge(sh, "set remove", &t, had.then_some(0), want.map(|_| 0))
                })?;
            }
            Op::GetUnwind { key, spell, at } => {
                let t = sh.text(*key, *spell);
                sh.on(&t, |s| {
                    let b = sh.borrowed(&t)?;
                    BOMB.with(|x| x.set(*at as u32));
                    let r = catch_unwind(AssertUnwindSafe(|| s.map.get(b).copied()));
                    BOMB.with(|x| x.set(u32::MAX));
                    match r {
                        // The bomb was beyond the last write.
                        Ok(got) => judge(sh, "lookup", &t, got, s.model.get(&model::lower(&t)).copied()),
                        Err(p) if p.is::<Unwound>() => {
                            sh.c().fault("hasher unwinds inside a lookup");
                            Ok(())
                        }
                        Err(_) => Err(panic_violation()),
                    }
                })?;
                lookup(sh, *key, *spell, true)?;
            }
            Op::Nested { key, spell, how, at, fine: point, key2, spell2 } => {
                // Hash and compare directly: the inner one interrupts the outer.
                let (t, t2) = (sh.text(*key, *spell), sh.text(*key2, *spell2));
                let build = sh.build();
                let (a, b) = (sh.borrowed(&t)?, sh.borrowed(&t2)?);
                let (ha, hb) = (build.hash_one(a), build.hash_one(b));
                let mut seen = 0u16;
                let mut inner = None;
                let same = T::text(a).eq_ignore_ascii_case(T::text(b));
                let (other, granular) = (sh.c().apart, sh.c().call_granular);
                let (ha2, eq) = {
                    let inner = &mut inner;
                    let mut due = || {
                        if how % 3 == 2 || seen == *at {
                            *inner = Some((build.hash_one(b), a == b));
                        }
                        seen = seen.saturating_add(1);
                    };
                    let outer = || (build.hash_one(a), a == b);
                    match how % 3 {
                        // A hasher may do as it likes, on this very thread.
                        0 => interrupting(&mut due, outer),
                        _ if granular => outer(),
                        1 => sched::nested(&mut |_| sched::apart(other, &mut due), outer),
                        _ => {
                            fine::load(&[*point]);
                            fine::window(&mut || sched::apart(other, &mut due), outer)
                        }
                    }
                };
                fine::fired();
                let c = sh.c();
                c.checks += 1;
                if let Some((hb2, eq2)) = inner {
                    c.fault(["hasher calls back", "hashing or comparison preempted by another", "hashing or comparison preempted at an instruction"][*how as usize % 3]);
                    ensure!(hb2 == hb, "hash-disturbed", "hash of {} changed when it interrupted another", show(t2.as_bytes()));
                    ensure!(eq2 == same, if same { MISS } else { FALSE }, "{} == {} gave {eq2}", show(t.as_bytes()), show(t2.as_bytes()));
                }
                ensure!(ha2 == ha, "hash-disturbed", "hash of {} changed when it was interrupted", show(t.as_bytes()));
                ensure!(eq == same, if same { MISS } else { FALSE }, "{} == {} gave {eq}", show(t.as_bytes()), show(t2.as_bytes()));
            }
            Op::Compare { a, b, sa, sb } => {
                let (t, t2) = (sh.text(*a, *sa), sh.text(*b, *sb));
                compare(sh, &t, &t2)?;
            }
            Op::Plain { key, spell, text } => plain(sh, &sh.text(*key, *spell), &text.0)?,
            Op::Restart { keys, hasher } => {
                // Only when nobody is inside the registry.
                let n = sh.nshards();
                let mut held = vec![];
                for s in 0..n {
                    sched::lock(s);
                    held.push(Unlock(s));
                }
                let build = Build { kind: *hasher, key: *keys as u64 };
                // SAFETY: all locks are held.
                unsafe { *sh.build.get() = build.clone() };
                let mut r = Ok(());
                for s in 0..n {
                    let x = unsafe { &mut *(*sh.shards.get()).as_mut_ptr().add(s) };
                    let (map, set) = (std::mem::replace(&mut x.map, HashMap::with_hasher(build.clone())),
                        std::mem::replace(&mut x.set, HashSet::with_hasher(build.clone())));
                    x.map.extend(map);
                    x.set.extend(set);
                    if x.map.len() != x.model.len() || x.set.len() != x.model.len() {
                        r = Err(V { class: "wrong-size".into(), detail: format!("{} entries after re-keying, {} before", x.map.len(), x.model.len()) });
                    }
                }
                drop(held);
                sh.c().fault("restart under new hash keys");
                r?;
            }
            Op::Letter { a, b, c } => letters(sh, *a, *b, *c)?,
            Op::Yield => {}
        }
        sched::yield_now("op");
    }
    Ok(())
}

/// Singletons and registered tags: equal when they are the same one, never when the letters or
/// tags differ otherwise than by case, and hashed as they compare.
fn letters<T: Ty>(sh: &Shared<T>, a: u8, b: u8, ch: u32) -> R {
    let build = sh.build();
    let (g, h) = (GRANDFATHERED[a as usize % 26], GRANDFATHERED[b as usize % 26]);
    let same = g.as_str() == h.as_str();
    ensure!((g == h) == same && (h == g) == same, if same { MISS } else { FALSE }, "{g} == {h} gave {}", g == h);
    ensure!(!same || build.hash_one(g) == build.hash_one(h), MISS, "{g} hashes in two ways");
    let (Ok(x), Ok(y)) = (Singleton::new(a), Singleton::new(b)) else { return Ok(()) };
    let c = sh.c();
    c.ops += 4;
    c.checks += 4;
    c.ev("letters", &[a, b]);
    let judge = |what: String, got: bool, same: bool, other: bool| -> R {
        ensure!(got || !same, MISS, "{what} gave {got}");
        ensure!(!got || !other, FALSE, "{what} gave {got}");
        Ok(())
    };
    let eq = x == y;
    judge(format!("singleton {x} == {y}"), eq, a == b, !a.eq_ignore_ascii_case(&b))?;
    ensure!((y == x) == eq, FALSE, "singleton {y} == {x} gave {}", !eq);
    ensure!(!eq || build.hash_one(x) == build.hash_one(y), MISS, "singletons {x} and {y} are equal but hash differently");
    judge(format!("singleton {x} == byte {b}"), x == b, a == b, !a.eq_ignore_ascii_case(&b))?;
    for byte in [ch as u8, a | 0x80, a ^ 1 << (ch & 7)] {
        judge(format!("singleton {x} == byte {byte}"), x == byte, a == byte, !a.eq_ignore_ascii_case(&byte))?;
    }
    for l in [ch, b as u32, b as u32 | ch << 8, a as u32 ^ 1 << (ch & 15)] {
        if let Some(l) = char::from_u32(l) {
            judge(format!("singleton {x} == {l:?}"), x == l, a as char == l, !(a as char).eq_ignore_ascii_case(&l))?;
        }
    }
    let mut set = HashSet::with_hasher(build);
    set.insert(x);
    judge(format!("lookup of singleton {y} among {x}"), set.contains(&y), a == b, !a.eq_ignore_ascii_case(&b))
}

fn compare<T: Ty>(sh: &Shared<T>, t: &str, t2: &str) -> R {
    let build = sh.build();
    let same = t.eq_ignore_ascii_case(t2);
    let (a, b) = (sh.borrowed(t)?, sh.borrowed(t2)?);
    let (oa, ob) = (sh.owned(t)?, sh.owned(t2)?);
    let got = [a == b, b == a, oa == ob, ob == oa, *a == ob, *b == oa, oa == *b, ob == *a];
    let c = sh.c();
    c.checks += 1;
    c.ops += 8;
    c.ev("compare", t2.as_bytes());
    for (i, g) in got.iter().enumerate() {
        ensure!(*g == same, if same { MISS } else { FALSE }, "{:?}: {} == {} gave {g} (form {i})", sh.kind, show(t.as_bytes()), show(t2.as_bytes()));
    }
    // Against parts of itself: other texts at the same or a near address.
    for (i, j) in model::views(sh.kind, t, t2.len() as u64 + build.key) {
        let part = &t[i..j];
        let v = sh.borrowed(part)?;
        let mut got = [a == v, v == a, oa == *v, *v == oa, *a == *part, *v == *t, *a == *part.as_bytes(), false];
        let mut set = HashSet::with_hasher(build.clone());
        set.insert(a);
        got[7] = set.contains(v);
        for (f, g) in got.iter().enumerate() {
            ensure!(!g, FALSE, "{:?}: {} == its part {} (form {f})", sh.kind, show(t.as_bytes()), show(part.as_bytes()));
        }
        sh.c().checks += 1;
        sh.c().probe("compared with a part of itself");
    }
    let h = [build.hash_one(a), build.hash_one(&oa)];
    ensure!(h[0] == h[1], MISS, "{:?} {}: owned and borrowed forms hash differently", sh.kind, show(t.as_bytes()));
    // The call sequence a hasher sees must agree inside composite keys, too.
    let mut s1 = build.build_hasher();
    let mut s2 = build.build_hasher();
    (a, 1u8).hash(&mut s1);
    (&oa, 1u8).hash(&mut s2);
    ensure!(s1.finish() == s2.finish(), MISS, "{:?} {}: composite keys hash differently", sh.kind, show(t.as_bytes()));
    if same {
        ensure!(build.hash_one(b) == h[0] && build.hash_one(&ob) == h[0], MISS, "{:?}: {} and {} are equal but hash differently under {}",
            sh.kind, show(t.as_bytes()), show(t2.as_bytes()), HASHERS[build.kind as usize % 6]);
        let (mut s1, mut s2) = (build.build_hasher(), build.build_hasher());
        T::B::hash(a, &mut s1);
        T::B::hash(b, &mut s2);
        ensure!(s1.finish() == s2.finish(), MISS, "{:?}: spellings hash differently", sh.kind);
    }
    Ok(())
}

fn plain<T: Ty>(sh: &Shared<T>, t: &str, plain: &[u8]) -> R {
    let same = model::accepts(sh.kind, plain) && t.as_bytes().eq_ignore_ascii_case(plain);
    let (b, o) = (sh.borrowed(t)?, sh.owned(t)?);
    let c = sh.c();
    c.checks += 1;
    c.ops += 12;
    c.ev("plain", plain);
    c.probe(if same { "equal to plain text" } else { "differs from plain text" });
    let cls = if same { "plain-text-not-equal" } else { "plain-text-equal" };
    let g = *b == *plain;
    ensure!(g == same, cls, "{:?} {} == bytes {} gave {g}", sh.kind, show(t.as_bytes()), show(plain));
    if let Ok(s) = std::str::from_utf8(plain) {
        for (i, g) in T::eq_text(b, &o, s).iter().enumerate() {
            ensure!(*g == same, cls, "{:?} {} == text {} gave {g} (form {i})", sh.kind, show(t.as_bytes()), show(plain));
        }
    }
    Ok(())
}

fn run<T: Ty>(p: &Plan, c: &mut Ctx) -> R {
    let kind = model::kind(p.kind);
    let keys: Vec<String> = p
        .keys
        .iter()
        .filter(|k| model::accepts(kind, &k.0))
        .filter_map(|k| String::from_utf8(k.0.clone()).ok())
        .collect();
    if keys.is_empty() || p.threads.is_empty() || p.threads.len() > 16 {
        return Ok(());
    }
    let n = (p.shards as usize).clamp(1, 8);
    let build = Build { kind: p.hasher, key: p.hash_keys as u64 };
    let shards = (0..n)
        .map(|_| Shard::<T> {
            map: HashMap::with_hasher(build.clone()),
            set: HashSet::with_hasher(build.clone()),
            model: BTreeMap::new(),
        })
        .collect();
    c.ev("hasher", HASHERS[p.hasher as usize % 6].as_bytes());
    *c.probes.entry(HASHERS[p.hasher as usize % 6]).or_insert(0) += 1;
    for k in &keys {
        c.state(fnv(model::shape(p.kind, k.as_bytes()), &[p.hasher % 6]));
    }
    let gaps: &[u32] = if c.call_granular { &[] } else { &p.gaps };
    let sched = Sched::new(p.threads.len(), n, &p.decisions, gaps);
    let sh = Shared::<T> {
        shards: UnsafeCell::new(shards),
        c: UnsafeCell::new(c),
        failed: UnsafeCell::new(None),
        build: UnsafeCell::new(build),
        keys,
        kind,
    };
    let note = |r: R| {
        if let Err(v) = r {
            // SAFETY: the turn is held.
            let f = unsafe { &mut *sh.failed.get() };
            if f.is_none() {
                *f = Some(v);
            }
        }
    };
    let out = if p.threads.len() == 1 {
        note(guarded(|| client(&sh, 0, &p.threads[0])));
        None
    } else {
        let bodies = p
            .threads
            .iter()
            .enumerate()
            .map(|(id, ops)| {
                let sh = &sh;
                Box::new(move || {
                    if let Err(v) = guarded(|| client(sh, id, ops)) {
                        let f = unsafe { &mut *sh.failed.get() };
                        if f.is_none() {
                            *f = Some(v);
                        }
                    }
                }) as Box<dyn FnOnce() + Send + '_>
            })
            .collect();
        Some(sched.run(bodies))
    };
    // At rest: every entry is there exactly once, and found under other spellings.
    note(guarded(|| {
        for s in 0..n {
            // SAFETY: no client runs any more.
            let x = unsafe { &mut *(*sh.shards.get()).as_mut_ptr().add(s) };
            let mut seen: BTreeMap<String, u64> = BTreeMap::new();
            for (k, v) in &x.map {
                ensure!(seen.insert(model::lower(T::otext(k)), *v).is_none(), "duplicate-entry", "{:?} {} is stored twice", kind, show(T::otext(k).as_bytes()));
            }
            ensure!(seen == x.model, "wrong-content", "shard holds {seen:?}, the model {:?}", x.model);
            for (k, v) in &x.model {
                for spell in [0, 1, *v + 2, *v * 7 + 3] {
                    let t = Placed::new(model::respell(k, spell), spell);
                    ensure!(x.map.get(sh.borrowed(&t)?) == Some(v), MISS, "{kind:?} {} not found at rest", show(t.as_bytes()));
                }
            }
        }
        Ok(())
    }));
    let failed = sh.failed.into_inner();
    if let Some(out) = out {
        c.sched = out.sched;
        c.ev("schedule", &out.sched.to_le_bytes());
        c.sim_ms += out.switches;
        c.faults_n("client preempted while hashing or comparing", out.preemptions);
        c.faults_n("turn taken by another client", out.switches);
    }
    c.nontrivial &= c.fired > 0;
    match failed {
        Some(v) => Err(v),
        None => Ok(()),
    }
}

impl World for C06 {
    const META: Meta = Meta {
        id: "C06",
        quick: 600_000,
        thorough: 4_000_000,
        batch: 1_500,
        threads: true,
        nests: true,
        survey: 60,
        rule: "one run = 1 to 3 clients with up to 24 operations each on a registry of up to 4 shards keyed by one of the 15 types, \
               one of 6 hashers and random hash keys; non-trivial: at least one preemption, unwinding, restart or lock wait, and at \
               least one stored entry looked up; distinct by the hash of the full event log",
        states: "distinct (kind, segment lengths and character classes of the key, hasher)",
        interleavings: "distinct sequences of (client giving up the turn, client getting it, where); single-client runs count as one",
        real: &["Eq, Hash, Borrow, PartialEq with plain text of all 15 types and owned forms", "std HashMap and HashSet", "OS threads (parked and released one at a time)"],
        stub: &["hashers and hash keys", "shard locks", "thread scheduler", "process restart"],
        assumptions: &["a hasher may depend on how writes are split, as std's contract for Borrow allows"],
    };
    type Plan = Plan;

    fn gen(r: &mut Rng, env: Env) -> Plan {
        let st = Style::new(r);
        let kind = r.u8() % 15;
        let kind = if r.chance(1, 4) { 0 } else { kind };
        let k = model::kind(kind);
        let mut keys: Vec<String> = vec![];
        for _ in 0..r.range(1, 6) {
            let t = if !keys.is_empty() && r.chance(2, 3) {
                let base = r.pick(&keys).clone();
                st.near(r, k, &base)
            } else if r.chance(1, 60) {
                {
                    let max = Style::reach(r, env.tier);
                    st.long_text(r, k, max)
                }
            } else {
                st.text(r, k)
            };
            keys.push(t);
        }
        if r.chance(1, 40) {
            // The same beginning, and a length a narrow count takes for the same.
            let t = r.pick(&keys).clone();
            let by = Style::wrap(r);
            keys.extend(st.stretch(r, k, &t, by));
        }
        let nk = keys.len();
        let nth = if r.chance(1, 3) { r.range(2, 3) } else { 1 };
        let unwinds = r.chance(1, 3);
        let restarts = r.chance(1, 2);
        let small = keys.iter().all(|k| k.len() < 4000);
        let how = if small && r.chance(1, if env.hot { 2 } else { 12 }) { 2 } else { r.u8() % 2 };
        let threads = (0..nth)
            .map(|_| {
                (0..r.range(2, 24))
                    .map(|_| {
                        let key = r.below(nk) as u8;
                        let spell = r.u64() as u32;
                        match r.below(16) {
                            0..=3 => Op::Insert { key, spell, val: r.u16() },
                            5 | 6 => Op::Get { key, spell, borrowed: r.chance(1, 2) },
                            7 | 8 => Op::Remove { key, spell, borrowed: r.chance(1, 2) },
                            9 if unwinds => Op::GetUnwind { key, spell, at: r.below(20) as u8 },
                            10 => Op::Nested {
                                key,
                                spell,
                                how,
                                at: r.below(24) as u16,
                                fine: Point::gen(r, env.hot, 400),
                                key2: r.below(nk) as u8,
                                spell2: r.u64() as u32,
                            },
                            11 | 12 => Op::Compare { a: key, b: r.below(nk) as u8, sa: spell, sb: r.u64() as u32 },
                            13 | 14 => {
                                let t = model::respell(&keys[key as usize], r.u64()).into_bytes();
                                let t = match r.below(5) {
                                    0 => t,
                                    1 if !t.is_empty() => {
                                        // The bit that separates the cases, on any byte.
                                        let mut t = t;
                                        let i = r.below(t.len());
                                        t[i] ^= 0x20;
                                        t
                                    }
                                    2 => model::wild(r),
                                    _ => model::mutate(r, &t),
                                };
                                Op::Plain { key, spell, text: Bytes(t) }
                            }
                            4 if r.chance(1, 2) => {
                                let letters = b"0189aAbBjJtTuUwWyYzZ";
                                let a = if r.chance(1, 2) { *r.pick(letters) } else { r.u8() & 127 };
                                let b = match r.below(3) {
                                    0 => a ^ 0x20,
                                    1 => a,
                                    _ => *r.pick(letters),
                                };
                                Op::Letter { a, b, c: (r.u64() >> r.range(44, 60)) as u32 }
                            }
                            4 => Op::Bump { key, spell },
                            15 if restarts => Op::Restart { keys: r.u64() as u32, hasher: r.u8() % 6 },
                            _ => Op::Get { key, spell, borrowed: true },
                        }
                    })
                    .collect()
            })
            .collect();
        let gap = *r.pick(&[1usize, 4, 16, 60]);
        Plan {
            kind,
            keys: keys.into_iter().map(Bytes::from).collect(),
            shards: r.range(1, 4) as u8,
            hasher: r.u8() % 6,
            hash_keys: r.u64() as u32,
            threads,
            decisions: (0..r.range(0, 60)).map(|_| r.u16() & 15).collect(),
            gaps: (0..r.below(16)).map(|_| r.below(gap + 1) as u32).collect(),
        }
    }

    fn exec(p: &Plan, c: &mut Ctx) -> R {
        dispatch!(model::kind(p.kind), T => run::<T>(p, c))
    }
}
