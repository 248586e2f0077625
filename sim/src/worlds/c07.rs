//! C07: replicas of an ordered tag index over a faulty network.
use crate::ctx::{show, Ctx, R, V};
use crate::kinds::Ty;
use crate::model::{self, Style, K};
use crate::rng::{fnv, Rng, FNV0};
use crate::seams::{Bytes, Placed};
use crate::world::{Meta, Env, World};
use crate::{dispatch, ensure, fail};
use langtag::{Singleton, GRANDFATHERED};
use serde::{Deserialize, Serialize};
use std::borrow::Borrow;
use std::cmp::{Ordering, Reverse};
use std::collections::{BTreeMap, BTreeSet, BinaryHeap};
use std::ops::Bound;

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Ev {
    /// A client writes through a node.
    Put { node: u8, key: u8, spell: u32 },
    Delete { node: u8, key: u8, spell: u32 },
    /// Reads through a node.
    Get { node: u8, key: u8, spell: u32 },
    Range { node: u8, lo: u8, hi: u8, spell: u32, incl: u8 },
    /// A node makes its log durable.
    Sync { node: u8 },
    /// A node crashes: what was not synced is lost, `torn` of it excepted.
    Crash { node: u8, torn: u8 },
    /// It replays its log. `how`: 0 in order, 1 backwards, 2 sorted by the index order first.
    Restart { node: u8, how: u8 },
    /// Nodes whose bit is set and the others cannot talk.
    Partition { side: u8 },
    Heal,
    /// A node sends its whole log to another.
    Gossip { from: u8, to: u8 },
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Plan {
    kind: u8,
    keys: Vec<Bytes>,
    nodes: u8,
    /// (simulated milliseconds since the previous one, what happens).
    events: Vec<(u8, Ev)>,
    /// Fate of each message sent: 0 lost, 1 duplicated, else delayed by that many ms (modulo 60).
    net: Vec<u8>,
    /// Order in which the nodes exchange at the end.
    finale: Vec<u8>,
    /// Singletons, and places in the table of registered tags, to be sorted.
    #[serde(default)]
    letters: Bytes,
}

pub struct C07;

#[derive(Clone)]
struct Update<O> {
    key: O,
    /// Last writer wins: (logical time, node).
    stamp: (u64, u8),
    live: bool,
}

struct Node<O: Ord> {
    up: bool,
    index: BTreeMap<O, ((u64, u8), bool)>,
    /// The same by the model: text in lower case.
    model: BTreeMap<String, ((u64, u8), bool)>,
    log: Vec<Update<O>>,
    durable: usize,
    clock: u64,
}

struct Msg<O> {
    to: usize,
    from: usize,
    updates: Vec<Update<O>>,
}

const NOT: &str = "entry-not-found";

fn apply<T: Ty>(n: &mut Node<T::O>, u: &Update<T::O>, log: bool, c: &mut Ctx) -> R {
    c.ops += 1;
    n.clock = n.clock.max(u.stamp.0);
    let m = n.model.entry(model::lower(T::otext(&u.key))).or_insert(((0, 0), false));
    let newer = u.stamp > m.0;
    if newer {
        *m = (u.stamp, u.live);
    }
    let before = n.index.len();
    match n.index.get_mut(&u.key) {
        Some(v) => {
            ensure!(newer == (u.stamp > v.0), "wrong-entry", "{} led to another key's entry", show(T::otext(&u.key).as_bytes()));
            if newer {
                *v = (u.stamp, u.live);
            }
        }
        None => {
            n.index.insert(u.key.clone(), (u.stamp, u.live));
        }
    }
    c.checks += 1;
    ensure!(n.index.len() == n.model.len(), if n.index.len() > n.model.len() { "duplicate-entry" } else { "entries-merged" },
        "applying {} took the index from {before} to {} entries; {} keys differ ignoring case",
        show(T::otext(&u.key).as_bytes()), n.index.len(), n.model.len());
    if log && newer {
        n.log.push(u.clone());
    }
    Ok(())
}

fn parse<T: Ty>(t: &str) -> Result<T::O, V> {
    T::parse_own(t.to_owned()).ok_or_else(|| V { class: "well-formed-key-refused".into(), detail: show(t.as_bytes()) })
}

fn get<T: Ty>(n: &Node<T::O>, t: &str, c: &mut Ctx) -> R {
    let o = parse::<T>(t)?;
    let Some(b) = T::parse(t.as_bytes()) else { fail!("well-formed-key-refused", "{}", show(t.as_bytes())) };
    let want = n.model.get(&model::lower(t));
    c.ops += 2;
    c.checks += 2;
    for (form, got) in [("owned", n.index.get::<T::O>(&o)), ("borrowed", n.index.get(b))] {
        if got != want {
            fail!(if got.is_none() { NOT } else { "wrong-entry" }, "{form} lookup of {} gave {got:?}, expected {want:?}", show(t.as_bytes()));
        }
    }
    c.ev("get", t.as_bytes());
    Ok(())
}

fn range<T: Ty>(n: &Node<T::O>, lo: &str, hi: &str, incl: u8, c: &mut Ctx) -> R {
    let (a, b) = (parse::<T>(lo)?, parse::<T>(hi)?);
    // BTreeMap::range panics when start > end, or both excluded and equal.
    let (a, b) = match a.cmp(&b) {
        Ordering::Greater => (b, a),
        _ => (a, b),
    };
    let (x, y): (&T::B, &T::B) = (a.borrow(), b.borrow());
    if x == y && incl & 3 != 3 {
        return Ok(());
    }
    fn bound<K: ?Sized>(k: &K, inc: bool) -> Bound<&K> {
        if inc {
            Bound::Included(k)
        } else {
            Bound::Excluded(k)
        }
    }
    let got: Vec<&T::O> = n.index.range::<T::B, _>((bound(x, incl & 1 != 0), bound(y, incl & 2 != 0))).map(|e| e.0).collect();
    let got2: Vec<&T::O> = n.index.range::<T::O, _>((bound(&a, incl & 1 != 0), bound(&b, incl & 2 != 0))).map(|e| e.0).collect();
    let want: Vec<&T::O> = n
        .index
        .keys()
        .filter(|k| {
            let (p, q) = ((*k).cmp(&a), (*k).cmp(&b));
            (p == Ordering::Greater || (incl & 1 != 0 && p == Ordering::Equal))
                && (q == Ordering::Less || (incl & 2 != 0 && q == Ordering::Equal))
        })
        .collect();
    c.ops += 2;
    c.checks += 2;
    c.ev("range", &[got.len() as u8, incl & 3]);
    for g in [&got, &got2] {
        ensure!(g.len() == want.len() && g.iter().zip(&want).all(|(a, b)| std::ptr::eq(*a, *b)), "wrong-range",
            "range {} to {} gave {:?}, expected {:?}", show(T::otext(&a).as_bytes()), show(T::otext(&b).as_bytes()),
            g.iter().map(|k| T::otext(k)).collect::<Vec<_>>(), want.iter().map(|k| T::otext(k)).collect::<Vec<_>>());
    }
    if !want.is_empty() {
        c.probe("range with entries");
    }
    Ok(())
}

/// How two texts compare by the first letter, digit or hyphen in which they
/// differ, if neither begins the other.
fn first_difference(a: &[u8], b: &[u8]) -> Option<Ordering> {
    a.iter().zip(b).map(|(a, b)| a.to_ascii_lowercase().cmp(&b.to_ascii_lowercase())).find(|o| o.is_ne())
}

/// The listing is strictly ascending under every spelling and operand form.
fn strict<T: Ty>(kind: K, keys: &[&T::O], salt: u64, c: &mut Ctx) -> R {
    let spelled: Vec<Placed> = keys
        .iter()
        .enumerate()
        .map(|(i, k)| {
            let salt = salt.wrapping_mul(31).wrapping_add(i as u64);
            Placed::new(model::respell(T::otext(k), salt), salt)
        })
        .collect();
    for (i, a) in keys.iter().enumerate() {
        let ab: &T::B = (*a).borrow();
        for (j, t) in spelled.iter().enumerate() {
            let want = i.cmp(&j);
            if let Some(first) = first_difference(T::otext(a).as_bytes(), t.as_bytes()) {
                ensure!(first == want, "order-not-alphabetical", "{} listed {} {}",
                    show(T::otext(a).as_bytes()), match want { Ordering::Less => "before", Ordering::Equal => "as", _ => "after" }, show(t.as_bytes()));
            }
            let b = parse::<T>(t)?;
            let Some(bb) = T::parse(t.as_bytes()) else { fail!("well-formed-key-refused", "{}", show(t.as_bytes())) };
            c.checks += 1;
            c.ops += 6;
            let forms = [
                (**a).cmp(&b),
                b.cmp(*a).reverse(),
                ab.cmp(bb),
                bb.cmp(ab).reverse(),
                PartialOrd::<T::O>::partial_cmp(*a, &b).unwrap_or(if want == Ordering::Equal { Ordering::Less } else { want.reverse() }),
                (**a).partial_cmp(bb).unwrap_or(if want == Ordering::Equal { Ordering::Less } else { want.reverse() }),
                ab.partial_cmp(&b).unwrap_or(if want == Ordering::Equal { Ordering::Less } else { want.reverse() }),
                ab.partial_cmp(bb).unwrap_or(if want == Ordering::Equal { Ordering::Less } else { want.reverse() }),
            ];
            for (f, got) in forms.iter().enumerate() {
                ensure!(*got == want, "order-inconsistent", "{} listed {} {}, but compared as {} gives {got:?} (form {f})",
                    show(T::otext(a).as_bytes()), match want { Ordering::Less => "before", Ordering::Equal => "as", _ => "after" },
                    show(keys[j].as_ref_text::<T>().as_bytes()), show(t.as_bytes()));
            }
            let texts = T::cmp_text(ab, a, t);
            for (f, got) in texts.iter().enumerate() {
                ensure!(*got == Some(want), "order-inconsistent", "{} against plain text {} gives {got:?}, expected {want:?} (form {f})",
                    show(T::otext(a).as_bytes()), show(t.as_bytes()));
            }
            ensure!((*ab == *bb) == (want == Ordering::Equal), "order-disagrees-with-equality", "{} and {}", show(T::otext(a).as_bytes()), show(t.as_bytes()));
            ensure!(
                (ab < bb) == (want == Ordering::Less) && (ab <= bb) == (want != Ordering::Greater)
                    && (ab > bb) == (want == Ordering::Greater) && (ab >= bb) == (want != Ordering::Less),
                "order-inconsistent", "operators disagree on {} and {}", show(T::otext(a).as_bytes()), show(t.as_bytes())
            );
        }
    }
    // Parts of a text, in place: other texts at the same or a near address.
    for t in spelled.iter().take(3) {
        let Some(whole) = T::parse(t.as_bytes()) else { continue };
        for (i, j) in model::views(kind, t, salt) {
            let part = &t[i..j];
            let (Some(v), copy) = (T::parse(part.as_bytes()), parse::<T>(part)?) else { continue };
            let apart: &T::B = copy.borrow();
            let want = whole.cmp(apart);
            c.checks += 1;
            c.ops += 6;
            c.probe("compared with a part of itself");
            ensure!(want != Ordering::Equal, "entries-merged", "{} compares as equal to {}", show(t.as_bytes()), show(part.as_bytes()));
            let got = [
                Some(whole.cmp(v)),
                Some(v.cmp(whole).reverse()),
                whole.partial_cmp(v),
                whole.partial_cmp(part),
                whole.partial_cmp(part.as_bytes()),
                v.partial_cmp(&**t).map(Ordering::reverse),
            ];
            for (f, got) in got.iter().enumerate() {
                ensure!(*got == Some(want), "order-inconsistent", "{} against its part {} gives {got:?} where it lies, {want:?} elsewhere (form {f})",
                    show(t.as_bytes()), show(part.as_bytes()));
            }
            ensure!(whole != v, "order-disagrees-with-equality", "{} equals its part {}", show(t.as_bytes()), show(part.as_bytes()));
        }
    }
    Ok(())
}

/// Singletons and registered tags are in one strict order, too.
fn letters(p: &Plan, c: &mut Ctx) -> R {
    fn order<X: Ord + Copy + std::fmt::Display>(xs: &[X], same: impl Fn(usize, usize) -> bool, c: &mut Ctx) -> R {
        let cls = "order-inconsistent";
        for (i, a) in xs.iter().enumerate() {
            for (j, b) in xs.iter().enumerate() {
                let ab = a.cmp(b);
                c.ops += 4;
                c.checks += 1;
                ensure!(!same(i, j) || ab == Ordering::Equal, cls, "{a} and {b} compare as {ab:?}");
                ensure!(b.cmp(a) == ab.reverse(), cls, "{a} and {b} compare as {ab:?}, the other way as {:?}", b.cmp(a));
                ensure!((a == b) == (ab == Ordering::Equal), "order-disagrees-with-equality", "{a} and {b}");
                ensure!(
                    a.partial_cmp(b) == Some(ab) && (a < b) == (ab == Ordering::Less) && (a >= b) == (ab != Ordering::Less),
                    cls, "operators disagree on {a} and {b}"
                );
                for d in xs {
                    ensure!(ab == Ordering::Greater || b.cmp(d) == Ordering::Greater || a.cmp(d) != Ordering::Greater, cls,
                        "{a} is not after {b}, {b} not after {d}, but {a} is after {d}");
                }
            }
        }
        Ok(())
    }
    let b: Vec<u8> = p.letters.0.iter().copied().filter(|b| model::is_singleton(*b)).collect();
    let s: Vec<Singleton> = b.iter().filter_map(|b| Singleton::new(*b).ok()).collect();
    order(&s, |i, j| s[i].unwrap() == s[j].unwrap(), c)?;
    for (i, x) in s.iter().enumerate() {
        for (j, y) in s.iter().enumerate() {
            let (a, b) = (x.unwrap(), y.unwrap());
            ensure!(x.cmp(y) != Ordering::Equal || a.eq_ignore_ascii_case(&b), "entries-merged", "singletons {x} ({i}) and {y} ({j}) compare as equal");
        }
    }
    let g: Vec<_> = p.letters.0.iter().map(|b| GRANDFATHERED[*b as usize % 26]).collect();
    order(&g, |i, j| g[i].as_str() == g[j].as_str(), c)?;
    for (x, y) in g.iter().zip(g.iter().skip(1)) {
        ensure!(x.as_str() == y.as_str() || x.cmp(y) != Ordering::Equal, "entries-merged", "{x} and {y} compare as equal");
    }
    c.ev("letters", &p.letters.0);
    Ok(())
}

trait TextOf {
    fn as_ref_text<T: Ty<O = Self>>(&self) -> &str;
}
impl<O> TextOf for O {
    fn as_ref_text<T: Ty<O = Self>>(&self) -> &str {
        T::otext(self)
    }
}

fn run<T: Ty>(p: &Plan, c: &mut Ctx) -> R {
    let kind = model::kind(p.kind);
    let keys: Vec<String> = p
        .keys
        .iter()
        .filter(|k| model::accepts(kind, &k.0))
        .filter_map(|k| String::from_utf8(k.0.clone()).ok())
        .collect();
    let nn = (p.nodes as usize).clamp(1, 5);
    letters(p, c)?;
    if keys.is_empty() {
        return Ok(());
    }
    for k in &keys {
        c.state(model::shape(p.kind, k.as_bytes()));
    }
    let text = |key: u8, spell: u32| Placed::new(model::respell(&keys[key as usize % keys.len()], spell as u64), spell as u64);
    let mut nodes: Vec<Node<T::O>> = (0..nn)
        .map(|_| Node { up: true, index: BTreeMap::new(), model: BTreeMap::new(), log: vec![], durable: 0, clock: 0 })
        .collect();
    let mut queue: BinaryHeap<Reverse<(u64, u64)>> = BinaryHeap::new();
    let mut flight: BTreeMap<u64, Msg<T::O>> = BTreeMap::new();
    let (mut seq, mut sent, mut now) = (0u64, 0usize, 0u64);
    let mut side: Option<u8> = None;
    let cut = |side: Option<u8>, a: usize, b: usize| side.is_some_and(|s| (s >> a & 1) != (s >> b & 1));

    let mut events: Vec<(u64, &Ev)> = vec![];
    let mut t = 0;
    for (dt, e) in &p.events {
        t += *dt as u64;
        events.push((t, e));
    }
    let mut next = 0;
    loop {
        // What is due first: a message or the next scripted event.
        let due = queue.peek().map(|x| x.0);
        let script = events.get(next).map(|e| e.0);
        let msg = match (due, script) {
            (None, None) => break,
            (Some(d), Some(s)) if d.0 <= s => true,
            (Some(_), None) => true,
            _ => false,
        };
        let mut send: Vec<(usize, usize, Vec<Update<T::O>>)> = vec![];
        if msg {
            let Some(Reverse((at, id))) = queue.pop() else { break };
            now = now.max(at);
            let Some(m) = flight.remove(&id) else { continue };
            if !nodes[m.to].up {
                c.fault("message to a crashed node");
                continue;
            }
            if cut(side, m.from, m.to) {
                c.fault("message lost in a partition");
                continue;
            }
            c.sched = fnv(c.sched, &[m.from as u8, m.to as u8, m.updates.len() as u8]);
            for u in &m.updates {
                apply::<T>(&mut nodes[m.to], u, true, c)?;
            }
            c.probe("message delivered");
        } else {
            now = now.max(events[next].0);
            let e = events[next].1;
            next += 1;
            let id = |n: u8| n as usize % nn;
            match e {
                Ev::Put { node, key, spell } | Ev::Delete { node, key, spell } => {
                    let i = id(*node);
                    if nodes[i].up {
                        let k = parse::<T>(&text(*key, *spell))?;
                        nodes[i].clock += 1;
                        let u = Update { key: k, stamp: (nodes[i].clock, i as u8), live: matches!(e, Ev::Put { .. }) };
                        c.ev("write", T::otext(&u.key).as_bytes());
                        apply::<T>(&mut nodes[i], &u, true, c)?;
                        for to in 0..nn {
                            if to != i {
                                send.push((i, to, vec![u.clone()]));
                            }
                        }
                    }
                }
                Ev::Get { node, key, spell } => {
                    let i = id(*node);
                    if nodes[i].up {
                        get::<T>(&nodes[i], &text(*key, *spell), c)?;
                    }
                }
                Ev::Range { node, lo, hi, spell, incl } => {
                    let i = id(*node);
                    if nodes[i].up {
                        range::<T>(&nodes[i], &text(*lo, *spell), &text(*hi, spell.rotate_left(7)), *incl, c)?;
                    }
                }
                Ev::Sync { node } => {
                    let n = &mut nodes[id(*node)];
                    if n.up {
                        n.durable = n.log.len();
                    }
                }
                Ev::Crash { node, torn } => {
                    let n = &mut nodes[id(*node)];
                    if n.up {
                        let extra = n.log.len() - n.durable;
                        let keep = n.durable + *torn as usize % (extra + 1);
                        c.fault(if keep < n.log.len() { "crash losing unsynced updates" } else { "crash" });
                        n.log.truncate(keep);
                        n.durable = keep;
                        n.up = false;
                        n.index.clear();
                        n.model.clear();
                    }
                }
                Ev::Restart { node, how } => {
                    let i = id(*node);
                    if !nodes[i].up {
                        nodes[i].up = true;
                        let mut log = nodes[i].log.clone();
                        match how % 3 {
                            0 => {}
                            1 => log.reverse(),
                            _ => log.sort_by(|a, b| a.key.cmp(&b.key)),
                        }
                        for u in &log {
                            apply::<T>(&mut nodes[i], u, false, c)?;
                        }
                        c.fault("restart from the log");
                    }
                }
                Ev::Partition { side: s } => {
                    side = Some(*s);
                    c.fault("partition");
                }
                Ev::Heal => side = None,
                Ev::Gossip { from, to } => {
                    let (a, b) = (id(*from), id(*to));
                    if a != b && nodes[a].up {
                        send.push((a, b, nodes[a].log.clone()));
                    }
                }
            }
        }
        for (from, to, updates) in send {
            let fate = if p.net.is_empty() { 7 } else { p.net[sent % p.net.len()] };
            sent += 1;
            let copies = match fate {
                0 => {
                    c.fault("message lost");
                    continue;
                }
                1 => {
                    c.fault("message duplicated");
                    2
                }
                _ => 1,
            };
            for k in 0..copies {
                let delay = (fate as u64 % 60) + k * 35;
                if delay > 30 {
                    c.fault("message delayed");
                }
                if flight.len() < 512 {
                    seq += 1;
                    if queue.iter().any(|x| x.0 .0 > now + delay) {
                        c.fault("message overtakes another");
                    }
                    queue.push(Reverse((now + delay, seq)));
                    flight.insert(seq, Msg { to, from, updates: updates.clone() });
                }
            }
        }
    }
    // Faults stop. Everyone is up and two rounds of full exchange go through.
    for n in nodes.iter_mut() {
        if !n.up {
            n.up = true;
            for u in n.log.clone() {
                apply::<T>(n, &u, false, c)?;
            }
        }
    }
    for round in 0..2 {
        for i in 0..nn * nn {
            let k = p.finale.get((round * nn * nn + i) % p.finale.len().max(1)).copied().unwrap_or(0) as usize;
            let pair = (i + k) % (nn * nn);
            // Every ordered pair still takes part.
            for (a, b) in [(pair / nn, pair % nn), (i / nn, i % nn)] {
                if a != b {
                    let updates: Vec<Update<T::O>> =
                        nodes[a].index.iter().map(|(k, v)| Update { key: k.clone(), stamp: v.0, live: v.1 }).collect();
                    for u in &updates {
                        apply::<T>(&mut nodes[b], u, true, c)?;
                    }
                }
            }
        }
    }
    c.sim_ms += now + 200;
    // One listing everywhere.
    let listing = |n: &Node<T::O>| -> Vec<(String, (u64, u8), bool)> {
        n.index.iter().map(|(k, v)| (model::lower(T::otext(k)), v.0, v.1)).collect()
    };
    let first = listing(&nodes[0]);
    for (i, n) in nodes.iter().enumerate() {
        c.checks += 1;
        let l = listing(n);
        ensure!(l == first, "replicas-diverge", "node 0 lists {first:?}, node {i} lists {l:?}");
        let set: BTreeSet<&String> = l.iter().map(|e| &e.0).collect();
        ensure!(set.len() == l.len(), "duplicate-entry", "node {i} lists {l:?}");
        ensure!(l.len() == n.model.len() && l.iter().all(|e| n.model.get(&e.0) == Some(&(e.1, e.2))), "wrong-content",
            "node {i} lists {l:?}, the model holds {:?}", n.model);
    }
    c.ev("listing", format!("{first:?}").as_bytes());
    // The same set built in other ways gives the same listing.
    let n = &nodes[0];
    let keys_now: Vec<&T::O> = n.index.keys().collect();
    strict::<T>(kind, &keys_now, now ^ first.len() as u64, c)?;
    let mut sorted: Vec<T::O> = Vec::new();
    for (i, (k, ..)) in first.iter().enumerate() {
        let at = p.finale.get(i % p.finale.len().max(1)).copied().unwrap_or(0) as usize % (sorted.len() + 1);
        sorted.insert(at, parse::<T>(&model::respell(k, i as u64 * 5 + now))?);
    }
    if now & 1 == 0 {
        sorted.sort();
    } else {
        sorted.sort_unstable();
    }
    let same = sorted.iter().map(|k| model::lower(T::otext(k))).eq(first.iter().map(|e| e.0.clone()));
    ensure!(same, "sort-disagrees", "sorting gives {:?}, the index {first:?}", sorted.iter().map(T::otext).collect::<Vec<_>>());
    for (i, (k, ..)) in first.iter().enumerate() {
        for spell in [0u64, 1, 2 + i as u64 + now] {
            let t = Placed::new(model::respell(k, spell), spell);
            get::<T>(n, &t, c)?;
            let found = [
                sorted.binary_search_by(|x| T::cmp_text(x.borrow(), x, &t)[0].unwrap_or(Ordering::Less)),
                sorted.binary_search(&parse::<T>(&t)?),
                sorted.binary_search_by(|x| x.partial_cmp(&*t).unwrap_or(Ordering::Less)),
            ];
            for f in found {
                ensure!(f == Ok(i), NOT, "binary search of {} in the sorted listing gave {f:?} instead of {i}", show(t.as_bytes()));
            }
        }
    }
    // Extremes.
    if let (Some(lo), Some(hi)) = (sorted.iter().min(), sorted.iter().max()) {
        let ends = (n.index.keys().next(), n.index.keys().next_back());
        ensure!(ends.0 == Some(lo) && ends.1 == Some(hi), "order-inconsistent", "minimum or maximum is not at the end of the listing");
    }
    c.ev("schedule", &c.sched.to_le_bytes());
    c.nontrivial = c.fired > 0 && first.len() > 1;
    Ok(())
}

impl World for C07 {
    const META: Meta = Meta {
        id: "C07",
        quick: 400_000,
        thorough: 4_000_000,
        batch: 2_500,
        threads: false,
        nests: false,
        survey: 0,
        rule: "one run = 1 to 5 replicas, up to 50 scripted events (writes, reads, range reads, syncs, crashes, restarts, partitions, \
               gossip) and the message fates, all derived from (seed, run), then two fault-free rounds of exchange; non-trivial: at \
               least one fault fired and at least two keys in the final listing; distinct by the hash of the full event log",
        states: "distinct (kind, segment lengths and character classes of the key)",
        interleavings: "distinct sequences of message deliveries (from, to, size)",
        real: &["Ord, PartialOrd, Eq of all 15 types, owned forms and plain-text operands", "std BTreeMap, sort, binary search"],
        stub: &["nodes, network, disks and clock (discrete-event)"],
        assumptions: &["last-writer-wins stamps with node number as tie-break make the set of updates order-independent"],
    };
    type Plan = Plan;

    fn gen(r: &mut Rng, env: Env) -> Plan {
        let st = Style::new(r);
        let kind = if r.chance(1, 4) { 0 } else { r.u8() % 15 };
        let k = model::kind(kind);
        let mut keys: Vec<String> = vec![];
        for _ in 0..r.range(1, 10) {
            let t = if !keys.is_empty() && r.chance(2, 3) {
                let base = r.pick(&keys).clone();
                if r.chance(1, 3) {
                    // A prefix or an extension of another key.
                    let n = base.len();
                    let cut = r.range(0, n);
                    let p = base[..cut].to_string();
                    if p.len() < n && model::accepts(k, p.as_bytes()) {
                        p
                    } else {
                        st.near(r, k, &base)
                    }
                } else {
                    st.near(r, k, &base)
                }
            } else if r.chance(1, 60) {
                {
                    let max = Style::reach(r, env.tier);
                    st.long_text(r, k, max)
                }
            } else {
                st.text(r, k)
            };
            keys.push(t);
        }
        if r.chance(1, 40) {
            // The same beginning, and a length a narrow count takes for the same.
            let t = r.pick(&keys).clone();
            let by = Style::wrap(r);
            keys.extend(st.stretch(r, k, &t, by));
        }
        let (nk, nodes) = (keys.len(), r.range(1, 5));
        let mask = r.u16();
        let on = |b: u16| mask >> b & 1 == 1;
        let mut events = vec![];
        for _ in 0..r.range(2, 50) {
            let (node, key, spell) = (r.below(nodes) as u8, r.below(nk) as u8, r.u64() as u32);
            let dt = if r.chance(1, 3) { 0 } else { r.below(40) as u8 };
            let e = match r.below(20) {
                0..=8 => Ev::Put { node, key, spell },
                9 => Ev::Delete { node, key, spell },
                10 | 11 => Ev::Get { node, key, spell },
                12 | 13 => Ev::Range { node, lo: key, hi: r.below(nk) as u8, spell, incl: r.u8() },
                14 => Ev::Sync { node },
                15 if on(0) => Ev::Crash { node, torn: r.u8() },
                16 if on(0) => Ev::Restart { node, how: r.u8() },
                17 if on(1) => Ev::Partition { side: r.u8() },
                18 if on(1) => Ev::Heal,
                _ => Ev::Gossip { from: node, to: r.below(nodes) as u8 },
            };
            events.push((dt, e));
        }
        let (loss, dup) = (on(2), on(3));
        Plan {
            kind,
            keys: keys.into_iter().map(Bytes::from).collect(),
            nodes: nodes as u8,
            events,
            net: (0..r.range(1, 40))
                .map(|_| match r.below(8) {
                    0 if loss => 0,
                    1 if dup => 1,
                    _ => r.range(2, 250) as u8,
                })
                .collect(),
            finale: (0..r.range(1, 20)).map(|_| r.u8()).collect(),
            letters: Bytes(if r.chance(1, 8) {
                let mut l = vec![];
                for _ in 0..r.range(2, 6) {
                    let b = *r.pick(b"0123456789abcdefghijklmnopqrstuvwyz");
                    l.push(b);
                    if r.chance(1, 2) {
                        l.push(b.to_ascii_uppercase());
                    }
                }
                l
            } else {
                vec![]
            }),
        }
    }

    fn exec(p: &Plan, c: &mut Ctx) -> R {
        let _ = (FNV0, K::Tag);
        dispatch!(model::kind(p.kind), T => run::<T>(p, c))
    }
}
