//! Long-lived processes. Before a run the library may be used many thousand
//! times over, as a service would have, so that a counter that wraps, a stamp
//! that comes round again or a table that fills up shows. Every use on the way
//! is checked too.
use crate::ctx::{show, Ctx, R};
use crate::kinds::Ty;
use crate::model::{self, Style, KINDS};
use crate::queries::{query, Facts, NQ};
use crate::rng::{fnv, mix, Rng, FNV0};
use crate::{alloc, dispatch, ensure};
use langtag::LangTag;
use std::cmp::Ordering;
use std::fmt::Write;
use std::hash::{Hash, Hasher};

/// How many uses come before run `run` of a campaign whose quick tier has `quick` runs.
pub fn of(seed: u64, run: u64, quick: u64, hot: bool) -> u64 {
    let h = mix(seed ^ mix(run ^ 0xA6E));
    // The first runs may be single-stepped.
    if run < 1000 || h % (quick / if hot { 600 } else { 150 }).max(1) != 0 {
        return 0;
    }
    let h = mix(h);
    [300, 300, 300, 5_000, 5_000, 70_000, 70_000, 70_000, 70_000, 270_000][(h % 10) as usize] + h / 16 % 16
}

struct Item {
    k: model::K,
    text: String,
    /// The same in another spelling.
    other: String,
    /// A different one of the same kind.
    third: String,
    bad: String,
}

#[derive(Default)]
struct Fnv(u64);
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        self.0 = fnv(self.0 ^ b.len() as u64, b);
    }
}

/// Takes up to `.2` bytes, then fails.
struct Sink([u8; 64], usize, usize);
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        for b in s.bytes() {
            if self.1 == self.2 {
                return Err(std::fmt::Error);
            }
            self.0[self.1] = b;
            self.1 += 1;
        }
        Ok(())
    }
}

fn items() -> Vec<Item> {
    let mut r = Rng::new(0xA6ED);
    let mut v = vec![];
    for round in 0..3 {
        for k in KINDS {
            let st = Style::new(&mut r);
            let mut text = || loop {
                let t = st.text(&mut r, k);
                if t.len() < 48 && !t.is_empty() {
                    break t;
                }
            };
            let t = text();
            let third = (0..50).map(|_| text()).find(|u| !u.eq_ignore_ascii_case(&t)).unwrap_or_default();
            let other = model::respell(&t, mix(round + 1));
            v.push(Item { k, other, third, bad: format!("{t}--"), text: t });
        }
    }
    v
}

fn hash(x: &(impl Hash + ?Sized)) -> u64 {
    let mut h = Fnv(FNV0);
    x.hash(&mut h);
    h.finish()
}

const CHANGED: &str = "changed-with-age";

fn parse<T: Ty>(i: &Item) -> R {
    ensure!(T::parse(i.text.as_bytes()).is_some_and(|x| T::text(x) == i.text), CHANGED, "{} is refused", show(i.text.as_bytes()));
    ensure!(T::parse(i.bad.as_bytes()).is_none(), CHANGED, "{} is accepted", show(i.bad.as_bytes()));
    ensure!(T::parse_str(&i.text).is_ok_and(|x| T::otext(&x) == i.text), CHANGED, "{} is refused", show(i.text.as_bytes()));
    Ok(())
}

fn stream<T: Ty>(i: &Item, quoted: &str) -> R {
    let Some(x) = T::parse(i.text.as_bytes()) else { return Ok(()) };
    let s = serde_json::to_string(x).unwrap_or_default();
    ensure!(s == quoted, CHANGED, "{} is written as {s}", show(i.text.as_bytes()));
    let y = serde_json::from_str::<T::O>(&s);
    ensure!(y.is_ok_and(|y| T::otext(&y) == i.text), CHANGED, "{s} is not read back");
    let y = T::de_borrowed(&mut serde_json::Deserializer::from_str(&s));
    ensure!(y.is_ok_and(|y| T::text(y) == i.text), CHANGED, "{s} is not read back borrowed");
    Ok(())
}

fn print<T: Ty>(i: &Item) -> R {
    let Some(x) = T::parse(i.text.as_bytes()) else { return Ok(()) };
    let n = i.text.len();
    let mut s = Sink([0; 64], 0, n - 1);
    ensure!(write!(s, "{x}").is_err(), CHANGED, "displaying {} does not report the failure", show(i.text.as_bytes()));
    ensure!(&s.0[..s.1] == &i.text.as_bytes()[..s.1], CHANGED, "displaying {} began with {}", show(i.text.as_bytes()), show(&s.0[..s.1]));
    let mut s = Sink([0; 64], 0, 64);
    let ok = write!(s, "{x}").is_ok();
    ensure!(ok && &s.0[..s.1] == i.text.as_bytes(), CHANGED, "displaying {} gave {}", show(i.text.as_bytes()), show(&s.0[..s.1]));
    Ok(())
}

fn relate<T: Ty>(i: &Item, first: Option<Ordering>) -> Result<Option<Ordering>, crate::ctx::V> {
    let t = || format!("{} and {}", show(i.text.as_bytes()), show(i.other.as_bytes()));
    let (Some(x), Some(y)) = (T::parse(i.text.as_bytes()), T::parse(i.other.as_bytes())) else { return Ok(first) };
    let same = |a: bool, what: &str| {
        ensure!(a, CHANGED, "{what} of {}", t());
        Ok(())
    };
    same(x == y, "equality")?;
    same(hash(x) == hash(y), "hash")?;
    same(x.cmp(y) == Ordering::Equal && x.partial_cmp(y) == Some(Ordering::Equal), "order")?;
    same(*x == *i.other && *x == *i.other.as_bytes(), "equality with text")?;
    let Some(z) = T::parse(i.third.as_bytes()) else { return Ok(first) };
    if !i.third.eq_ignore_ascii_case(&i.text) {
        let o = x.cmp(z);
        let ok = x != z && o != Ordering::Equal && z.cmp(y) == o.reverse() && first.unwrap_or(o) == o;
        ensure!(ok, CHANGED, "relation of {} and {}", show(i.text.as_bytes()), show(i.third.as_bytes()));
        return Ok(Some(o));
    }
    Ok(first)
}

fn own<T: Ty>(i: &Item, n: u64) -> R {
    let s = i.text.clone();
    let at = s.as_ptr();
    let o = T::adopt_string(n as u8, s);
    let Ok(o) = o else { return parse::<T>(i) };
    let c = o.clone();
    let back = T::release_string(n as u8, o);
    ensure!(back == i.text && back.as_ptr() == at, CHANGED, "the buffer of {} does not come back", show(i.text.as_bytes()));
    ensure!(T::otext(&c) == i.text, CHANGED, "the copy of {} reads {}", show(i.text.as_bytes()), show(T::otext(&c).as_bytes()));
    let r = T::adopt_string(n as u8, i.bad.clone());
    ensure!(r.is_err_and(|e| e == i.bad), CHANGED, "{} does not come back", show(i.bad.as_bytes()));
    Ok(())
}

pub fn grow(prop: &str, age: u64, c: &mut Ctx) -> R {
    if age == 0 {
        return Ok(());
    }
    c.ev("age", &age.to_le_bytes());
    c.probe("library aged first");
    *c.faults.entry("uses before the run").or_insert(0) += age;
    let items = items();
    let tags: Vec<(&str, Facts)> = items.iter().filter(|i| i.k == model::K::Tag).map(|i| &i.text[..])
        .chain(["en-Latn-US-rozaj-1994-a-bc-de-u-co-phonebk-x-a-b", "x-a-bcd", "i-klingon", "zh-min-nan"])
        .map(|t| (t, Facts::new(t.as_bytes())))
        .collect();
    let quoted: Vec<String> = items.iter().map(|i| format!("\"{}\"", i.text)).collect();
    let mut order = vec![None; items.len()];
    for n in 0..age {
        let at = n as usize % items.len();
        let i = &items[at];
        let r = match prop {
            "C01" => dispatch!(i.k, T => parse::<T>(i)),
            "C02" => dispatch!(i.k, T => stream::<T>(i, &quoted[at])),
            "C03" => dispatch!(i.k, T => print::<T>(i)),
            "C06" | "C07" => dispatch!(i.k, T => relate::<T>(i, order[at])).map(|o| order[at] = o),
            "C13" => dispatch!(i.k, T => own::<T>(i, n)),
            "C14" => dispatch!(i.k, T => print::<T>(i).and_then(|_| relate::<T>(i, order[at])).map(|o| order[at] = o)),
            _ => {
                let (t, f) = &tags[n as usize % tags.len()];
                match LangTag::new(*t) {
                    Err(_) => Err(crate::ctx::V { class: CHANGED.into(), detail: format!("{} is refused", show(t.as_bytes())) }),
                    Ok(tag) => {
                        if prop == "C08" {
                            alloc::refused();
                            alloc::deny(true);
                        }
                        let one: &[u8] = if prop == "C05" { &[3, 7, 10, 12, 14, 23] } else { &[1, 2, 4, 5, 6, 8, 9, 11, 13, 15, 18, 19, 21, 22] };
                        let r = one.iter().try_for_each(|q| query(q % NQ, n as u8, tag, f, true));
                        if prop == "C08" {
                            alloc::deny(false);
                            if r.is_ok() && alloc::refused() > 0 {
                                return Err(crate::ctx::V { class: "allocation".into(), detail: format!("queries on {} asked for memory after {n} others", show(t.as_bytes())) });
                            }
                        }
                        r
                    }
                }
            }
        };
        r.map_err(|mut v| {
            v.detail = format!("{} (after {n} uses)", v.detail);
            v
        })?;
    }
    c.ops += age;
    c.checks += age;
    Ok(())
}
