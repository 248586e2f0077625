//! C03: Display and Debug into sinks that fail, accept part, or unwind.
use crate::ctx::{show, Ctx, R};
use crate::kinds::Ty;
use crate::model::{self, Style};
use crate::rng::{fnv, Rng, FNV0};
use crate::seams::*;
use crate::world::{panic_violation, Meta, Env, World};
use crate::{dispatch, ensure};
use langtag::{GrandfatheredLangTag, Singleton, GRANDFATHERED};
use serde::{Deserialize, Serialize};
use std::fmt::{self, Debug, Display};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Mode {
    Display,
    Debug,
    Pretty,
    Padded { width: u8, prec: Option<u8>, align: u8 },
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Sink {
    /// Accepts `at` bytes, then: 0 fails for good, 1 fails once, 2 accepts part of the write and fails for good, 3 unwinds.
    Fmt { at: u16, how: u8 },
    Io(Stream),
    Sound,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Item {
    /// 0..15 a value of that kind, 15 singleton, 16 grandfathered, 17 error of kind `sub`,
    /// 18 singleton error, 19 grandfathered error.
    what: u8,
    sub: u8,
    text: Bytes,
    owned: bool,
    attempts: Vec<(Mode, Sink)>,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Plan {
    items: Vec<Item>,
}

pub struct C03;

struct Unwound;

struct FmtSink {
    data: String,
    at: usize,
    how: u8,
    failed: bool,
    after: bool,
}
impl fmt::Write for FmtSink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if s.is_empty() {
            return Ok(());
        }
        if self.failed {
            self.after = true;
            if self.how != 1 {
                return Err(fmt::Error);
            }
        } else if self.data.len() + s.len() > self.at {
            self.failed = true;
            if self.how == 2 {
                let mut k = self.at - self.data.len();
                while !s.is_char_boundary(k) {
                    k -= 1;
                }
                self.data.push_str(&s[..k]);
            }
            if self.how == 3 {
                resume_unwind(Box::new(Unwound));
            }
            return Err(fmt::Error);
        }
        self.data.push_str(s);
        Ok(())
    }
}

fn render(v: &dyn Display, d: &dyn Debug, m: &Mode, w: &mut dyn fmt::Write) -> fmt::Result {
    match m {
        Mode::Display => write!(w, "{v}"),
        Mode::Debug => write!(w, "{d:?}"),
        Mode::Pretty => write!(w, "{d:#?}"),
        Mode::Padded { width, prec, align } => {
            let n = *width as usize;
            match (align % 4, prec.map(|p| p as usize)) {
                (0, None) => write!(w, "{v:n$}"),
                (1, None) => write!(w, "{v:*>n$}"),
                (2, None) => write!(w, "{v:^n$}"),
                (_, None) => write!(w, "{d:>n$?}"),
                (0, Some(p)) => write!(w, "{v:n$.p$}"),
                (1, Some(p)) => write!(w, "{v:->n$.p$}"),
                (2, Some(p)) => write!(w, "{v:^n$.p$}"),
                (_, Some(p)) => write!(w, "{d:<n$.p$?}"),
            }
        }
    }
}
fn render_io(v: &dyn Display, d: &dyn Debug, m: &Mode, w: &mut dyn std::io::Write) -> std::io::Result<()> {
    match m {
        Mode::Display => write!(w, "{v}"),
        Mode::Debug => write!(w, "{d:?}"),
        Mode::Pretty => write!(w, "{d:#?}"),
        Mode::Padded { width, .. } => {
            let n = *width as usize;
            write!(w, "{v:>n$}")
        }
    }
}

/// Makes the attempts. `exact`: what Display must write, where the property says so.
fn attempts(name: &str, v: &dyn Display, d: &dyn Debug, exact: Option<&str>, it: &Item, c: &mut Ctx) -> R {
    let whole = |m: &Mode, io: bool| -> Result<String, crate::ctx::V> {
        // The exact text: the value's own for Display, else what a sound sink gets.
        let mut s = String::new();
        let r = if io {
            let mut w = vec![];
            let r = render_io(v, d, m, &mut w).map_err(|_| fmt::Error);
            s = String::from_utf8_lossy(&w).into_owned();
            r
        } else {
            render(v, d, m, &mut s)
        };
        if r.is_err() {
            return Err(crate::ctx::V {
                class: "error-from-sound-sink".into(),
                detail: format!("{name}: {m:?} into a sound sink failed after {}", show(s.as_bytes())),
            });
        }
        if let (Mode::Display, Some(e)) = (m, exact) {
            if s != e {
                return Err(crate::ctx::V {
                    class: "wrong-text".into(),
                    detail: format!("{name}: displayed {} instead of {}", show(s.as_bytes()), show(e.as_bytes())),
                });
            }
        }
        Ok(s)
    };
    for (m, sink) in &it.attempts {
        c.ops += 1;
        c.checks += 1;
        match sink {
            Sink::Sound => {
                let w = whole(m, false)?;
                c.ev("sound", w.as_bytes());
            }
            Sink::Fmt { at, how } => {
                let want = whole(m, false)?;
                // Mostly inside the text: a fault after the end tests nothing.
                let at = if want.is_empty() { 0 } else { *at as usize % (want.len() + 1) };
                let mut s = FmtSink { data: String::new(), at, how: how % 4, failed: false, after: false };
                let r = catch_unwind(AssertUnwindSafe(|| render(v, d, m, &mut s)));
                c.ev("sink", s.data.as_bytes());
                let r = match r {
                    Ok(r) => Some(r),
                    Err(p) if p.is::<Unwound>() => None,
                    Err(_) => return Err(panic_violation()),
                };
                if s.failed {
                    c.fault(match how % 4 {
                        0 => "sink fails for good",
                        1 => "sink fails once",
                        2 => "sink accepts part of a write, then fails",
                        _ => "sink unwinds",
                    });
                    c.nontrivial = true;
                    ensure!(r != Some(Ok(())), "sink-error-lost", "{name}: {m:?}: sink failed after {} of {}, caller saw success",
                        show(s.data.as_bytes()), show(want.as_bytes()));
                    ensure!(r.is_none() == (how % 4 == 3), "unwind-lost", "{name}: {m:?}: the sink's unwinding was swallowed");
                    ensure!(!s.after, "written-after-failure", "{name}: {m:?}: wrote on after the sink failed, leaving {}", show(s.data.as_bytes()));
                    ensure!(want.starts_with(&s.data), "not-a-prefix", "{name}: {m:?}: sink holds {}, not a prefix of {}",
                        show(s.data.as_bytes()), show(want.as_bytes()));
                } else {
                    ensure!(r == Some(Ok(())), "error-from-sound-sink", "{name}: {m:?} failed though the sink took everything");
                    ensure!(s.data == want, "wrong-text", "{name}: {m:?} wrote {} instead of {}", show(s.data.as_bytes()), show(want.as_bytes()));
                }
                c.state(fnv(fnv(FNV0, name.as_bytes()), &[*how % 4, at.min(40) as u8, s.failed as u8, mode_id(m)]));
            }
            Sink::Io(spec) => {
                let want = whole(m, true)?;
                let mut w = SimWriter::new(spec);
                let r = render_io(v, d, m, &mut w);
                let f = w.fired();
                count(c, f, true);
                c.ev("stream", &w.data);
                ensure!(!w.after_failure, "written-after-failure", "{name}: {m:?}: wrote on after the stream failed, leaving {}", show(&w.data));
                ensure!(want.as_bytes().starts_with(&w.data), "not-a-prefix", "{name}: {m:?}: stream holds {}, not a prefix of {}",
                    show(&w.data), show(want.as_bytes()));
                if f.fail + f.end > 0 {
                    c.nontrivial = true;
                    ensure!(r.is_err(), "sink-error-lost", "{name}: {m:?}: stream failed after {} of {}, caller saw success",
                        show(&w.data), show(want.as_bytes()));
                } else {
                    ensure!(r.is_ok(), "error-from-sound-sink", "{name}: {m:?} failed though the stream took everything");
                    ensure!(w.data == want.as_bytes(), "wrong-text", "{name}: {m:?} wrote {} instead of {}", show(&w.data), show(want.as_bytes()));
                }
                c.state(fnv(fnv(FNV0, name.as_bytes()), &[9, w.data.len().min(40) as u8, r.is_ok() as u8, mode_id(m)]));
            }
        }
    }
    // A later attempt writes the whole text.
    whole(&Mode::Display, false)?;
    Ok(())
}

fn mode_id(m: &Mode) -> u8 {
    match m {
        Mode::Display => 0,
        Mode::Debug => 1,
        Mode::Pretty => 2,
        Mode::Padded { align, .. } => 3 + align % 4,
    }
}

fn value<T: Ty>(name: &str, it: &Item, c: &mut Ctx) -> R {
    let Some(v) = T::parse(&it.text.0) else { return Ok(()) };
    let exact = T::text(v);
    // The text the value was parsed from; C01 says it is exposed unchanged.
    let before = it.text.0.clone();
    if it.owned {
        let o = v.to_owned();
        attempts(name, &o, &o, Some(exact), it, c)?;
        ensure!(T::otext(&o).as_bytes() == before, "value-changed", "{name}: formatting changed {} to {}", show(&before), show(T::otext(&o).as_bytes()));
    } else {
        // &dyn Display needs a sized value: go through references.
        attempts(name, &v, &v, Some(exact), it, c)?;
        ensure!(T::text(v).as_bytes() == before, "value-changed", "{name}: formatting changed {} to {}", show(&before), show(T::text(v).as_bytes()));
    }
    Ok(())
}

impl World for C03 {
    const META: Meta = Meta {
        id: "C03",
        quick: 3_000_000,
        thorough: 8_000_000,
        batch: 5_000,
        threads: false,
        nests: false,
        survey: 0,
        rule: "one run = up to 6 values (tags, components, grandfathered tags, singletons, parse errors), each formatted up to 6 \
               times into sinks failing at a chosen byte; non-trivial: at least one sink or stream failed during a write; distinct \
               by the hash of the full event log",
        states: "distinct (type, formatting mode, way of failing, byte position of the failure capped at 40)",
        interleavings: "distinct event logs",
        real: &["Display and Debug of all types, owned forms, Singleton, GrandfatheredLangTag and the parse errors", "core::fmt and io::Write::write_fmt"],
        stub: &["fmt::Write sinks", "io::Write streams"],
        assumptions: &["for Debug, errors and padded output the exact text is what the same value writes into a sound sink"],
    };
    type Plan = Plan;

    fn gen(r: &mut Rng, env: Env) -> Plan {
        let st = Style::new(r);
        let mut items = vec![];
        for _ in 0..r.range(1, 6) {
            let what = r.u8() % 24;
            // Few types have hand-written formatting: visit them more.
            let what = if what >= 20 { 15 + what % 2 } else { what };
            let sub = r.u8();
            let text = match what {
                0..=14 if r.chance(1, 80) => {
                    let max = Style::reach(r, env.tier).min(6000);
                    st.long_text(r, model::kind(what), max).into_bytes()
                }
                0..=14 => st.text(r, model::kind(what)).into_bytes(),
                15 => vec![*r.pick(b"0123456789abcdefghijklmnopqrstuvwyzABCDEFGHIJKLMNOPQRSTUVWYZ")],
                16 => vec![r.below(26) as u8],
                17 => {
                    let t = st.text(r, model::kind(sub));
                    model::mutate(r, t.as_bytes())
                }
                _ => model::wild(r),
            };
            let n = text.len() + 1;
            let attempts = (0..r.range(1, 6))
                .map(|_| {
                    let m = match r.below(8) {
                        0..=3 => Mode::Display,
                        4 | 5 => Mode::Debug,
                        6 => Mode::Pretty,
                        _ => Mode::Padded { width: r.below(40) as u8, prec: r.chance(1, 3).then(|| r.below(12) as u8), align: r.u8() % 4 },
                    };
                    let s = match r.below(8) {
                        0..=4 => Sink::Fmt { at: if r.chance(3, 4) { r.below(n) as u16 } else { r.u16() }, how: r.u8() % 4 },
                        5 | 6 => Sink::Io(gen_stream(r, n)),
                        _ => Sink::Sound,
                    };
                    (m, s)
                })
                .collect();
            items.push(Item { what, sub, text: Bytes(text), owned: r.chance(1, 2), attempts });
        }
        Plan { items }
    }

    fn exec(p: &Plan, c: &mut Ctx) -> R {
        for it in &p.items {
            c.sim_ms += 1;
            c.ev("item", &it.text.0);
            let utf8 = std::str::from_utf8(&it.text.0).unwrap_or("");
            match it.what % 20 {
                k @ 0..=14 => {
                    let kind = model::kind(k);
                    if model::accepts(kind, &it.text.0) {
                        let name = format!("{kind:?} {}", show(&it.text.0));
                        dispatch!(kind, T => value::<T>(&name, it, c))?;
                    }
                }
                15 => {
                    let b = it.text.0.first().copied().unwrap_or(b'a');
                    if let (true, Ok(s)) = (model::is_singleton(b), Singleton::new(b)) {
                        let t = (b as char).to_string();
                        attempts(&format!("singleton {t:?}"), &s, &s, Some(&t), it, c)?;
                        ensure!(s.unwrap() == b, "value-changed", "singleton {t:?} became {:?}", s.unwrap() as char);
                    }
                }
                16 => {
                    let g = GRANDFATHERED[it.text.0.first().copied().unwrap_or(0) as usize % GRANDFATHERED.len()];
                    // It may not implement Debug; only Display is promised.
                    struct ViaDisplay(GrandfatheredLangTag);
                    impl Debug for ViaDisplay {
                        fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
                            Display::fmt(&self.0, f)
                        }
                    }
                    let t = g.as_str().to_owned();
                    attempts(&format!("grandfathered {t}"), &g, &ViaDisplay(g), Some(&t), it, c)?;
                    ensure!(g.as_str() == t, "value-changed", "grandfathered {t} became {}", g.as_str());
                }
                17 => {
                    let kind = model::kind(it.sub);
                    if !model::accepts(kind, it.text.0.as_slice()) {
                        let name = format!("error of {kind:?} for {}", show(utf8.as_bytes()));
                        dispatch!(kind, T => T::error(utf8, &mut |e, d| attempts(&name, e, d, None, it, c)))?;
                    }
                }
                18 => {
                    if let Err(e) = Singleton::from_string(utf8) {
                        attempts("singleton error", &e, &e, None, it, c)?;
                    }
                }
                _ => {
                    if let Err(e) = GrandfatheredLangTag::try_from(it.text.0.as_slice()) {
                        attempts("grandfathered error", &e, &e, None, it, c)?;
                    }
                }
            }
        }
        Ok(())
    }
}
