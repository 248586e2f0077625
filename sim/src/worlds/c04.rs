//! C04: threads examining shared tags while others come and go.
use crate::fine::{self, Point};
use crate::ctx::{show, Ctx, R, V};
use crate::model::{self, Style, K};
use crate::queries::{query, Facts, NAMES, NQ};
use crate::rng::Rng;
use crate::sched::{self, Sched};
use crate::seams::Bytes;
use crate::world::{guarded, Meta, Env, World};
use crate::fail;
use langtag::{LangTag, LangTagBuf};
use serde::{Deserialize, Serialize};
use std::cell::UnsafeCell;

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Op {
    /// Query the tag in a slot.
    Query { slot: u8, q: u8, arg: u8 },
    /// Keep hold of a slot's tag over a yield, then ask twice.
    Held { slot: u8, q: u8, arg: u8, q2: u8 },
    /// Put another text where a tag was, if nobody is looking.
    Rewrite { slot: u8, text: u8 },
    /// A short-lived owned tag.
    Temp { text: u8, q: u8, arg: u8 },
    /// Ask everything.
    All { slot: u8, arg: u8 },
    Yield,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Plan {
    texts: Vec<Bytes>,
    slots: Vec<u8>,
    threads: Vec<Vec<Op>>,
    decisions: Vec<u16>,
    /// Hook points between preemptions inside library calls.
    gaps: Vec<u32>,
    /// Preemptions at single instructions.
    fine: Vec<Fine>,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Fine {
    thread: u8,
    op: u8,
    /// Points of the execution of the operation's library calls.
    at: Vec<Point>,
}

pub struct C04;

struct Slot {
    buf: Vec<u8>,
    text: usize,
    readers: usize,
}

struct Shared<'a> {
    slots: UnsafeCell<Vec<Slot>>,
    c: UnsafeCell<&'a mut Ctx>,
    failed: UnsafeCell<Option<V>>,
    facts: Vec<Facts>,
}
// SAFETY: only the thread holding the scheduler's turn touches the cells.
unsafe impl Sync for Shared<'_> {}

impl<'a> Shared<'a> {
    #[allow(clippy::mut_from_ref)]
    fn slots(&self) -> &mut Vec<Slot> {
        unsafe { &mut *self.slots.get() }
    }
    #[allow(clippy::mut_from_ref)]
    fn c(&self) -> &mut Ctx {
        unsafe { &mut *self.c.get() }
    }
    #[allow(clippy::mut_from_ref)]
    fn failed(&self) -> &mut Option<V> {
        unsafe { &mut *self.failed.get() }
    }
}

fn ask(sh: &Shared, id: usize, tag: &LangTag, f: &Facts, q: u8, arg: u8) -> R {
    let r = fine::window(&mut || sched::preempt("instruction"), || query(q, arg, tag, f, false));
    let c = sh.c();
    c.ops += 1;
    c.checks += 1;
    c.ev(NAMES[(q % NQ) as usize], &[id as u8, arg]);
    c.state(model::shape(q % NQ, &f.text));
    r
}

/// Looks at a slot's tag; nobody rewrites it meanwhile.
fn with_slot(sh: &Shared, slot: u8, g: impl FnOnce(&LangTag, &Facts) -> R) -> R {
    let n = sh.slots().len();
    if n == 0 {
        return Ok(());
    }
    let i = slot as usize % n;
    let s = &mut sh.slots()[i];
    s.readers += 1;
    let (ptr, len, t) = (s.buf.as_ptr(), s.buf.len(), s.text);
    // SAFETY: the buffer is neither moved nor rewritten while `readers` > 0.
    let bytes = unsafe { std::slice::from_raw_parts(ptr, len) };
    let f = &sh.facts[t];
    let r = match fine::window(&mut || sched::preempt("instruction"), || LangTag::new(bytes)) {
        Ok(tag) => g(tag, f),
        Err(_) => Err(V { class: "well-formed-tag-refused".into(), detail: show(&f.text) }),
    };
    sh.slots()[i].readers -= 1;
    r
}

fn body(sh: &Shared, id: usize, ops: &[Op], fine: &[Fine]) -> R {
    for (n, op) in ops.iter().enumerate() {
        if sh.failed().is_some() {
            break;
        }
        let at = fine.iter().filter(|f| f.thread as usize == id && f.op as usize == n).flat_map(|f| &f.at);
        fine::load(&at.copied().collect::<Vec<_>>());
        match op {
            Op::Query { slot, q, arg } => with_slot(sh, *slot, |t, f| ask(sh, id, t, f, *q, *arg))?,
            Op::Held { slot, q, arg, q2 } => with_slot(sh, *slot, |t, f| {
                ask(sh, id, t, f, *q, *arg)?;
                sched::yield_now("held");
                ask(sh, id, t, f, *q2, *arg)?;
                ask(sh, id, t, f, *q, *arg)
            })?,
            Op::Rewrite { slot, text } => {
                let n = sh.slots().len();
                if n > 0 {
                    let s = &mut sh.slots()[*slot as usize % n];
                    let t = *text as usize % sh.facts.len();
                    let new = &sh.facts[t].text;
                    if s.readers == 0 && new.len() <= s.buf.capacity() {
                        s.buf.clear();
                        s.buf.extend_from_slice(new);
                        s.text = t;
                        sh.c().fault("tag memory rewritten with another tag");
                    } else {
                        sh.c().probe("rewrite refused: readers present");
                    }
                }
            }
            Op::Temp { text, q, arg } => {
                let f = &sh.facts[*text as usize % sh.facts.len()];
                let s = String::from_utf8_lossy(&f.text).into_owned();
                let Ok(t) = fine::window(&mut || sched::preempt("instruction"), || LangTagBuf::new(s)) else { fail!("well-formed-tag-refused", "{}", show(&f.text)) };
                ask(sh, id, &t, f, *q, *arg)?;
                drop(t);
                sh.c().fault("tag disposed of");
            }
            Op::All { slot, arg } => with_slot(sh, *slot, |t, f| {
                for q in 0..NQ {
                    ask(sh, id, t, f, q, *arg)?;
                }
                Ok(())
            })?,
            Op::Yield => {}
        }
        let n = fine::fired();
        sh.c().faults_n("preemption at an instruction", n);
        sched::yield_now("op");
    }
    Ok(())
}

impl World for C04 {
    const META: Meta = Meta {
        id: "C04",
        quick: 250_000,
        thorough: 2_500_000,
        batch: 1_000,
        threads: true,
        nests: false,
        survey: 12,
        rule: "one run = 2 to 4 caller threads with up to 14 operations each over up to 4 shared tags and up to 8 texts; who runs, \
               and at which hook points inside a library call the turn is taken away, derive from (seed, run); non-trivial: at least \
               one preemption inside a library call or in-place rewrite, and at least one query answered; distinct by the hash of \
               the full event log",
        states: "distinct (query, segment lengths and character classes of the tag)",
        interleavings: "distinct sequences of (thread giving up the turn, thread getting it, where)",
        real: &["all queries of LangTag, NormalLangTag, TypedLangTag, Language, Variants, Extensions, Extension, PrivateUse, GrandfatheredLangTag", "OS threads (parked and released one at a time)"],
        stub: &["thread scheduler (processor single-stepping for preemption at an instruction)", "tag storage (slots rewritten in place)"],
        assumptions: &[
            "switches happen at hook points, between operations and, in one run of 16, at chosen instructions; memory is sequentially consistent between them",
            "private_use() of a tag that is private use as a whole may be none or the whole tag",
        ],
    };
    type Plan = Plan;

    fn gen(r: &mut Rng, env: Env) -> Plan {
        let st = Style::new(r);
        let mut texts: Vec<String> = vec![];
        for _ in 0..r.range(1, 7) {
            let t = match r.below(10) {
                0..=4 => st.text(r, K::Tag),
                5 | 6 if !texts.is_empty() => st.near(r, K::Tag, &texts[0]),
                7 if !texts.is_empty() => model::respell(&texts[0], r.u64()),
                8 if r.chance(1, 2) => {
                    let max = Style::reach(r, env.tier);
                    st.long_text(r, K::Tag, max)
                }
                _ => Style::new(r).text(r, K::Tag),
            };
            texts.push(t);
        }
        let nslots = r.range(1, 4);
        let slots: Vec<u8> = (0..nslots).map(|_| r.u8()).collect();
        let nth = r.range(2, 4);
        let writes = r.below(4);
        let focus = r.chance(1, 3).then(|| r.u8() % NQ);
        let threads: Vec<Vec<Op>> = (0..nth)
            .map(|_| {
                (0..r.range(1, 14))
                    .map(|_| {
                        let q = focus.filter(|_| r.chance(2, 3)).unwrap_or_else(|| r.u8() % NQ);
                        let (slot, arg) = (r.below(nslots) as u8, r.u8());
                        match r.below(12) {
                            0 => Op::Yield,
                            1 => Op::Held { slot, q, arg, q2: r.u8() % NQ },
                            2 => Op::Temp { text: r.u8(), q, arg },
                            3 if r.chance(1, 3) => Op::All { slot, arg },
                            4..=6 if r.below(4) < writes => Op::Rewrite { slot, text: r.u8() },
                            _ => Op::Query { slot, q, arg },
                        }
                    })
                    .collect()
            })
            .collect();
        let calm = r.chance(1, 8);
        let gap = *r.pick(&[1usize, 4, 12, 40]);
        let small = texts.iter().all(|t| t.len() < 4000);
        let fine = match small && r.chance(1, if env.hot { 2 } else { 24 }) {
            true => (0..r.range(1, 3))
                .map(|_| {
                    let t = r.below(nth);
                    let span = *r.pick(&[40usize, 200, 1000, 4000]);
                    let stat = r.chance(if env.hot { 15 } else { 1 }, 16);
                    Fine {
                        thread: t as u8,
                        op: r.below(threads[t].len()) as u8,
                        at: (0..r.range(1, 3)).map(|_| Point::gen(r, stat, span)).collect(),
                    }
                })
                .collect(),
            false => vec![],
        };
        Plan {
            fine,
            texts: texts.into_iter().map(Bytes::from).collect(),
            slots,
            threads,
            decisions: (0..r.range(0, 60)).map(|_| r.u16() & 15).collect(),
            gaps: if calm { vec![] } else { (0..r.range(1, 16)).map(|_| r.below(gap + 1) as u32).collect() },
        }
    }

    fn exec(p: &Plan, c: &mut Ctx) -> R {
        let facts: Vec<Facts> =
            p.texts.iter().filter(|t| model::accepts(K::Tag, &t.0)).map(|t| Facts::new(&t.0)).collect();
        if facts.is_empty() || p.threads.is_empty() || p.threads.len() > 16 {
            return Ok(());
        }
        let cap = facts.iter().map(|f| f.text.len()).max().unwrap_or(0);
        let slots = p
            .slots
            .iter()
            .map(|t| {
                let text = *t as usize % facts.len();
                let mut buf = Vec::with_capacity(cap);
                buf.extend_from_slice(&facts[text].text);
                Slot { buf, text, readers: 0 }
            })
            .collect();
        let granular = c.call_granular;
        let gaps: &[u32] = if c.call_granular { &[] } else { &p.gaps };
        let sched = Sched::new(p.threads.len(), 0, &p.decisions, gaps);
        let sh = Shared {
            slots: UnsafeCell::new(slots),
            c: UnsafeCell::new(c),
            failed: UnsafeCell::new(None),
            facts,
        };
        let bodies = p
            .threads
            .iter()
            .enumerate()
            .map(|(id, ops)| {
                let sh = &sh;
                let fine: &[Fine] = if granular { &[] } else { &p.fine };
                Box::new(move || {
                    if let Err(v) = guarded(|| body(sh, id, ops, fine)) {
                        let f = sh.failed();
                        if f.is_none() {
                            *f = Some(v);
                        }
                    }
                }) as Box<dyn FnOnce() + Send + '_>
            })
            .collect();
        let out = sched.run(bodies);
        let failed = sh.failed.into_inner();
        c.sched = out.sched;
        c.ev("schedule", &out.sched.to_le_bytes());
        c.sim_ms += out.switches;
        c.faults_n("preemption inside a library call", out.preemptions);
        c.faults_n("turn taken by another thread", out.switches);
        for (s, n) in out.sites {
            *c.probes.entry(s).or_insert(0) += n;
        }
        c.nontrivial = c.fired > 0;
        match failed {
            Some(v) => Err(v),
            None => Ok(()),
        }
    }
}
