//! C01: a journal of tags on a faulty disk, read back and parsed.
use crate::ctx::{show, Ctx, R};
use crate::model::{self, Style, KINDS};
use crate::rng::{fnv, Rng};
use crate::seams::*;
use crate::world::{Meta, Env, Tier, World};
use crate::{dispatch, ensure, fail};
use langtag::{GrandfatheredLangTag, Singleton};
use serde::{Deserialize, Serialize};
use std::io::{BufRead, BufReader};

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Op {
    /// Appends the record of kind `k` to the journal.
    Append { k: u8, text: Bytes },
    Sync,
    /// Power loss: of what was not synced, `keep` bytes reached the disk; the
    /// next `junk` bytes hold what those blocks held before (`fill`).
    Crash { keep: u16, junk: u8, fill: u8 },
    /// A stored byte decays. `back` counts from the end.
    Rot { back: u16, xor: u8 },
    /// A stored byte is replaced.
    Poke { back: u16, to: u8 },
    /// A block is lost, and what follows moves up.
    Lose { block: u8 },
    /// A block is written a second time, over another one or inserted.
    Dup { block: u8, to: u8, over: bool },
    Swap { a: u8, b: u8 },
    /// A relay re-encodes one stored character.
    Recode { back: u16, how: u8 },
    /// Reads the journal back and parses it. `other`: a further kind each line is parsed as.
    Recover { stream: Stream, buf: u8, other: u8 },
    /// Drops the journal and starts afresh.
    Truncate,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Plan {
    block: u8,
    ops: Vec<Op>,
}

pub struct C01;

const SINGLE: u8 = 15;
const GRAND: u8 = 16;
const NREC: u8 = 17;

fn gen_text(r: &mut Rng, st: &Style, k: u8, tier: Tier) -> Vec<u8> {
    if k == SINGLE {
        return match r.below(4) {
            0 => vec![r.u8()],
            1 => char::from_u32(r.range(0x80, 0x27a) as u32).unwrap().to_string().into_bytes(),
            2 => vec![b'0' + r.below(75) as u8],
            _ => char::from_u32((r.below(0x10) << 8 | r.range(0x2f, 0x7b)) as u32).unwrap().to_string().into_bytes(),
        };
    }
    if k == GRAND {
        let g = if r.chance(1, 2) { *r.pick(&model::IRREGULAR) } else { *r.pick(&model::REGULAR) };
        let g = model::respell(g, r.u64()).into_bytes();
        return if r.chance(1, 2) { g } else { model::mutate(r, &g) };
    }
    let kind = model::kind(k);
    match r.below(24) {
        16..=18 if matches!(kind, model::K::Tag | model::K::Normal) => model::around_registered(r),
        16..=20 => {
            let t = st.text(r, kind);
            model::turn(r, t.as_bytes())
        }
        21..=23 if kind == model::K::Tag && r.chance(1, 2) => model::around_registered(r),
        0..=7 | 21..=23 => st.text(r, kind).into_bytes(),
        8..=10 => {
            let t = st.text(r, kind);
            model::mutate(r, t.as_bytes())
        }
        11 => model::wild(r),
        12 if r.chance(1, 4) => {
            let max = if tier == Tier::Thorough && r.chance(1, 64) { 140_000 } else { 5000 };
            let max = if r.chance(1, 200) { 70_000 } else { max };
            st.long_text(r, kind, max).into_bytes()
        }
        12 | 13 => {
            // Well-formed for another kind.
            let o = model::kind(r.u8() % 15);
            st.text(r, o).into_bytes()
        }
        14 => {
            let g = if r.chance(1, 2) { *r.pick(&model::IRREGULAR) } else { *r.pick(&model::REGULAR) };
            let g = model::respell(g, r.u64()).into_bytes();
            if r.chance(1, 30) {
                let by = Style::wrap(r);
                let t = String::from_utf8(g.clone()).unwrap();
                st.stretch(r, kind, &t, by).map_or(g, String::into_bytes)
            } else if r.chance(1, 2) {
                g
            } else {
                model::mutate(r, &g)
            }
        }
        _ => st.near(r, kind, &st.text(&mut r.clone(), kind)).into_bytes(),
    }
}

struct Rec {
    start: usize,
    end: usize,
    k: u8,
    text: Vec<u8>,
    clean: bool,
}

/// Where `back` from the end points.
fn pos(len: usize, back: u16) -> usize {
    len - 1 - (back as usize % len)
}

fn parse_line(c: &mut Ctx, k: u8, text: &[u8]) -> R {
    c.ops += 1;
    c.checks += 1;
    if k < SINGLE {
        let kind = KINDS[k as usize];
        let expect = model::accepts(kind, text);
        dispatch!(kind, T => T::routes(text, expect))?;
        c.state(fnv(model::shape(k, text), &[expect as u8]));
        c.probe(if expect { "line accepted" } else { "line refused" });
        if !text.is_ascii() {
            c.probe("line not ASCII");
        }
        if text.len() > 255 {
            c.probe("line over 255 bytes");
        }
        if expect {
            c.nontrivial = true;
        }
    }
    if k == SINGLE || text.len() == 1 {
        singleton(text)?;
    }
    if k == GRAND || k == 0 {
        let want = model::grandfathered(text);
        let (a, b) = (GrandfatheredLangTag::new(text), GrandfatheredLangTag::try_from(text));
        match (a, want) {
            (Ok(g), Some(w)) => ensure!(g.as_str() == w && g.as_bytes() == w.as_bytes(), "value-differs-from-input",
                "grandfathered {} parsed as {}", show(text), g.as_str()),
            (Ok(g), None) => fail!("accepted-ill-formed", "{} accepted as grandfathered {}", show(text), g.as_str()),
            (Err(_), Some(w)) => fail!("refused-well-formed", "grandfathered {w} refused as {}", show(text)),
            (Err(e), None) => ensure!(e == text, "refused-input-altered", "error for {} carries {}", show(text), show(e)),
        }
        match (b, want) {
            (Ok(g), Some(w)) => ensure!(g.as_str() == w, "value-differs-from-input",
                "grandfathered {} parsed as {}", show(text), g.as_str()),
            (Ok(g), None) => fail!("accepted-ill-formed", "{} accepted as grandfathered {}", show(text), g.as_str()),
            (Err(_), Some(w)) => fail!("refused-well-formed", "grandfathered {w} refused as {}", show(text)),
            (Err(e), None) => ensure!(e.0 == text, "refused-input-altered", "error for {} carries {}", show(text), show(e.0)),
        }
        if want.is_some() {
            c.probe("grandfathered line");
        }
    }
    Ok(())
}

fn singleton(text: &[u8]) -> R {
    let good = |b: u8| model::is_singleton(b);
    for &b in text.iter().take(8) {
        for r in [Singleton::new(b), Singleton::try_from(b)] {
            match r {
                Ok(s) => {
                    ensure!(good(b), "accepted-ill-formed", "singleton from byte {b:#x} accepted");
                    ensure!(s.unwrap() == b, "value-differs-from-input", "singleton {b:#x} became {:#x}", s.unwrap());
                }
                Err(e) => {
                    ensure!(!good(b), "refused-well-formed", "singleton {:?} refused", b as char);
                    ensure!(e.0 == b, "refused-input-altered", "singleton error for {b:#x} carries {:#x}", e.0);
                }
            }
        }
    }
    let Ok(s) = std::str::from_utf8(text) else { return Ok(()) };
    for ch in s.chars().take(4) {
        let ok = ch.is_ascii() && good(ch as u8);
        match Singleton::try_from(ch) {
            Ok(v) => {
                ensure!(ok, "accepted-ill-formed", "singleton from character {ch:?} accepted");
                ensure!(v.unwrap() == ch as u8, "value-differs-from-input", "singleton {ch:?} became {:#x}", v.unwrap());
            }
            Err(e) => {
                ensure!(!ok, "refused-well-formed", "singleton {ch:?} refused");
                ensure!(e.0 == ch, "refused-input-altered", "singleton error for {ch:?} carries {:?}", e.0);
            }
        }
    }
    let ok = text.len() == 1 && good(text[0]);
    match Singleton::from_string(s) {
        Ok(v) => {
            ensure!(ok, "accepted-ill-formed", "singleton from {} accepted", show(text));
            ensure!(v.unwrap() == text[0], "value-differs-from-input", "singleton {} became {:#x}", show(text), v.unwrap());
        }
        Err(e) => {
            ensure!(!ok, "refused-well-formed", "singleton {} refused", show(text));
            ensure!(e.0 == s, "refused-input-altered", "singleton error for {} carries {}", show(text), show(e.0.as_bytes()));
        }
    }
    match s.parse::<Singleton>() {
        Ok(v) => ensure!(ok && v.unwrap() == text[0], "accepted-ill-formed", "singleton from {} accepted", show(text)),
        Err(e) => {
            ensure!(!ok, "refused-well-formed", "singleton {} refused", show(text));
            ensure!(e.0 == s, "refused-input-altered", "singleton error for {} carries {}", show(text), show(e.0.as_bytes()));
        }
    }
    Ok(())
}

impl World for C01 {
    const META: Meta = Meta {
        id: "C01",
        quick: 650_000,
        thorough: 6_000_000,
        batch: 4_000,
        threads: false,
        nests: false,
        survey: 0,
        rule: "one run = one journal history (appends, syncs, crashes, stored-byte and block faults, recoveries) of up to 40 \
               operations derived from (seed, run); non-trivial: at least one fault fired and at least one recovered line was \
               well-formed; distinct by the hash of the full event log",
        states: "distinct (kind parsed as, segment lengths and character classes of the recovered line, verdict)",
        interleavings: "distinct event logs",
        real: &["all parsers and owned/borrowed constructors of langtag", "std BufReader"],
        stub: &["disk (byte array with blocks and a durable mark)", "read stream", "clock"],
        assumptions: &["reference RFC 5646 grammar in sim/src/model.rs", "primary languages are 2 to 8 letters"],
    };
    type Plan = Plan;

    fn gen(r: &mut Rng, env: Env) -> Plan {
        let st = Style::new(r);
        let block = *r.pick(&[3u8, 4, 8, 16, 32, 64]);
        let n = r.range(3, 36);
        let mono = r.chance(1, 3).then(|| r.u8() % NREC);
        // Swarm: each run enables a subset of the faults.
        let mask = r.u16();
        let rate = r.range(1, 6);
        let mut ops = vec![];
        for _ in 0..n {
            if r.below(10) >= rate {
                let k = mono.filter(|_| r.chance(3, 4)).unwrap_or_else(|| if r.chance(1, 6) { 0 } else { r.u8() % NREC });
                ops.push(Op::Append { k, text: Bytes(gen_text(r, &st, k, env.tier)) });
                if r.chance(1, 4) {
                    ops.push(Op::Sync);
                }
                continue;
            }
            let near = |r: &mut Rng| if r.chance(3, 4) { r.below(24) as u16 } else { r.u16() };
            let f = r.below(9);
            if mask >> f & 1 == 0 {
                continue;
            }
            ops.push(match f {
                0 => Op::Crash { keep: near(r), junk: if r.chance(1, 3) { r.below(20) as u8 } else { 0 }, fill: r.u8() },
                1 => Op::Rot { back: near(r), xor: if r.chance(3, 4) { 1 << r.below(8) } else { r.u8() } },
                2 => Op::Poke { back: near(r), to: if r.chance(1, 2) { r.u8() } else { *r.pick(b"-xX@[`{/:aZ09\n") } },
                3 => Op::Lose { block: r.u8() },
                4 => Op::Dup { block: r.u8(), to: r.u8(), over: r.chance(1, 2) },
                5 => Op::Swap { a: r.u8(), b: r.u8() },
                6 => Op::Recode { back: near(r), how: r.u8() },
                7 => Op::Truncate,
                _ => Op::Recover { stream: gen_stream(r, 200), buf: r.range(1, 40) as u8, other: r.u8() % NREC },
            });
        }
        let mut stream = gen_stream(r, 400);
        if r.chance(3, 4) {
            stream.fail = None;
        }
        ops.push(Op::Recover { stream, buf: r.range(1, 64) as u8, other: r.u8() % NREC });
        Plan { block, ops }
    }

    fn exec(p: &Plan, c: &mut Ctx) -> R {
        let block = p.block.max(1) as usize;
        let mut disk: Vec<u8> = vec![];
        let mut durable = 0usize;
        let mut recs: Vec<Rec> = vec![];
        // A fault that touches bytes from..to, or moves everything from `from` on.
        fn taint(recs: &mut [Rec], from: usize, to: usize) {
            for r in recs {
                // The separators on both sides belong to the record.
                if r.start < to + 1 && from < r.end + 1 {
                    r.clean = false;
                }
            }
        }
        for op in &p.ops {
            let len = disk.len();
            let blocks = len.div_ceil(block);
            let span = |b: u8| {
                let i = b as usize % blocks.max(1);
                (i * block, ((i + 1) * block).min(len))
            };
            match op {
                Op::Append { k, text } => {
                    c.sim_ms += 1;
                    let k = k % NREC;
                    let start = len;
                    disk.push(b'A' + k);
                    disk.extend_from_slice(&text.0);
                    disk.push(b'\n');
                    // What a torn tail left behind runs into this record.
                    let joined = start > 0 && disk[start - 1] != b'\n';
                    let clean = !joined && !text.0.contains(&b'\n');
                    recs.push(Rec { start, end: disk.len(), k, text: text.0.clone(), clean });
                    if joined {
                        c.probe("record appended to a torn one");
                    }
                }
                Op::Sync => {
                    c.sim_ms += 5;
                    durable = len;
                }
                Op::Crash { keep, junk, fill } => {
                    c.sim_ms += 500;
                    let to = durable + (*keep as usize % (len - durable + 1));
                    if to < len {
                        c.fault("crash losing unsynced bytes");
                    } else {
                        c.fault("crash");
                    }
                    let stale: Vec<u8> = (0..*junk as usize)
                        .map(|i| if *fill & 1 == 0 || to == 0 { fill >> 1 } else { disk[(*fill as usize + i) % to] })
                        .collect();
                    disk.truncate(to);
                    recs.retain(|r| r.end <= to);
                    if !stale.is_empty() {
                        c.fault("stale bytes after crash");
                        disk.extend_from_slice(&stale);
                    }
                    durable = disk.len();
                }
                Op::Truncate => {
                    disk.clear();
                    recs.clear();
                    durable = 0;
                }
                Op::Rot { back, xor } if len > 0 && *xor != 0 => {
                    let i = pos(len, *back);
                    disk[i] ^= xor;
                    taint(&mut recs, i, i + 1);
                    c.fault("bit rot");
                }
                Op::Poke { back, to } if len > 0 => {
                    let i = pos(len, *back);
                    disk[i] = *to;
                    taint(&mut recs, i, i + 1);
                    c.fault("byte replaced");
                }
                Op::Recode { back, how } if len > 0 => {
                    let i = pos(len, *back);
                    let e = model::reencode(disk[i], *how);
                    disk.splice(i..i + 1, e);
                    recs.retain(|r| r.end <= i);
                    durable = durable.max(i).min(disk.len());
                    c.fault("character re-encoded");
                }
                Op::Lose { block: b } if blocks > 0 => {
                    let (s, e) = span(*b);
                    disk.drain(s..e);
                    recs.retain(|r| r.end <= s);
                    durable = durable.min(disk.len());
                    c.fault("block lost");
                }
                Op::Dup { block: b, to, over } if blocks > 0 => {
                    let (s, e) = span(*b);
                    let (t, te) = span(*to);
                    let copy = disk[s..e].to_vec();
                    if *over {
                        let n = copy.len().min(te - t);
                        disk[t..t + n].copy_from_slice(&copy[..n]);
                        taint(&mut recs, t, t + n);
                    } else {
                        disk.splice(t..t, copy);
                        recs.retain(|r| r.end <= t);
                    }
                    durable = durable.min(disk.len());
                    c.fault("block repeated");
                }
                Op::Swap { a, b } if blocks > 0 => {
                    let (a, b) = (span(*a), span(*b));
                    let n = (a.1 - a.0).min(b.1 - b.0);
                    for i in 0..n {
                        disk.swap(a.0 + i, b.0 + i);
                    }
                    taint(&mut recs, a.0, a.1);
                    taint(&mut recs, b.0, b.1);
                    c.fault("blocks swapped");
                }
                Op::Recover { stream, buf, other } => {
                    c.sim_ms += 20;
                    let mut rd = BufReader::with_capacity((*buf).max(1) as usize, SimReader::new(&disk, stream));
                    let mut next = 0usize;
                    let mut at = 0usize;
                    loop {
                        let mut line = vec![];
                        let res = rd.read_until(b'\n', &mut line);
                        let whole = line.last() == Some(&b'\n');
                        let start = at;
                        at += line.len();
                        if whole {
                            line.pop();
                        }
                        if let Some((&tag, text)) = line.split_first() {
                            c.ev("line", &line);
                            let k = tag.wrapping_sub(b'A') % NREC;
                            parse_line(c, k, text)?;
                            let o = other % NREC;
                            if o != k {
                                parse_line(c, o, text)?;
                            }
                            // The consumer also tries what has arrived so far.
                            if text.len() > 1 && text.len() < 200 {
                                let cut = (at ^ text.len()) % text.len();
                                parse_line(c, k, &text[..cut])?;
                            }
                            // Durable untouched records come back as written.
                            while next < recs.len() && recs[next].start < start {
                                next += 1;
                            }
                            if let Some(r) = recs.get(next).filter(|r| r.start == start && r.clean && whole) {
                                c.checks += 1;
                                c.probe("untouched record recovered");
                                ensure!(k == r.k && text == r.text, "harness", "journal model lost a record");
                            }
                        }
                        match res {
                            Err(_) => break,
                            Ok(0) => break,
                            Ok(_) => {}
                        }
                    }
                    count(c, rd.get_ref().fired(), false);
                    c.ev("recovered", &(at as u32).to_le_bytes());
                }
                _ => {}
            }
        }
        c.nontrivial &= c.fired > 0;
        Ok(())
    }
}
