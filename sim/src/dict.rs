//! Words for the generators: what real tags are made of, and what the source
//! under test names (string, byte and number literals), those it did not name
//! when this was written first. Steers the search; plans hold concrete texts,
//! so a replay does not depend on it.
use crate::model::{accepts, K, KINDS};
use std::collections::BTreeSet;
use std::path::Path;
use std::sync::OnceLock;

const COMMON: &str = "en fr zh de sr sl hy es cmn yue gan hak min nan qaa und mul zxx mis art i x u t a \
    Latn Cyrl Hans Hant Arab Qaaa US GB FR CN TW DE QM ZZ 419 150 001 1996 1901 1994 rozaj nedis biske scouse fonipa valencia \
    arevela heploc hepburn u-co-phonebk u-ca-gregory u-nu-latn t-und-latn a-myext x-private x-lang x-default x-twain x-a \
    en-US zh-Hant-TW zh-cmn-Hans-CN de-CH-1996 sl-rozaj-biske-1994 es-419 hy-Latn-IT-arevela en-a-myext-b-another \
    oed private default root phonebk co ca nu kn va posix";
const BASELINE: &str = include_str!("baseline.txt");

#[derive(Default)]
pub struct Dict {
    /// Subtags, and the ones the source names only now.
    words: [Vec<String>; 2],
    /// Per kind.
    phrases: [Vec<Vec<String>>; 2],
    pub numbers: Vec<usize>,
    pub bytes: Vec<u8>,
}

/// The literals of one source file: texts and numbers.
fn literals(s: &str, out: &mut BTreeSet<String>) {
    let b = s.as_bytes();
    let mut i = 0;
    while i < b.len() {
        match b[i] {
            b'/' if b.get(i + 1) == Some(&b'/') => {
                while i < b.len() && b[i] != b'\n' {
                    i += 1;
                }
            }
            b'"' => {
                let from = i + 1;
                i = from;
                while i < b.len() && b[i] != b'"' {
                    i += if b[i] == b'\\' { 2 } else { 1 };
                }
                let t = &b[from..i.min(b.len())];
                for t in t.split(|c| !c.is_ascii_alphanumeric() && *c != b'-') {
                    if (1..=60).contains(&t.len()) {
                        out.insert(format!("\"{}", String::from_utf8_lossy(t)));
                    }
                }
            }
            b'\'' if b.get(i + 2) == Some(&b'\'') && b[i + 1].is_ascii_alphanumeric() => {
                out.insert(format!("'{}", b[i + 1] as char));
                i += 2;
            }
            b'0'..=b'9' if i == 0 || !(b[i - 1].is_ascii_alphanumeric() || b[i - 1] == b'_') => {
                let from = i;
                while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') {
                    i += 1;
                }
                let t: String = s[from..i].chars().filter(|c| *c != '_').collect();
                let hex = t.strip_prefix("0x");
                let digits: String = hex.unwrap_or(&t).chars().take_while(|c| c.is_digit(if hex.is_some() { 16 } else { 10 })).collect();
                if let Ok(n) = usize::from_str_radix(&digits, if hex.is_some() { 16 } else { 10 }) {
                    out.insert(format!("#{n}"));
                }
                continue;
            }
            _ => {}
        }
        i += 1;
    }
}

fn sources(dir: &Path, out: &mut BTreeSet<String>) {
    let Ok(es) = std::fs::read_dir(dir) else { return };
    for e in es.flatten() {
        let p = e.path();
        if p.is_dir() {
            sources(&p, out);
        } else if p.extension().is_some_and(|x| x == "rs") && !p.ends_with("sim.rs") && !p.ends_with("grammar.rs") {
            if let Ok(s) = std::fs::read_to_string(&p) {
                literals(&s, out);
            }
        }
    }
}

/// All literals of the tree under test.
pub fn harvest() -> BTreeSet<String> {
    let mut all = BTreeSet::new();
    sources(Path::new(concat!(env!("CARGO_MANIFEST_DIR"), "/../../repo/src")), &mut all);
    all
}

fn build() -> Dict {
    let known: BTreeSet<&str> = BASELINE.lines().collect();
    let mut d = Dict { phrases: [vec![vec![]; KINDS.len()], vec![vec![]; KINDS.len()]], ..Dict::default() };
    let mut texts: [BTreeSet<String>; 2] = Default::default();
    texts[0].extend(COMMON.split_whitespace().map(String::from));
    for l in harvest() {
        let new = !known.contains(l.as_str());
        match l.split_at(1) {
            ("\"", t) => {
                texts[new as usize].insert(t.to_string());
            }
            ("'", c) if new => d.bytes.push(c.as_bytes()[0]),
            ("#", n) if new => d.numbers.extend(n.parse::<usize>().ok().filter(|n| (1..=70_000).contains(n))),
            _ => {}
        }
    }
    for (new, texts) in texts.iter().enumerate() {
        let mut parts: BTreeSet<String> = BTreeSet::new();
        for t in texts {
            // Every run of whole segments.
            let segs: Vec<&str> = t.split('-').collect();
            for i in 0..segs.len() {
                for j in i + 1..=segs.len() {
                    parts.insert(segs[i..j].join("-"));
                }
            }
        }
        for p in parts {
            for (n, k) in KINDS.iter().enumerate() {
                if accepts(*k, p.as_bytes()) {
                    d.phrases[new][n].push(p.clone());
                }
            }
            if !p.is_empty() && !p.contains('-') {
                d.words[new].push(p);
            }
        }
    }
    d
}

pub fn get() -> &'static Dict {
    static D: OnceLock<Dict> = OnceLock::new();
    D.get_or_init(build)
}

impl Dict {
    fn either<'a>(&self, r: &mut crate::rng::Rng, of: [&'a [String]; 2]) -> &'a [String] {
        of[(!of[1].is_empty() && r.chance(1, 2)) as usize]
    }
    pub fn word(&self, r: &mut crate::rng::Rng) -> &str {
        let v = self.either(r, [&self.words[0], &self.words[1]]);
        r.pick(v)
    }
    pub fn phrase(&self, r: &mut crate::rng::Rng, k: K) -> Option<&str> {
        let n = KINDS.iter().position(|x| *x == k)?;
        let v = self.either(r, [&self.phrases[0][n], &self.phrases[1][n]]);
        (!v.is_empty()).then(|| r.pick(v).as_str())
    }
}
