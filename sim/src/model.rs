//! Reference model: RFC 5646 section 2.1, written over `-`-separated segments.
//! Shares nothing with the automata under test.
use crate::rng::Rng;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum K {
    Tag,
    Normal,
    PrivateUse,
    PrivateUseSubtag,
    Language,
    Primary,
    Extlang,
    ExtlangTag,
    Script,
    Region,
    Variant,
    Variants,
    Extension,
    ExtensionSubtag,
    Extensions,
}
use K::*;
pub const KINDS: [K; 15] = [
    Tag, Normal, PrivateUse, PrivateUseSubtag, Language, Primary, Extlang, ExtlangTag, Script, Region, Variant,
    Variants, Extension, ExtensionSubtag, Extensions,
];
pub fn kind(i: u8) -> K {
    KINDS[i as usize % KINDS.len()]
}

pub const IRREGULAR: [&str; 17] = [
    "en-GB-oed", "i-ami", "i-bnn", "i-default", "i-enochian", "i-hak", "i-klingon", "i-lux", "i-mingo", "i-navajo",
    "i-pwn", "i-tao", "i-tay", "i-tsu", "sgn-BE-FR", "sgn-BE-NL", "sgn-CH-DE",
];
pub const REGULAR: [&str; 9] = [
    "art-lojban", "cel-gaulish", "no-bok", "no-nyn", "zh-guoyu", "zh-hakka", "zh-min", "zh-min-nan", "zh-xiang",
];

pub fn lower(s: &str) -> String {
    s.to_ascii_lowercase()
}

/// Canonical spelling of the grandfathered tag `b` spells, if any.
pub fn grandfathered(b: &[u8]) -> Option<&'static str> {
    IRREGULAR.iter().chain(&REGULAR).copied().find(|g| g.as_bytes().eq_ignore_ascii_case(b))
}
pub fn is_regular(b: &[u8]) -> bool {
    REGULAR.iter().any(|g| g.as_bytes().eq_ignore_ascii_case(b))
}

fn alpha(s: &[u8], lo: usize, hi: usize) -> bool {
    (lo..=hi).contains(&s.len()) && s.iter().all(|c| matches!(c, b'a'..=b'z' | b'A'..=b'Z'))
}
fn digit(s: &[u8], n: usize) -> bool {
    s.len() == n && s.iter().all(|c| matches!(c, b'0'..=b'9'))
}
fn alnum(s: &[u8], lo: usize, hi: usize) -> bool {
    (lo..=hi).contains(&s.len()) && s.iter().all(|c| matches!(c, b'a'..=b'z' | b'A'..=b'Z' | b'0'..=b'9'))
}
fn is_x(s: &[u8]) -> bool {
    s == b"x" || s == b"X"
}
pub fn is_singleton(c: u8) -> bool {
    matches!(c, b'a'..=b'z' | b'A'..=b'Z' | b'0'..=b'9') && c != b'x' && c != b'X'
}
fn singleton(s: &[u8]) -> bool {
    s.len() == 1 && is_singleton(s[0])
}
fn variant(s: &[u8]) -> bool {
    alnum(s, 5, 8) || (alnum(s, 4, 4) && s[0].is_ascii_digit())
}
fn region(s: &[u8]) -> bool {
    alpha(s, 2, 2) || digit(s, 3)
}

pub type Span = (usize, usize);

#[derive(Clone, Debug, Default)]
pub struct Ext {
    pub span: Span,
    pub singleton: u8,
    pub subtags: Vec<Span>,
}

#[derive(Clone, Debug, Default)]
pub struct Decomp {
    pub language: Span,
    pub primary: Span,
    pub extlang: Option<Span>,
    pub extlangs: Vec<Span>,
    pub script: Option<Span>,
    pub region: Option<Span>,
    /// Empty span when there are none.
    pub variants_span: Span,
    pub variants: Vec<Span>,
    pub exts_span: Span,
    pub exts: Vec<Ext>,
    pub pu: Option<Span>,
    pub pu_subtags: Vec<Span>,
}

fn segs(b: &[u8]) -> Vec<Span> {
    let mut v = Vec::new();
    let mut s = 0;
    for (i, c) in b.iter().enumerate() {
        if *c == b'-' {
            v.push((s, i));
            s = i + 1;
        }
    }
    v.push((s, b.len()));
    v
}

fn take_ext(b: &[u8], s: &[Span], i: &mut usize) -> Option<Ext> {
    let at = |j: usize| s.get(j).map(|p| &b[p.0..p.1]);
    let first = at(*i)?;
    if !singleton(first) {
        return None;
    }
    let mut j = *i + 1;
    let mut e = Ext { span: s[*i], singleton: first[0], subtags: vec![] };
    while at(j).is_some_and(|x| alnum(x, 2, 8)) {
        e.subtags.push(s[j]);
        e.span.1 = s[j].1;
        j += 1;
    }
    if e.subtags.is_empty() {
        return None;
    }
    *i = j;
    Some(e)
}

fn take_pu(b: &[u8], s: &[Span], i: &mut usize) -> Option<(Span, Vec<Span>)> {
    let at = |j: usize| s.get(j).map(|p| &b[p.0..p.1]);
    if !is_x(at(*i)?) {
        return None;
    }
    let mut j = *i + 1;
    let mut subs = vec![];
    while at(j).is_some_and(|x| alnum(x, 1, 8)) {
        subs.push(s[j]);
        j += 1;
    }
    let span = (s[*i].0, subs.last()?.1);
    *i = j;
    Some((span, subs))
}

/// Decomposition by the `langtag` production.
pub fn normal(b: &[u8]) -> Option<Decomp> {
    let s = segs(b);
    let at = |j: usize| s.get(j).map(|p| &b[p.0..p.1]);
    let mut d = Decomp::default();
    let mut i = 1;
    if !alpha(at(0)?, 2, 8) {
        return None;
    }
    d.primary = s[0];
    d.language = s[0];
    if s[0].1 <= 3 {
        while i <= 3 && at(i).is_some_and(|x| alpha(x, 3, 3)) {
            d.extlangs.push(s[i]);
            d.language.1 = s[i].1;
            d.extlang = Some((s[1].0, s[i].1));
            i += 1;
        }
    }
    if at(i).is_some_and(|x| alpha(x, 4, 4)) {
        d.script = Some(s[i]);
        i += 1;
    }
    if at(i).is_some_and(region) {
        d.region = Some(s[i]);
        i += 1;
    }
    while at(i).is_some_and(variant) {
        d.variants.push(s[i]);
        i += 1;
    }
    if let (Some(f), Some(l)) = (d.variants.first(), d.variants.last()) {
        d.variants_span = (f.0, l.1);
    }
    while let Some(e) = take_ext(b, &s, &mut i) {
        d.exts.push(e);
    }
    if let (Some(f), Some(l)) = (d.exts.first(), d.exts.last()) {
        d.exts_span = (f.span.0, l.span.1);
    }
    if let Some((p, subs)) = take_pu(b, &s, &mut i) {
        d.pu = Some(p);
        d.pu_subtags = subs;
    }
    (i == s.len()).then_some(d)
}

pub fn private_use(b: &[u8]) -> Option<Vec<Span>> {
    let s = segs(b);
    let mut i = 0;
    let (_, subs) = take_pu(b, &s, &mut i)?;
    (i == s.len()).then_some(subs)
}

pub fn extensions(b: &[u8]) -> Option<Vec<Ext>> {
    if b.is_empty() {
        return Some(vec![]);
    }
    let s = segs(b);
    let mut i = 0;
    let mut v = vec![];
    while let Some(e) = take_ext(b, &s, &mut i) {
        v.push(e);
    }
    (i == s.len()).then_some(v)
}

/// Items of a list of `variant`s / `extlang-tag`s.
pub fn list(b: &[u8]) -> Vec<Span> {
    if b.is_empty() {
        vec![]
    } else {
        segs(b)
    }
}

pub fn accepts(k: K, b: &[u8]) -> bool {
    if !b.is_ascii() {
        return false;
    }
    let s = segs(b);
    let seg = |f: &dyn Fn(&[u8]) -> bool| s.len() == 1 && f(b);
    match k {
        Tag => normal(b).is_some() || private_use(b).is_some() || grandfathered(b).is_some(),
        Normal => normal(b).is_some(),
        PrivateUse => private_use(b).is_some(),
        PrivateUseSubtag => seg(&|x| alnum(x, 1, 8)),
        Language => normal(b).is_some_and(|d| d.language == (0, b.len())),
        Primary => seg(&|x| alpha(x, 2, 8)),
        Extlang => s.len() <= 3 && s.iter().all(|p| alpha(&b[p.0..p.1], 3, 3)),
        ExtlangTag => seg(&|x| alpha(x, 3, 3)),
        Script => seg(&|x| alpha(x, 4, 4)),
        Region => seg(&|x| region(x)),
        Variant => seg(&|x| variant(x)),
        Variants => b.is_empty() || s.iter().all(|p| variant(&b[p.0..p.1])),
        Extension => extensions(b).is_some_and(|e| e.len() == 1),
        ExtensionSubtag => seg(&|x| alnum(x, 2, 8)),
        Extensions => extensions(b).is_some(),
    }
}

// ---------------------------------------------------------------- generation

/// Per-run generation style (swarm testing: every run looks different).
#[derive(Clone)]
pub struct Style {
    letters: Vec<u8>,
    digits: Vec<u8>,
    /// Chance in 8 that an alphanumeric is a digit.
    digit_bias: usize,
    case: u8,
    p_extlang: usize,
    p_script: usize,
    p_region: usize,
    m_variants: usize,
    m_exts: usize,
    m_subtags: usize,
    p_pu: usize,
    p_grandfathered: usize,
    len_bias: u8,
    /// Chance in 16 that a part is one the dictionary knows.
    p_dict: usize,
}

impl Style {
    pub fn new(r: &mut Rng) -> Style {
        let all: Vec<u8> = (b'a'..=b'z').collect();
        let letters = match r.below(6) {
            0 => vec![b'a', b'z'],
            1 => vec![*r.pick(&all)],
            2 => (0..3).map(|_| *r.pick(&all)).collect(),
            3 => vec![b'x', *r.pick(&all)],
            _ => all.clone(),
        };
        let mut letters = letters;
        let known = &crate::dict::get().bytes;
        if !known.is_empty() && r.chance(1, 2) {
            letters.extend(known.iter().filter(|c| c.is_ascii_alphabetic()));
        }
        let digits = match r.below(4) {
            0 => vec![b'0', b'9'],
            1 => vec![b'0' + r.below(10) as u8],
            _ => (b'0'..=b'9').collect(),
        };
        Style {
            letters,
            digits,
            digit_bias: r.below(6),
            case: r.below(5) as u8,
            p_extlang: r.below(9),
            p_script: r.below(9),
            p_region: r.below(9),
            m_variants: r.below(4),
            m_exts: r.below(4),
            m_subtags: r.below(4),
            p_pu: r.below(9),
            p_grandfathered: r.below(3),
            len_bias: r.below(4) as u8,
            p_dict: *r.pick(&[0, 0, 1, 1, 3, 6]),
        }
    }
    /// A part the dictionary knows, now and then.
    fn known(&self, r: &mut Rng, k: K, o: &mut String) -> bool {
        if self.p_dict == 0 || !r.chance(self.p_dict, 16) {
            return false;
        }
        let Some(t) = crate::dict::get().phrase(r, k) else { return false };
        self.spelt(r, t, o);
        true
    }
    fn known_word(&self, r: &mut Rng, o: &mut String, fits: impl Fn(&[u8]) -> bool) -> bool {
        if self.p_dict == 0 || !r.chance(self.p_dict, 16) {
            return false;
        }
        let w = crate::dict::get().word(r);
        if !fits(w.as_bytes()) {
            return false;
        }
        self.spelt(r, w, o);
        true
    }
    fn spelt(&self, r: &mut Rng, t: &str, o: &mut String) {
        match self.case {
            0 => o.push_str(&t.to_ascii_lowercase()),
            1 => o.push_str(&t.to_ascii_uppercase()),
            2 => o.push_str(t),
            _ if r.chance(1, 2) => o.push_str(t),
            _ => o.push_str(&respell(t, r.u64())),
        }
    }
    fn letter(&self, r: &mut Rng) -> u8 {
        let c = *r.pick(&self.letters);
        match self.case {
            0 => c,
            1 => c.to_ascii_uppercase(),
            _ => {
                if r.chance(1, 2) {
                    c
                } else {
                    c.to_ascii_uppercase()
                }
            }
        }
    }
    fn digit(&self, r: &mut Rng) -> u8 {
        *r.pick(&self.digits)
    }
    fn alnum1(&self, r: &mut Rng) -> u8 {
        if r.chance(self.digit_bias, 8) {
            self.digit(r)
        } else {
            self.letter(r)
        }
    }
    fn len(&self, r: &mut Rng, lo: usize, hi: usize) -> usize {
        match self.len_bias {
            0 => lo,
            1 => hi,
            _ => r.range(lo, hi),
        }
    }
    fn alpha(&self, r: &mut Rng, o: &mut String, lo: usize, hi: usize) {
        if self.known_word(r, o, |w| alpha(w, lo, hi)) {
            return;
        }
        for _ in 0..self.len(r, lo, hi) {
            o.push(self.letter(r) as char);
        }
    }
    fn alnum(&self, r: &mut Rng, o: &mut String, lo: usize, hi: usize) {
        if self.known_word(r, o, |w| alnum(w, lo, hi)) {
            return;
        }
        for _ in 0..self.len(r, lo, hi) {
            o.push(self.alnum1(r) as char);
        }
    }
    fn digits(&self, r: &mut Rng, o: &mut String, n: usize) {
        if self.known_word(r, o, |w| digit(w, n)) {
            return;
        }
        for _ in 0..n {
            o.push(self.digit(r) as char);
        }
    }
    fn variant(&self, r: &mut Rng, o: &mut String) {
        if self.known(r, Variant, o) {
            return;
        }
        if r.chance(1, 3) {
            self.digits(r, o, 1);
            self.alnum(r, o, 3, 3);
        } else {
            self.alnum(r, o, 5, 8);
        }
    }
    fn extension(&self, r: &mut Rng, o: &mut String) {
        if self.known(r, Extension, o) {
            return;
        }
        let s = loop {
            let c = if r.chance(1, 4) { b'0' + r.below(10) as u8 } else { self.alnum1(r) };
            if is_singleton(c) {
                break c;
            }
            let c = b'a' + r.below(23) as u8;
            if is_singleton(c) {
                break c;
            }
        };
        o.push(s as char);
        for _ in 0..1 + r.small(self.m_subtags, 12) {
            o.push('-');
            self.alnum(r, o, 2, 8);
        }
    }
    fn private_use(&self, r: &mut Rng, o: &mut String) {
        if self.known(r, PrivateUse, o) {
            return;
        }
        o.push(if self.case == 1 || (self.case > 1 && r.chance(1, 2)) { 'X' } else { 'x' });
        for _ in 0..1 + r.small(self.m_subtags, 12) {
            o.push('-');
            self.alnum(r, o, 1, 8);
        }
    }
    fn extlang(&self, r: &mut Rng, o: &mut String) {
        if self.known(r, Extlang, o) {
            return;
        }
        for i in 0..r.range(1, 3) {
            if i > 0 {
                o.push('-');
            }
            self.alpha(r, o, 3, 3);
        }
    }
    fn language(&self, r: &mut Rng, o: &mut String) {
        if self.known(r, Language, o) {
            return;
        }
        if r.chance(1, 3) {
            self.alpha(r, o, 4, 8);
        } else {
            self.alpha(r, o, 2, 3);
            if r.chance(self.p_extlang, 9) {
                o.push('-');
                self.extlang(r, o);
            }
        }
    }
    fn normal(&self, r: &mut Rng, o: &mut String) {
        self.language(r, o);
        if r.chance(self.p_script, 9) {
            o.push('-');
            self.alpha(r, o, 4, 4);
        }
        if r.chance(self.p_region, 9) {
            o.push('-');
            self.region(r, o);
        }
        for _ in 0..r.small(self.m_variants, 12) {
            o.push('-');
            self.variant(r, o);
        }
        for _ in 0..r.small(self.m_exts, 8) {
            o.push('-');
            self.extension(r, o);
        }
        if r.chance(self.p_pu, 9) {
            o.push('-');
            self.private_use(r, o);
        }
    }
    fn region(&self, r: &mut Rng, o: &mut String) {
        if self.known(r, Region, o) {
            return;
        }
        if r.chance(1, 2) {
            self.alpha(r, o, 2, 2)
        } else {
            self.digits(r, o, 3)
        }
    }
    /// Well-formed text of kind `k`.
    pub fn text(&self, r: &mut Rng, k: K) -> String {
        let mut o = String::new();
        if self.known(r, k, &mut o) {
            return o;
        }
        match k {
            Tag => {
                if r.chance(self.p_grandfathered, 10) {
                    if r.chance(1, 4) {
                        if let Some(t) = String::from_utf8(around_registered(r)).ok().filter(|t| accepts(Tag, t.as_bytes())) {
                            return t;
                        }
                    }
                    let g = if r.chance(2, 3) { *r.pick(&IRREGULAR) } else { *r.pick(&REGULAR) };
                    let g = respell(g, r.u64());
                    // Whole, or continued: some grandfathered tags are prefixes of other tags.
                    let cut = if r.chance(1, 2) { g.len() } else { r.range(1, g.len()) };
                    o.push_str(&g[..cut]);
                    if r.chance(1, 2) {
                        let mut tail = String::new();
                        match r.below(4) {
                            0 => self.alnum(r, &mut tail, 1, 8),
                            1 => self.private_use(r, &mut tail),
                            2 => self.extension(r, &mut tail),
                            _ => self.variant(r, &mut tail),
                        }
                        if r.chance(1, 2) {
                            o.push('-');
                        }
                        o.push_str(&tail);
                    }
                    if !accepts(Tag, o.as_bytes()) {
                        o = g;
                    }
                } else if r.chance(1, 8) {
                    self.private_use(r, &mut o)
                } else {
                    self.normal(r, &mut o)
                }
            }
            Normal => self.normal(r, &mut o),
            PrivateUse => self.private_use(r, &mut o),
            PrivateUseSubtag => self.alnum(r, &mut o, 1, 8),
            Language => self.language(r, &mut o),
            Primary => self.alpha(r, &mut o, 2, 8),
            Extlang => self.extlang(r, &mut o),
            ExtlangTag => self.alpha(r, &mut o, 3, 3),
            Script => self.alpha(r, &mut o, 4, 4),
            Region => self.region(r, &mut o),
            Variant => self.variant(r, &mut o),
            Variants => {
                for i in 0..r.small(2, 12) {
                    if i > 0 {
                        o.push('-');
                    }
                    self.variant(r, &mut o);
                }
            }
            Extension => self.extension(r, &mut o),
            ExtensionSubtag => self.alnum(r, &mut o, 2, 8),
            Extensions => {
                for i in 0..r.small(2, 8) {
                    if i > 0 {
                        o.push('-');
                    }
                    self.extension(r, &mut o);
                }
            }
        }
        o
    }
    /// How long a long text may be: now and then longer than 16 bits count.
    pub fn reach(r: &mut Rng, tier: crate::world::Tier) -> usize {
        match r.below(if tier == crate::world::Tier::Thorough { 100 } else { 200 }) {
            0 => 70_000,
            1..=4 => 5000,
            5..=29 => 1500,
            _ => 300,
        }
    }
    /// Well-formed text of kind `k`, unusually long where the kind allows it:
    /// around lengths and counts at which a narrow counter would wrap.
    pub fn long_text(&self, r: &mut Rng, k: K, max: usize) -> String {
        let target = match r.below(5) {
            0 => r.range(60, 70),
            1 => r.range(120, 140),
            2 => r.range(250, 270),
            3 => r.range(500, 1100),
            _ => max,
        }
        .min(max);
        let target = if max > 10_000 { max } else { target };
        let known = &crate::dict::get().numbers;
        let target = if !known.is_empty() && r.chance(1, 3) { (*r.pick(known) + 12).saturating_sub(r.below(24)).min(max) } else { target };
        let mut o = self.text(r, k);
        // Which part grows.
        let grow = r.below(5);
        loop {
            let mut n = o.clone();
            n.push('-');
            match k {
                Tag | Normal => match normal(o.as_bytes()) {
                    Some(d) if d.pu.is_none() => match grow {
                        0 | 1 if d.exts.is_empty() => self.variant(r, &mut n),
                        2 => self.private_use(r, &mut n),
                        3 if d.exts.is_empty() || r.chance(1, 2) => self.extension(r, &mut n),
                        4 if r.chance(1, 6) => self.private_use(r, &mut n),
                        4 if d.exts.is_empty() && r.chance(2, 3) => self.variant(r, &mut n),
                        _ if !d.exts.is_empty() => self.alnum(r, &mut n, 2, 8),
                        _ => self.extension(r, &mut n),
                    },
                    Some(_) => self.alnum(r, &mut n, 1, 8),
                    None => self.alnum(r, &mut n, 1, 8),
                },
                PrivateUse => self.alnum(r, &mut n, 1, 8),
                Variants => {
                    if o.is_empty() {
                        n.clear();
                    }
                    self.variant(r, &mut n)
                }
                Extension => self.alnum(r, &mut n, 2, 8),
                Extensions => {
                    if o.is_empty() {
                        n.clear();
                    }
                    self.extension(r, &mut n)
                }
                _ => return o,
            }
            if n.len() > target || !accepts(k, n.as_bytes()) {
                return o;
            }
            o = n;
            if o.len() > 4000 {
                // Long texts are checked once, not at every step.
                let short = o.clone();
                let vars = match k {
                    Variants => true,
                    Tag | Normal => normal(o.as_bytes()).is_some_and(|d| d.exts.is_empty() && d.pu.is_none()),
                    _ => false,
                };
                while o.len() < target {
                    o.push('-');
                    match vars {
                        true => self.variant(r, &mut o),
                        false => self.alnum(r, &mut o, 2, 8),
                    }
                }
                return if accepts(k, o.as_bytes()) { o } else { short };
            }
        }
    }
    /// `t` followed by exactly `by` more bytes, where kind `k` has room for them.
    pub fn stretch(&self, r: &mut Rng, k: K, t: &str, by: usize) -> Option<String> {
        let mut o = t.to_owned();
        let mut left = by;
        let lo = match k {
            Variants => 6,
            PrivateUse => 2,
            Extension | Extensions => 3,
            Tag | Normal => match normal(t.as_bytes()) {
                Some(d) if d.pu.is_some() => 2,
                Some(d) if !d.exts.is_empty() && r.chance(1, 2) => 3,
                Some(d) if d.exts.is_empty() && !d.variants.is_empty() && r.chance(1, 2) => 6,
                Some(_) => {
                    o.push_str("-x");
                    left = left.checked_sub(2)?;
                    2
                }
                None if private_use(t.as_bytes()).is_some() => 2,
                None => return None,
            },
            _ => return None,
        };
        if t.is_empty() {
            return None;
        }
        while left > 0 {
            let n = if left <= 9 {
                left
            } else if left < 9 + lo {
                left - lo
            } else {
                9
            };
            o.push('-');
            for _ in 1..n {
                o.push(self.alnum1(r) as char);
            }
            left -= n;
        }
        accepts(k, o.as_bytes()).then_some(o)
    }
    /// A power of two near which a narrow count of bytes begins anew.
    pub fn wrap(r: &mut Rng) -> usize {
        1 << match r.below(40) {
            0..=2 => 16,
            3 => 15,
            4..=19 => 8,
            _ => r.range(3, 12),
        }
    }
    /// A well-formed text close to `t`: one edit away where possible.
    pub fn near(&self, r: &mut Rng, k: K, t: &str) -> String {
        for _ in 0..12 {
            let mut b = t.as_bytes().to_vec();
            match r.below(8) {
                6 if b.len() > 1 => {
                    // Two changes that cancel out in a sum, or bit by bit, at a distance at which words repeat.
                    let any = r.range(1, b.len() - 1);
                    let d = *r.pick(&[1, 1, 2, 4, 8, 16, 32, any]);
                    let d = if d < b.len() { d } else { 1 };
                    let i = r.below(b.len() - d);
                    let m = 1 << r.below(5);
                    match r.below(4) {
                        0 | 1 => b.swap(i, i + d),
                        2 => {
                            b[i] = b[i].wrapping_add(m);
                            b[i + d] = b[i + d].wrapping_sub(m);
                        }
                        _ => {
                            b[i] ^= m;
                            b[i + d] ^= m;
                        }
                    }
                }
                7 => {
                    // Two subtags change places.
                    let mut parts: Vec<&str> = t.split('-').collect();
                    let (i, j) = (r.below(parts.len()), r.below(parts.len()));
                    parts.swap(i, j);
                    b = parts.join("-").into_bytes();
                }
                0 | 1 if !b.is_empty() => {
                    let i = r.below(b.len());
                    if b[i] != b'-' {
                        b[i] = match r.below(3) {
                            0 => self.alnum1(r),
                            1 => b[i].wrapping_add(1),
                            _ => b[i].wrapping_sub(1),
                        };
                    }
                }
                2 => {
                    let i = r.below(b.len() + 1);
                    let c = self.alnum1(r);
                    b.insert(i, c);
                }
                3 if !b.is_empty() => {
                    let i = r.below(b.len());
                    b.remove(i);
                }
                4 => {
                    let mut x = String::new();
                    match r.below(3) {
                        0 => self.variant(r, &mut x),
                        1 => self.extension(r, &mut x),
                        _ => self.alnum(r, &mut x, 1, 8),
                    }
                    if !b.is_empty() {
                        b.push(b'-');
                    }
                    b.extend_from_slice(x.as_bytes());
                }
                _ => {
                    if let Some(i) = b.iter().rposition(|c| *c == b'-') {
                        b.truncate(i);
                    } else if b.len() > 1 {
                        let l = b.len();
                        b.swap(0, l - 1);
                    }
                }
            }
            if b != t.as_bytes() && accepts(k, &b) {
                return String::from_utf8(b).unwrap();
            }
        }
        self.text(r, k)
    }
}

/// Another spelling of the same text: bit i of the stream drives letter i.
pub fn respell(t: &str, mut seed: u64) -> String {
    let mode = seed & 3;
    seed = crate::rng::mix(seed);
    t.bytes()
        .enumerate()
        .map(|(i, c)| {
            if i % 64 == 63 {
                seed = crate::rng::mix(seed);
            }
            (match mode {
                0 => c.to_ascii_lowercase(),
                1 => c.to_ascii_uppercase(),
                _ if seed >> (i % 64) & 1 == 0 => c.to_ascii_lowercase(),
                _ => c.to_ascii_uppercase(),
            }) as char
        })
        .collect()
}

/// Shape of a text: its segments reduced to length and character classes.
pub fn shape(k: u8, b: &[u8]) -> u64 {
    let mut h = crate::rng::fnv(crate::rng::FNV0, &[k]);
    for (n, p) in segs(b).iter().enumerate() {
        let s = &b[p.0..p.1];
        let class = if s.iter().all(|c| c.is_ascii_alphabetic()) {
            1u8
        } else if s.iter().all(|c| c.is_ascii_digit()) {
            2
        } else if s.first().is_some_and(|c| c.is_ascii_digit()) {
            3
        } else if s.iter().all(|c| c.is_ascii_alphanumeric()) {
            4
        } else {
            5
        };
        h = crate::rng::fnv(h, &[s.len().min(10) as u8, class, is_x(s) as u8]);
        if n == 9 {
            break;
        }
    }
    h
}

/// Text near the grammar written without regard to it: random segments.
pub fn wild(r: &mut Rng) -> Vec<u8> {
    let mut o = Vec::new();
    let n = r.range(1, 7);
    for i in 0..n {
        if i > 0 {
            o.push(b'-');
        }
        let len = match r.below(8) {
            0 => 1,
            1 => r.range(0, 9),
            _ => r.range(1, 8),
        };
        let class = r.below(5);
        for j in 0..len {
            let c = match class {
                0 => b'0' + r.below(10) as u8,
                1 | 2 => b'a' + r.below(26) as u8,
                3 if j == 0 => b'0' + r.below(10) as u8,
                _ => *r.pick(b"0123456789abcdefghijklmnopqrstuvwxyz"),
            };
            o.push(if r.chance(1, 3) { c.to_ascii_uppercase() } else { c });
        }
        if len == 1 && r.chance(1, 4) {
            *o.last_mut().unwrap() = *r.pick(b"xX");
        }
    }
    o
}

/// Characters just outside the ranges the grammar names, and look-alikes.
const EDGE: &[u8] = b"@[`{/:_-. \x00\t\n\r\x0d\x10\x19\x7f\x80\xc1\xe1\xff\xad";

/// One or a few edits anywhere.
pub fn mutate(r: &mut Rng, t: &[u8]) -> Vec<u8> {
    let mut b = t.to_vec();
    for _ in 0..1 + r.small(1, 3) {
        let n = b.len();
        match r.below(12) {
            0 | 1 if n > 0 => {
                let i = r.below(n);
                b[i] ^= 1 << r.below(8);
            }
            2 if n > 0 => {
                let i = r.below(n);
                b[i] = *r.pick(EDGE);
            }
            3 => {
                let i = r.below(n + 1);
                b.insert(i, if r.chance(1, 2) { *r.pick(EDGE) } else { r.u8() });
            }
            4 if n > 0 => {
                b.remove(r.below(n));
            }
            5 => {
                let i = r.below(n + 1);
                b.insert(i, b'-');
            }
            6 if n > 0 => {
                // Stretch: repeat one byte.
                let i = r.below(n);
                for _ in 0..r.range(1, 8) {
                    b.insert(i, b[i]);
                }
            }
            7 => {
                // Drop, repeat or move a segment.
                let s = segs(&b);
                let mut parts: Vec<Vec<u8>> = s.iter().map(|p| b[p.0..p.1].to_vec()).collect();
                let i = r.below(parts.len());
                match r.below(3) {
                    0 => {
                        parts.remove(i);
                    }
                    1 => parts.insert(i, parts[i].clone()),
                    _ => {
                        let j = r.below(parts.len());
                        parts.swap(i, j)
                    }
                }
                b = parts.join(&b'-');
            }
            8 => b.truncate(r.below(n + 1)),
            9 if n > 0 => {
                // Over-long or wide re-encoding of one character.
                let i = r.below(n);
                let e = reencode(b[i], r.u8());
                b.splice(i..i + 1, e);
            }
            10 => {
                let c = char::from_u32(r.range(0x80, 0x2fff) as u32).unwrap_or('é');
                let mut t = [0; 4];
                let i = r.below(n + 1);
                b.splice(i..i, c.encode_utf8(&mut t).bytes());
            }
            _ => {
                b.extend_from_slice(&wild(r));
            }
        }
    }
    b
}

/// Some parts of `t` (its beginning, its end, one between) that are well-formed for `k` themselves.
pub fn views(k: K, t: &str, salt: u64) -> Vec<(usize, usize)> {
    let n = t.len();
    let mut cuts: Vec<usize> = t.bytes().enumerate().filter(|x| x.1 == b'-').map(|x| x.0).collect();
    if cuts.is_empty() {
        cuts = (1..n).collect();
    }
    if cuts.is_empty() {
        return vec![];
    }
    let by = salt as usize % cuts.len();
    cuts.rotate_left(by);
    cuts.truncate(6);
    let b = t.as_bytes();
    let skip = |i: usize| if b[i] == b'-' { i + 1 } else { i };
    let mut out = vec![];
    out.extend(cuts.iter().map(|&i| (0, i)).find(|v| accepts(k, &b[v.0..v.1])));
    out.extend(cuts.iter().map(|&i| (skip(i), n)).find(|v| v.0 > 0 && accepts(k, &b[v.0..v.1])));
    if let (Some(x), Some(y)) = (cuts.first(), cuts.last()) {
        let v = (skip(*x.min(y)), *x.max(y));
        out.extend((v.0 > 0 && v.0 < v.1 && accepts(k, &b[v.0..v.1])).then_some(v));
    }
    out
}

const ALNUM: &[u8] = b"0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ";

/// Grows the last segment of `b` to between 1 and 9 bytes and adds some more segments.
fn carry_on(r: &mut Rng, b: &mut Vec<u8>) {
    let last = b.len() - b.iter().rposition(|&c| c == b'-').map_or(0, |i| i + 1);
    let (from, to) = *r.pick(&[(10, 61), (0, 9), (0, 61)]);
    for _ in last..r.range(1, 9).max(last) {
        b.push(ALNUM[r.range(from, to)]);
    }
    for _ in 0..r.small(1, 3) {
        let len = r.range(1, 8);
        b.push(b'-');
        if len == 1 && r.chance(1, 3) {
            b.push(*r.pick(b"xX"));
        } else {
            b.extend((0..len).map(|_| ALNUM[r.below(62)]));
        }
    }
}

/// Text that begins as one of the registered tags does, and departs from it at some point.
pub fn around_registered(r: &mut Rng) -> Vec<u8> {
    let mut one = || if r.chance(1, 2) { *r.pick(&IRREGULAR) } else { *r.pick(&REGULAR) };
    // The long ones have more places to depart from.
    let (g, h) = (one(), one());
    let g = if g.len() < h.len() { h } else { g };
    let mut b = respell(g, r.u64()).into_bytes();
    let at = r.range(0, b.len());
    let rest = b.split_off(at);
    if r.chance(5, 6) {
        b.push(if r.chance(1, 12) { *r.pick(b"-_@[`{/: ") } else { ALNUM[r.below(62)] });
    }
    match r.below(8) {
        0 => {}
        1 => b.extend_from_slice(&rest[r.below(rest.len() + 1)..]),
        2..=4 => b.extend_from_slice(&rest[rest.len().min(r.below(2))..]),
        _ => carry_on(r, &mut b),
    }
    b
}

/// One character replaced, put in or taken out; what follows may be cut off or go on another way.
pub fn turn(r: &mut Rng, t: &[u8]) -> Vec<u8> {
    let at = r.below(t.len() + 1);
    let mut b = t[..at].to_vec();
    let mut rest = t[at..].to_vec();
    if r.chance(7, 8) {
        b.push(match r.below(8) {
            0 => b'-',
            1 => *r.pick(EDGE),
            2 => r.below(128) as u8,
            _ => ALNUM[r.below(62)],
        });
    }
    if r.chance(2, 3) && !rest.is_empty() {
        rest.remove(0);
    }
    match r.below(4) {
        0 => {}
        1 => carry_on(r, &mut b),
        _ => b.extend_from_slice(&rest),
    }
    b
}

/// The same character in another encoding.
pub fn reencode(c: u8, how: u8) -> Vec<u8> {
    match how % 8 {
        0 => vec![0xc0 | c >> 6, 0x80 | c & 0x3f],
        1 => vec![0xe0, 0x80 | c >> 6, 0x80 | c & 0x3f],
        2 => vec![0xf0, 0x80, 0x80 | c >> 6, 0x80 | c & 0x3f],
        3 => vec![c, 0],
        // Full-width form.
        4 => char::from_u32(0xfee0 + c as u32).unwrap_or('é').to_string().into_bytes(),
        // One that letter case or digit values confuse with it.
        5 | 6 => {
            let twins: &[char] = match c {
                b'k' | b'K' => &['\u{212a}'],
                b's' | b'S' => &['\u{17f}'],
                b'i' | b'I' => &['\u{131}', '\u{130}'],
                b'-' => &['\u{2010}', '\u{2011}', '\u{ad}', '\u{2212}'],
                b'0'..=b'9' => &['\u{660}', '\u{b9}', '\u{1d7ce}', '\u{2070}'],
                _ => &['\u{430}', '\u{1d400}', '\u{aa}', '\u{e4}'],
            };
            twins[how as usize / 8 % twins.len()].to_string().into_bytes()
        }
        // A character whose code ends in this byte.
        _ => char::from_u32(0x100 + c as u32).unwrap_or('é').to_string().into_bytes(),
    }
}
