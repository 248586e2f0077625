//! Simulated byte streams, and byte strings inside plans.
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use std::io::{self, Read, Write};

/// Byte string of a plan. Written as text, one character per byte.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Bytes(pub Vec<u8>);
impl Serialize for Bytes {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&self.0.iter().map(|b| *b as char).collect::<String>())
    }
}
impl<'de> Deserialize<'de> for Bytes {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        Ok(Bytes(String::deserialize(d)?.chars().map(|c| c as u32 as u8).collect()))
    }
}
impl From<String> for Bytes {
    fn from(s: String) -> Self {
        Bytes(s.into_bytes())
    }
}

pub const ERRORS: [io::ErrorKind; 8] = [
    io::ErrorKind::Other,
    io::ErrorKind::StorageFull,
    io::ErrorKind::BrokenPipe,
    io::ErrorKind::TimedOut,
    io::ErrorKind::PermissionDenied,
    io::ErrorKind::WouldBlock,
    io::ErrorKind::ConnectionReset,
    io::ErrorKind::UnexpectedEof,
];

/// How one stream behaves. Sizes cycle; each call first consults `intr`.
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct Stream {
    /// Bytes moved per call (0 stands for 1), cycled; empty: all at once.
    pub chunk: Vec<u8>,
    /// Bit i: call i is interrupted before moving anything.
    pub intr: u32,
    /// Fails for good once this many bytes went through.
    pub fail: Option<u32>,
    pub err: u8,
    /// The stream ends (read: end of file; write: accepts 0 bytes) instead of failing.
    pub end: bool,
}

#[derive(Default, Clone, Copy)]
pub struct Fired {
    pub short: u64,
    pub intr: u64,
    pub fail: u64,
    pub end: u64,
}

struct Gate {
    spec: Stream,
    calls: u32,
    moved: usize,
    fired: Fired,
}

enum Step {
    Move(usize),
    Fail(io::Error),
    End,
}

impl Gate {
    fn new(spec: &Stream) -> Gate {
        Gate { spec: spec.clone(), calls: 0, moved: 0, fired: Fired::default() }
    }
    fn step(&mut self, want: usize) -> Step {
        let n = self.calls;
        self.calls += 1;
        if want == 0 {
            return Step::Move(0);
        }
        if n < 32 && self.spec.intr >> n & 1 == 1 {
            self.fired.intr += 1;
            return Step::Fail(io::ErrorKind::Interrupted.into());
        }
        let mut k = want;
        if !self.spec.chunk.is_empty() {
            k = k.min((self.spec.chunk[n as usize % self.spec.chunk.len()] as usize).max(1));
        }
        if let Some(f) = self.spec.fail {
            let left = (f as usize).saturating_sub(self.moved);
            if left == 0 {
                return if self.spec.end {
                    self.fired.end += 1;
                    Step::End
                } else {
                    self.fired.fail += 1;
                    Step::Fail(ERRORS[self.spec.err as usize % ERRORS.len()].into())
                };
            }
            k = k.min(left);
        }
        if k < want {
            self.fired.short += 1;
        }
        self.moved += k;
        Step::Move(k)
    }
}

pub struct SimReader<'a> {
    data: &'a [u8],
    gate: Gate,
}
impl<'a> SimReader<'a> {
    pub fn new(data: &'a [u8], spec: &Stream) -> Self {
        SimReader { data, gate: Gate::new(spec) }
    }
    pub fn fired(&self) -> Fired {
        self.gate.fired
    }
}
impl Read for SimReader<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let at = self.gate.moved;
        match self.gate.step(buf.len().min(self.data.len() - at)) {
            Step::Move(k) => {
                buf[..k].copy_from_slice(&self.data[at..at + k]);
                Ok(k)
            }
            Step::End => Ok(0),
            Step::Fail(e) => Err(e),
        }
    }
}

pub struct SimWriter {
    pub data: Vec<u8>,
    gate: Gate,
    /// Bytes offered after a permanent failure had been reported.
    pub after_failure: bool,
    failed: bool,
}
impl SimWriter {
    pub fn new(spec: &Stream) -> Self {
        SimWriter { data: vec![], gate: Gate::new(spec), after_failure: false, failed: false }
    }
    pub fn fired(&self) -> Fired {
        self.gate.fired
    }
}
impl Write for SimWriter {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if self.failed && !buf.is_empty() {
            self.after_failure = true;
        }
        match self.gate.step(buf.len()) {
            Step::Move(k) => {
                self.data.extend_from_slice(&buf[..k]);
                Ok(k)
            }
            Step::End => {
                self.failed = true;
                Ok(0)
            }
            Step::Fail(e) => {
                if e.kind() != io::ErrorKind::Interrupted {
                    self.failed = true;
                }
                Err(e)
            }
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// A random stream behaviour for about `len` bytes. Mostly survivable.
pub fn gen_stream(r: &mut crate::rng::Rng, len: usize) -> Stream {
    let fails = r.chance(1, 3);
    Stream {
        chunk: match r.below(4) {
            0 => vec![],
            1 => vec![1],
            _ => (0..r.range(1, 4)).map(|_| r.range(1, 9) as u8).collect(),
        },
        intr: if r.chance(1, 2) { r.u64() as u32 & r.u64() as u32 } else { 0 },
        fail: fails.then(|| r.below(len + 2) as u32),
        err: r.u8() % ERRORS.len() as u8,
        end: r.chance(1, 3),
    }
}

pub fn count(c: &mut crate::ctx::Ctx, f: Fired, write: bool) {
    let n: [&'static str; 4] = if write {
        ["short write", "EINTR on write", "write error", "disk full (write accepts 0 bytes)"]
    } else {
        ["short read", "EINTR on read", "read error", "early end of file"]
    };
    c.faults_n(n[0], f.short);
    c.faults_n(n[1], f.intr);
    c.faults_n(n[2], f.fail);
    c.faults_n(n[3], f.end);
}

/// Memory the callers keep texts in: a fixed region handed out front to back
/// and taken back as a whole before every run, so that where texts lie, what
/// they neighbour and when an address is used again follow from the plan.
struct Arena {
    base: Vec<u8>,
    used: usize,
}
thread_local! {
    static ARENA: std::cell::RefCell<Arena> = const { std::cell::RefCell::new(Arena { base: vec![], used: 0 }) };
}
const ARENA_SIZE: usize = 1 << 20;

/// Takes all placed memory back. Slices handed out before must not be used again.
pub fn arena_reset() {
    ARENA.with(|a| a.borrow_mut().used = 0);
}

/// A copy of `parts`, one after the other, in the arena; valid until the next reset.
pub fn place(parts: &[&[u8]]) -> &'static [u8] {
    let len: usize = parts.iter().map(|p| p.len()).sum();
    ARENA.with(|a| {
        let a = &mut *a.borrow_mut();
        if a.base.is_empty() {
            a.base = vec![0; ARENA_SIZE];
        }
        if a.used + len > ARENA_SIZE {
            return &*Box::leak(parts.concat().into_boxed_slice());
        }
        // SAFETY: in bounds; the vector never moves or shrinks; regions handed out are disjoint until reset.
        unsafe {
            let start = a.base.as_mut_ptr().add(a.used);
            let mut at = start;
            for p in parts {
                std::ptr::copy_nonoverlapping(p.as_ptr(), at, p.len());
                at = at.add(p.len());
            }
            a.used += len;
            std::slice::from_raw_parts(start, len)
        }
    })
}

/// A text as it lies in a larger document: at any address, with neighbours.
pub struct Placed(Vec<u8>, usize, usize);
impl Placed {
    pub fn new(t: String, salt: u64) -> Placed {
        let salt = crate::rng::mix(salt);
        let off = if salt & 1 == 0 { 0 } else { (salt >> 1) as usize % 17 };
        if off == 0 && salt & 2 == 0 {
            let n = t.len();
            return Placed(t.into_bytes(), 0, n);
        }
        let fill = *b"a-0xZ\xff\0 ".get((salt >> 8) as usize % 8).unwrap_or(&0);
        let mut v = Vec::with_capacity(t.len() + 33);
        v.resize(off, fill);
        v.extend_from_slice(t.as_bytes());
        v.resize(v.len() + 9, fill);
        Placed(v, off, t.len())
    }
}
impl std::ops::Deref for Placed {
    type Target = str;
    fn deref(&self) -> &str {
        std::str::from_utf8(&self.0[self.1..self.1 + self.2]).unwrap_or_default()
    }
}
