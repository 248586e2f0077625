//! What a world is, and the table of them.
use crate::ctx::{Ctx, R, V};
use crate::rng::Rng;
use serde::{de::DeserializeOwned, Serialize};
use serde_json::Value;
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// What plans are generated for.
#[derive(Clone, Copy, Debug)]
pub struct Env {
    pub tier: Tier,
    /// The library was seen touching writable static data: look for trouble there.
    pub hot: bool,
}

pub struct Meta {
    pub id: &'static str,
    /// Runs per tier.
    pub quick: u64,
    pub thorough: u64,
    /// Runs per worker process: bounds the history one process carries.
    pub batch: u64,
    /// Uses scheduled threads, so code that really blocks while preempted would stall.
    pub threads: bool,
    /// Interrupts calls with others on the same thread, which only a second thread may do for real.
    pub nests: bool,
    /// Runs per processor single-stepped first, to learn whether the library touches static data.
    pub survey: u64,
    pub rule: &'static str,
    pub states: &'static str,
    pub interleavings: &'static str,
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
    pub assumptions: &'static [&'static str],
}

pub trait World: 'static {
    const META: Meta;
    type Plan: Serialize + DeserializeOwned;
    fn gen(r: &mut Rng, env: Env) -> Self::Plan;
    /// Executes a plan. Draws no randomness; accepts any plan of the right shape.
    fn exec(p: &Self::Plan, c: &mut Ctx) -> R;
}

pub struct Def {
    pub meta: Meta,
    pub run: fn(u64, Env, u64, &mut Ctx) -> R,
    pub plan: fn(u64, Env, u64) -> Value,
    pub exec: fn(&Value, &mut Ctx) -> Result<R, String>,
}

pub struct Panicked {
    pub msg: String,
    pub file: String,
}

thread_local! {
    static PANIC: RefCell<Option<Panicked>> = const { RefCell::new(None) };
}

/// Keeps panics quiet and remembers them for `take_panic`.
pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        let msg = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let (file, line) = i.location().map(|l| (l.file().to_string(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some(Panicked { msg: format!("{msg} at {file}:{line}"), file }));
    }));
}

/// Raised inside a call of the library that goes on for ever.
pub const ENDLESS: &str = "the call does not end";

/// The violation a caught panic stands for.
pub fn panic_violation() -> V {
    let p = PANIC.with(|p| p.borrow_mut().take());
    match p {
        Some(p) if p.msg.starts_with(ENDLESS) => V { class: "endless".into(), detail: ENDLESS.into() },
        Some(p) if p.file.starts_with("src/") => V { class: "harness".into(), detail: p.msg },
        Some(p) => V { class: "panic".into(), detail: p.msg },
        None => V { class: "panic".into(), detail: "unknown panic".into() },
    }
}

pub fn guarded(f: impl FnOnce() -> R) -> R {
    let mut r = match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(_) => Err(panic_violation()),
    };
    if let Err(v) = &mut r {
        if let Some((cut, _)) = v.detail.char_indices().nth(1500) {
            v.detail.truncate(cut);
            v.detail.push_str("...");
        }
    }
    r
}

pub fn def<W: World>() -> Def {
    fn rng<W: World>(seed: u64, run: u64) -> Rng {
        Rng::for_run(seed, W::META.id, run)
    }
    fn go<W: World>(age: u64, p: &W::Plan, c: &mut Ctx) -> R {
        c.begin_run();
        crate::seams::arena_reset();
        guarded(|| {
            crate::age::grow(W::META.id, age, c)?;
            W::exec(p, c)
        })
    }
    fn age<W: World>(seed: u64, env: Env, run: u64) -> u64 {
        // Counting steps is for one call at a time, and only one of two builds could be aged.
        if matches!(W::META.id, "C11" | "C12") {
            return 0;
        }
        crate::age::of(seed, run, W::META.quick, env.hot)
    }
    Def {
        meta: W::META,
        run: |seed, env, run, c| {
            let p = W::gen(&mut rng::<W>(seed, run), env);
            go::<W>(age::<W>(seed, env, run), &p, c)
        },
        plan: |seed, env, run| {
            let mut v = serde_json::to_value(W::gen(&mut rng::<W>(seed, run), env)).expect("plan");
            if let (n @ 1.., Some(o)) = (age::<W>(seed, env, run), v.as_object_mut()) {
                o.insert("age".into(), n.into());
            }
            v
        },
        exec: |v, c| {
            let mut v = v.clone();
            let age = v.as_object_mut().and_then(|o| o.remove("age")).and_then(|n| n.as_u64()).unwrap_or(0);
            let p: W::Plan = serde_json::from_value(v).map_err(|e| e.to_string())?;
            Ok(go::<W>(age, &p, c))
        },
    }
}

pub fn all() -> Vec<Def> {
    use crate::worlds::*;
    #[cfg(feature = "meter")]
    return vec![def::<c12::C12>()];
    #[cfg(not(feature = "meter"))]
    vec![
        def::<c01::C01>(),
        def::<c02::C02>(),
        def::<c03::C03>(),
        def::<c04::C04>(),
        def::<c05::C05>(),
        def::<c06::C06>(),
        def::<c07::C07>(),
        def::<c08::C08>(),
        def::<c11::C11>(),
        def::<c13::C13>(),
        def::<c14::C14>(),
    ]
}
