//! Campaigns: batches of runs in worker processes, verdict, minimisation,
//! replay files, evidence.
//!
//! A run is a pure function of (seed, property, run number) and the code. A
//! batch is a fresh process executing consecutive runs, so whatever state the
//! library might keep between calls is bounded by the batch and can be
//! replayed with it.
use crate::ctx::{Ctx, Set64, SET_CAP, V};
use crate::rng::{fnv, mix, FNV0};
use crate::shrink::shrink;
use crate::world::{all, Def, Env, Tier};
use serde_json::{json, Map, Value};
use std::collections::BTreeMap;
use std::fs::{self, File};
use std::io::Read as _;
use std::os::unix::fs::FileExt;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, ExitStatus, Stdio};
use std::time::{Duration, Instant};

const REC: usize = 17;
const IDLE: u64 = u64::MAX;

extern "C" {
    fn setrlimit(what: i32, cur_max: *const u64) -> i32;
    fn personality(p: std::ffi::c_ulong) -> std::ffi::c_int;
    fn sched_setaffinity(pid: i32, len: usize, mask: *const u64) -> i32;
    fn sched_getaffinity(pid: i32, len: usize, mask: *mut u64) -> i32;
}

fn find(prop: &str) -> Def {
    match all().into_iter().find(|d| d.meta.id == prop) {
        Some(d) => d,
        None => {
            eprintln!("no such property: {prop}");
            std::process::exit(2)
        }
    }
}

fn tier_name(t: Tier) -> &'static str {
    match t {
        Tier::Quick => "quick",
        Tier::Thorough => "thorough",
    }
}

fn counters(m: &BTreeMap<&'static str, u64>) -> Value {
    Value::Object(m.iter().map(|(k, v)| (k.to_string(), json!(v))).collect())
}

fn add(into: &mut BTreeMap<String, u64>, v: &Value) {
    for (k, n) in v.as_object().into_iter().flatten() {
        *into.entry(k.clone()).or_insert(0) += n.as_u64().unwrap_or(0);
    }
}

// ------------------------------------------------------------------- worker

/// worker <prop> <seed> <tier> <start> <count> <out> <mode> <hot>
pub fn worker(a: &[&str]) -> i32 {
    let [prop, seed, tier, start, count, out, mode, hot] = a else { return 2 };
    let d = find(prop);
    let seed: u64 = seed.parse().unwrap();
    let tier = if *tier == "quick" { Tier::Quick } else { Tier::Thorough };
    let env = Env { tier, hot: *hot == "true" };
    let (start, count): (u64, u64) = (start.parse().unwrap(), count.parse().unwrap());
    let mut c = Ctx::new();
    c.set_mode(mode.parse().unwrap());
    let prog = File::create(format!("{out}.prog")).expect("progress file");
    let mut recs = Vec::with_capacity(count as usize * REC);
    let mut violation = Value::Null;
    for run in start..start + count {
        prog.write_at(&run.to_le_bytes(), 0).expect("progress");
        let r = (d.run)(seed, env, run, &mut c);
        recs.extend_from_slice(&c.trace.to_le_bytes());
        recs.extend_from_slice(&c.sched.to_le_bytes());
        recs.push(c.nontrivial as u8);
        if let Err(v) = r {
            violation = json!({"run": run, "class": v.class, "detail": v.detail});
            break;
        }
    }
    prog.write_at(&IDLE.to_le_bytes(), 0).expect("progress");
    fs::write(format!("{out}.rec"), &recs).expect("records");
    let st: Vec<u8> = c.states.iter().flat_map(|s| s.to_le_bytes()).collect();
    fs::write(format!("{out}.st"), st).expect("states");
    let j = json!({
        "violation": violation, "faults": counters(&c.faults), "probes": counters(&c.probes),
        "checks": c.checks, "ops": c.ops, "sim_ms": c.sim_ms, "states_capped": c.states.len() >= SET_CAP,
    });
    fs::write(format!("{out}.json"), j.to_string()).expect("summary");
    0
}

/// survey <prop> <seed> <start> <count>: how often the library touches static data.
pub fn survey(a: &[&str]) -> i32 {
    let [prop, seed, start, count] = a else { return 2 };
    let d = find(prop);
    let (seed, start, count): (u64, u64, u64) = (seed.parse().unwrap(), start.parse().unwrap(), count.parse().unwrap());
    let mut c = Ctx::new();
    c.set_mode(1);
    crate::fine::survey();
    for run in start..start + count {
        let _ = (d.run)(seed, Env { tier: Tier::Quick, hot: false }, run, &mut c);
    }
    println!("{}", crate::fine::surveyed());
    0
}

pub fn plan(prop: &str, seed: &str, run: &str) -> i32 {
    let d = find(prop);
    let t = Env { tier: env_tier(), hot: std::env::var("SIM_HOT").is_ok() };
    println!("{}", serde_json::to_string_pretty(&(d.plan)(seed.parse().unwrap(), t, run.parse().unwrap())).unwrap());
    0
}

// ------------------------------------------------------------------- replay

/// Executes the plans of a replay file in order; verbose when asked for by hand.
pub fn exec(file: &str, verbose: bool) -> i32 {
    let v: Value = match fs::read(file).map_err(|e| e.to_string()).and_then(|b| serde_json::from_slice(&b).map_err(|e| e.to_string())) {
        Ok(v) => v,
        Err(e) => {
            eprintln!("{file}: {e}");
            return 2;
        }
    };
    let prop = v["property"].as_str().unwrap_or("");
    let d = find(prop);
    let empty = vec![];
    let plans = v["plans"].as_array().unwrap_or(&empty);
    if verbose {
        println!("property {prop}: {} plan(s)", plans.len());
        if let Some(k) = v["class"].as_str() {
            println!("recorded: {k}: {}", v["detail"].as_str().unwrap_or(""));
        }
        if v["class"] == "hang" {
            println!("(this replay is expected not to end; it is stopped after 60 s)");
            std::thread::spawn(|| {
                std::thread::sleep(Duration::from_secs(60));
                println!("VIOLATION reproduced: hang");
                std::process::exit(1);
            });
        }
    }
    let mut trace = FNV0;
    for (i, p) in plans.iter().enumerate() {
        let mut c = Ctx::new();
        c.set_mode(v["mode"].as_u64().unwrap_or(0));
        if verbose && i + 1 == plans.len() {
            c.log = Some(vec![]);
        }
        let r = match (d.exec)(p, &mut c) {
            Ok(r) => r,
            Err(e) => {
                println!("{}", json!({"malformed": e}));
                return 2;
            }
        };
        trace = fnv(trace, &c.trace.to_le_bytes());
        if let Some(l) = &c.log {
            for e in l {
                println!("  {e}");
            }
        }
        if let Err(V { class, detail }) = r {
            if verbose {
                println!("VIOLATION reproduced: {class}: {detail}");
                println!("trace {trace:016x}{}", match v["trace"].as_str() {
                    Some(t) if t == format!("{trace:016x}") => " (as recorded)",
                    Some(_) => " (DIFFERS from the recorded one)",
                    None => "",
                });
            } else {
                println!("{}", json!({"class": class, "detail": detail, "at": i, "trace": format!("{trace:016x}")}));
            }
            return 1;
        }
    }
    if verbose {
        println!("no violation: the property held on this replay");
    } else {
        println!("{}", json!({"trace": format!("{trace:016x}")}));
    }
    0
}

// --------------------------------------------------------------- supervisor

fn env_tier() -> Tier {
    match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    }
}

struct Scratch(PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}

fn command(args: &[String], cpu: Option<usize>) -> Command {
    let mut c = Command::new(std::env::current_exe().expect("current exe"));
    c.args(args).stdin(Stdio::null()).stderr(Stdio::null());
    // SAFETY: async-signal-safe calls only.
    unsafe {
        c.pre_exec(move || {
            // Fixed addresses; harmless where refused.
            personality(0x0040000);
            // A run that never stops taking memory ends here, not the machine's.
            const RLIMIT_AS: i32 = 9;
            setrlimit(RLIMIT_AS, [3u64 << 30; 2].as_ptr());
            if let Some(n) = cpu {
                // One core per worker: its threads take turns anyway.
                let mut m = [0u64; 16];
                if sched_getaffinity(0, 128, m.as_mut_ptr()) > 0 {
                    let on: usize = m.iter().map(|w| w.count_ones() as usize).sum();
                    let mut k = n % on.max(1);
                    for i in 0..1024 {
                        if m[i / 64] >> (i % 64) & 1 == 1 {
                            if k == 0 {
                                let mut one = [0u64; 16];
                                one[i / 64] = 1 << (i % 64);
                                sched_setaffinity(0, 128, one.as_ptr());
                                break;
                            }
                            k -= 1;
                        }
                    }
                }
            }
            Ok(())
        });
    }
    c
}

#[derive(Clone, Copy, PartialEq, Debug)]
struct Job {
    start: u64,
    count: u64,
    attempt: u8,
}

struct Slot {
    job: Job,
    out: PathBuf,
    child: Child,
    seen: u64,
    since: Instant,
    polled: Instant,
}

struct Found {
    run: u64,
    start: u64,
    class: String,
    detail: String,
}

#[derive(Default)]
struct Totals {
    recs: Vec<(u64, Vec<u8>)>,
    faults: BTreeMap<String, u64>,
    probes: BTreeMap<String, u64>,
    checks: u64,
    ops: u64,
    sim_ms: u64,
    states: Set64,
    states_capped: bool,
    retried: u64,
}

struct Campaign<'a> {
    d: &'a Def,
    seed: u64,
    env: Env,
    dir: &'a Path,
    /// 0: everything; 1: what interrupts a call runs on another thread; 2: calls are not interrupted.
    mode: u8,
    stall: Duration,
    deadline: Instant,
    /// Reproducing and minimising end here.
    until: Instant,
}

enum End {
    Clean,
    Found(Found),
    /// No verdict: says why.
    Error(String),
}

fn say_exit(s: ExitStatus) -> String {
    match (s.signal(), s.code()) {
        (Some(n), _) => format!("process ended by signal {n}"),
        (_, c) => format!("process ended with status {c:?}"),
    }
}

impl Campaign<'_> {
    fn start(&self, job: Job, n: usize) -> Slot {
        let out = self.dir.join(format!("w{}-{}-{}", job.start, job.count, job.attempt));
        let args: Vec<String> = vec![
            "worker".into(),
            self.d.meta.id.into(),
            self.seed.to_string(),
            tier_name(self.env.tier).into(),
            job.start.to_string(),
            job.count.to_string(),
            out.display().to_string(),
            self.mode.to_string(),
            self.env.hot.to_string(),
        ];
        let child = command(&args, self.d.meta.threads.then_some(n)).stdout(Stdio::null()).spawn().expect("worker");
        let now = Instant::now();
        Slot { job, out, child, seen: IDLE, since: now, polled: now }
    }

    /// (runs, accesses to static data). One that does not end says nothing.
    fn survey(&self) -> (u64, u64) {
        let n = self.d.meta.survey;
        if n == 0 {
            return (0, 0);
        }
        let kids: Vec<_> = (0..8u64)
            .map(|i| {
                let a = ["survey".into(), self.d.meta.id.into(), self.seed.to_string(), (i * n).to_string(), n.to_string()];
                command(&a, self.d.meta.threads.then_some(i as usize)).stdout(Stdio::piped()).spawn().expect("survey")
            })
            .collect();
        let t0 = Instant::now();
        let mut sum = (0, 0);
        for mut k in kids {
            while t0.elapsed() < Duration::from_secs(60) && matches!(k.try_wait(), Ok(None)) {
                std::thread::sleep(Duration::from_millis(20));
            }
            let _ = k.kill();
            let mut o = String::new();
            let _ = k.stdout.take().unwrap().read_to_string(&mut o);
            let _ = k.wait();
            if let Ok(k) = o.trim().parse::<u64>() {
                sum = (sum.0 + n, sum.1 + k);
            }
        }
        sum
    }

    fn progress(out: &Path) -> u64 {
        let mut b = [0; 8];
        match File::open(out.with_extension("prog")).and_then(|f| f.read_exact_at(&mut b, 0)) {
            Ok(()) => u64::from_le_bytes(b),
            Err(_) => IDLE,
        }
    }

    /// Runs the jobs; stops early at a violation, the one of the lowest run number.
    fn run(&self, mut jobs: std::collections::VecDeque<Job>, t: &mut Totals) -> End {
        let procs = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(1).clamp(1, 8);
        let mut slots: Vec<Option<Slot>> = (0..procs).map(|_| None).collect();
        let mut found: Option<Found> = None;
        let better = |found: &Option<Found>, run: u64| found.as_ref().map_or(true, |f| run < f.run);
        loop {
            let mut busy = false;
            for (n, s) in slots.iter_mut().enumerate() {
                if s.is_none() {
                    if let Some(j) = jobs.pop_front() {
                        if !better(&found, j.start) || Instant::now() > self.deadline {
                            jobs.clear();
                            continue;
                        }
                        *s = Some(self.start(j, n));
                    } else {
                        continue;
                    }
                }
                busy = true;
                let w = s.as_mut().unwrap();
                if !better(&found, w.job.start) {
                    let _ = w.child.kill();
                    let _ = w.child.wait();
                    self.discard(&w.out);
                    *s = None;
                    continue;
                }
                let trouble = match w.child.try_wait().expect("wait") {
                    Some(st) if st.success() => {
                        if let Err(e) = self.collect(w, t, &mut found) {
                            return self.give_up(slots, e);
                        }
                        *s = None;
                        continue;
                    }
                    Some(st) => Some(("crash", say_exit(st))),
                    None => {
                        if w.polled.elapsed() > Duration::from_millis(500) {
                            w.polled = Instant::now();
                            let p = Self::progress(&w.out);
                            if p != w.seen {
                                w.seen = p;
                                w.since = Instant::now();
                            }
                        }
                        (w.since.elapsed() > self.stall).then(|| ("hang", format!("no progress for {} s", self.stall.as_secs())))
                    }
                };
                let Some((class, detail)) = trouble else { continue };
                let run = Self::progress(&w.out);
                let _ = w.child.kill();
                let _ = w.child.wait();
                let job = w.job;
                self.discard(&w.out);
                *s = None;
                if run != IDLE && (job.start..job.start + job.count).contains(&run) {
                    if better(&found, run) {
                        found = Some(Found { run, start: job.start, class: class.into(), detail });
                    }
                } else if job.attempt == 0 {
                    // Outside any run: not the library's doing.
                    t.retried += 1;
                    jobs.push_front(Job { attempt: 1, ..job });
                } else {
                    return self.give_up(slots, format!("worker at {}: {class}: {detail}", job.start));
                }
            }
            if !busy && jobs.is_empty() {
                return match found {
                    Some(f) => End::Found(f),
                    None => End::Clean,
                };
            }
            std::thread::sleep(Duration::from_millis(3));
        }
    }

    fn give_up(&self, slots: Vec<Option<Slot>>, e: String) -> End {
        for mut s in slots.into_iter().flatten() {
            let _ = s.child.kill();
            let _ = s.child.wait();
        }
        End::Error(e)
    }

    fn discard(&self, out: &Path) {
        for e in ["prog", "rec", "st", "json"] {
            let _ = fs::remove_file(out.with_extension(e));
        }
    }

    fn collect(&self, w: &Slot, t: &mut Totals, found: &mut Option<Found>) -> Result<(), String> {
        let j: Value = fs::read(w.out.with_extension("json"))
            .ok()
            .and_then(|b| serde_json::from_slice(&b).ok())
            .ok_or("worker left no summary")?;
        let recs = fs::read(w.out.with_extension("rec")).map_err(|e| e.to_string())?;
        for s in fs::read(w.out.with_extension("st")).map_err(|e| e.to_string())?.chunks_exact(8) {
            if t.states.len() < SET_CAP {
                t.states.insert(u64::from_le_bytes(s.try_into().unwrap()));
            }
        }
        t.states_capped |= j["states_capped"] == true || t.states.len() >= SET_CAP;
        t.recs.push((w.job.start, recs));
        add(&mut t.faults, &j["faults"]);
        add(&mut t.probes, &j["probes"]);
        t.checks += j["checks"].as_u64().unwrap_or(0);
        t.ops += j["ops"].as_u64().unwrap_or(0);
        t.sim_ms += j["sim_ms"].as_u64().unwrap_or(0);
        self.discard(&w.out);
        let v = &j["violation"];
        if let Some(run) = v["run"].as_u64() {
            if found.as_ref().map_or(true, |f| run < f.run) {
                *found = Some(Found {
                    run,
                    start: w.job.start,
                    class: v["class"].as_str().unwrap_or("?").into(),
                    detail: v["detail"].as_str().unwrap_or("").into(),
                });
            }
        }
        Ok(())
    }

    /// Executes plans alone in a fresh process: the violation seen, if any.
    fn fresh(&self, plans: &[Value], limit: Duration) -> Option<(String, String, String, usize)> {
        let f = self.dir.join("candidate.json");
        let doc = json!({"property": self.d.meta.id, "plans": plans, "mode": self.mode});
        fs::write(&f, doc.to_string()).expect("candidate");
        // To a file: a pipe nobody reads yet would stop a child with much to say.
        let to = self.dir.join("candidate.out");
        let out = File::create(&to).expect("candidate output");
        let mut ch = command(&["exec".into(), f.display().to_string()], self.d.meta.threads.then_some(0)).stdout(out).spawn().expect("exec");
        let t0 = Instant::now();
        let st = loop {
            match ch.try_wait().expect("wait") {
                Some(st) => break st,
                None if t0.elapsed() > limit => {
                    let _ = ch.kill();
                    let _ = ch.wait();
                    let d = format!("did not end within {} s", limit.as_secs());
                    return Some(("hang".into(), d, String::new(), plans.len() - 1));
                }
                None => std::thread::sleep(Duration::from_micros(if t0.elapsed().as_millis() < 50 { 200 } else { 5000 })),
            }
        };
        let o = fs::read_to_string(&to).unwrap_or_default();
        match st.code() {
            Some(0) | Some(2) => None,
            Some(1) => {
                let v: Value = serde_json::from_str(o.trim()).ok()?;
                let s = |k: &str| v[k].as_str().unwrap_or("").to_string();
                Some((s("class"), s("detail"), s("trace"), v["at"].as_u64().unwrap_or(0) as usize))
            }
            _ => Some(("crash".into(), say_exit(st), String::new(), plans.len() - 1)),
        }
    }
}

struct Report {
    plans: Vec<Value>,
    class: String,
    detail: String,
    trace: String,
    tried: u64,
    exact: bool,
}

impl Campaign<'_> {
    /// Reproduces and minimises. None: could not be reproduced at all.
    fn minimise(&self, f: &Found) -> Option<Report> {
        let plan = |r: u64| (self.d.plan)(self.seed, self.env, r);
        let limit = Duration::from_secs(40);
        let late = || Instant::now() > self.until;
        let same = |r: &Option<(String, String, String, usize)>| r.as_ref().is_some_and(|r| r.0 == f.class);
        // Alone, then with as much of the history before it as it takes.
        let mut plans = vec![plan(f.run)];
        let mut seen = self.fresh(&plans, limit);
        let mut back = 1;
        while !same(&seen) && f.run >= f.start + back && !late() {
            let from = (f.run - back).max(f.start);
            plans = (from..=f.run).map(plan).collect();
            seen = self.fresh(&plans, limit);
            back = if from == f.start { u64::MAX - f.run } else { back * 8 };
            if from == f.start {
                break;
            }
        }
        let mut exact = true;
        if !same(&seen) {
            // Perhaps it does not happen every time.
            exact = false;
            for _ in 0..20 {
                if late() {
                    break;
                }
                seen = self.fresh(&plans, limit);
                if same(&seen) {
                    break;
                }
            }
        }
        let mut seen = seen.filter(|s| s.0 == f.class)?;
        plans.truncate(seen.3 + 1);
        let hang = f.class == "hang";
        let (budget, limit) = if hang {
            (Duration::from_secs(60), Duration::from_secs(4))
        } else {
            (Duration::from_secs(40), Duration::from_secs(20))
        };
        let budget = budget.min(self.until.saturating_duration_since(Instant::now()));
        let tries = if exact { 1 } else { 6 };
        let (small, tried) = shrink(Value::Array(plans.clone()), budget, &mut |v| {
            let Some(p) = v.as_array() else { return false };
            !p.is_empty() && (0..tries).any(|_| self.fresh(p, limit).is_some_and(|r| r.0 == f.class))
        });
        let mut small = small.as_array().cloned().unwrap_or_default();
        // The minimised file must fail the same way, three times over.
        let fin: Vec<_> = (0..3).map(|_| self.fresh(&small, if hang { Duration::from_secs(20) } else { limit })).collect();
        if fin.iter().all(same) {
            exact &= fin.iter().all(|r| r.as_ref().unwrap().2 == fin[0].as_ref().unwrap().2);
            seen = fin[0].clone().unwrap();
            small.truncate(seen.3 + 1);
        } else {
            exact = false;
            small = plans;
        }
        Some(Report { plans: small, class: seen.0, detail: seen.1, trace: seen.2, tried, exact })
    }
}

fn verif() -> PathBuf {
    // sim/target/release/langtag-sim -> the directory the check was started in.
    std::env::var("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|_| std::env::current_dir().expect("cwd"))
}

pub fn run(prop: &str) -> i32 {
    let t0 = Instant::now();
    let d = find(prop);
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = env_tier();
    println!("property {prop}: VERIF_SEED={seed} tier={}", tier_name(tier));
    let dir = Scratch(std::env::temp_dir().join(format!("langtag-sim-{prop}-{}", std::process::id())));
    fs::create_dir_all(&dir.0).expect("scratch");
    let total = std::env::var("SIM_RUNS").ok().and_then(|s| s.parse().ok()).unwrap_or(match tier {
        Tier::Quick => d.meta.quick,
        Tier::Thorough => d.meta.thorough,
    });
    let wall = Duration::from_secs(match tier {
        Tier::Quick => 420,
        Tier::Thorough => 4 * 3600,
    });
    let mut k = Campaign {
        d: &d,
        seed,
        env: Env { tier, hot: false },
        dir: &dir.0,
        mode: 0,
        stall: Duration::from_secs(25),
        deadline: t0 + wall,
        until: t0 + wall + Duration::from_secs(260),
    };
    let jobs = |from: u64, to: u64, size: u64| {
        let mut v = std::collections::VecDeque::new();
        let mut a = from;
        while a < to {
            v.push_back(Job { start: a, count: size.min(to - a), attempt: 0 });
            a += size;
        }
        v
    };
    let mut t = Totals::default();
    let mut notes = vec![];
    let surveyed = k.survey();
    k.env.hot = surveyed.1 > 0;
    if k.env.hot {
        notes.push(format!("the library touches writable static data ({} times in the survey): preemptions aimed there", surveyed.1));
    }
    let mut end = k.run(jobs(0, total, d.meta.batch), &mut t);

    // The cheap way to interrupt a call is to run the other one on top of it,
    // on its thread; no caller can do that, so a library that keeps state per
    // thread, or takes a lock, may not be blamed for what follows.
    if let End::Found(f) = &end {
        if d.meta.nests && f.class != "harness" {
            notes.push(format!("repeated with interrupting calls on another thread, after {} in run {}", f.class, f.run));
            k.mode = 1;
            t = Totals::default();
            end = k.run(jobs(0, total, d.meta.batch), &mut t);
        }
    }
    // A stall with threads may be ours: a thread preempted inside a call that
    // holds a real lock blocks the others for good. Preempting only between
    // calls tells.
    if let End::Found(f) = &end {
        if f.class == "hang" && (d.meta.threads || d.meta.nests) {
            notes.push("a run stalled under preemption inside library calls; the campaign was repeated preempting between calls only".to_string());
            k.mode = 2;
            t = Totals::default();
            end = k.run(jobs(0, total, d.meta.batch), &mut t);
        }
    }
    let search = t0.elapsed().as_secs_f64();

    let mut violations = 0;
    let mut code = 0;
    match end {
        End::Error(e) => {
            eprintln!("no verdict: {e}");
            return 2;
        }
        End::Clean => {}
        End::Found(f) if f.class == "harness" => {
            eprintln!("no verdict: the harness itself failed in run {}: {}", f.run, f.detail);
            return 2;
        }
        End::Found(f) => {
            println!("run {} failed: {}: {}", f.run, f.class, f.detail);
            let rep = k.minimise(&f);
            if rep.is_none() && matches!(f.class.as_str(), "hang" | "crash") {
                // A worker stalled or died and nothing reproduces it: an
                // overloaded machine, not a verdict on the library.
                eprintln!("no verdict: {} in run {} did not come back when repeated", f.class, f.run);
                return 2;
            }
            let rep = rep.unwrap_or_else(|| Report {
                plans: vec![(d.plan)(seed, k.env, f.run)],
                class: f.class.clone(),
                detail: f.detail.clone(),
                trace: String::new(),
                tried: 0,
                exact: false,
            });
            let base = verif().join("replays");
            fs::create_dir_all(&base).expect("replays");
            let path = base.join(format!("{prop}-seed{seed}-run{}.json", f.run));
            let doc = json!({
                "property": prop, "seed": seed, "tier": tier_name(tier), "run": f.run, "class": rep.class,
                "detail": rep.detail, "trace": rep.trace, "mode": k.mode, "hot": k.env.hot,
                "shrink_steps": rep.tried, "replays_exactly": rep.exact,
                "original": {"class": f.class, "detail": f.detail},
                "plans": rep.plans,
                "how_to": "sim/target/release/langtag-sim replay <this file>",
            });
            fs::write(&path, serde_json::to_string_pretty(&doc).unwrap()).expect("replay file");
            println!("minimised in {} steps to {} plan(s): {}: {}", rep.tried, rep.plans.len(), rep.class, rep.detail);
            if !rep.exact {
                println!("note: the failure does not replay identically every time; the code under test is itself not deterministic");
            }
            println!("VIOLATION property={prop} replay={}", path.display());
            violations = 1;
            code = 1;
        }
    }

    // Determinism: repeat a sample from other process boundaries and at
    // another degree of parallelism, and compare event logs.
    t.recs.sort_by_key(|r| r.0);
    let mut sampled = 0u64;
    let mut differ = 0u64;
    if code == 0 {
        let size = (d.meta.batch / 3).max(7);
        let want = (total / 50).max(size.min(total));
        let mut again = Totals::default();
        let mut js = std::collections::VecDeque::new();
        let n = want.div_ceil(size);
        for i in 0..n {
            let start = (total.saturating_sub(size)).min(mix(seed ^ mix(i)) % total.max(1));
            let j = Job { start, count: size.min(total - start), attempt: 2 + (i % 200) as u8 };
            js.push_back(j);
        }
        match k.run(js, &mut again) {
            End::Clean => {
                let rec = |run: u64| {
                    let i = t.recs.partition_point(|r| r.0 <= run).checked_sub(1)?;
                    let (s, b) = &t.recs[i];
                    b.get((run - s) as usize * REC..)?.get(..REC)
                };
                for (s, b) in &again.recs {
                    for (i, r) in b.chunks_exact(REC).enumerate() {
                        if let Some(a) = rec(s + i as u64) {
                            sampled += 1;
                            differ += (a != r) as u64;
                        }
                    }
                }
            }
            End::Found(f) => notes.push(format!("run {} failed only when repeated from another process boundary: {}: {}", f.run, f.class, f.detail)),
            End::Error(e) => notes.push(format!("determinism sample: {e}")),
        }
        if differ > 0 {
            notes.push(format!("{differ} of {sampled} repeated runs left another event log"));
        }
    }
    for n in &notes {
        println!("note: {n}");
    }

    let (mut traces, mut scheds) = (Set64::default(), Set64::default());
    let mut runs = 0u64;
    let mut nontrivial = 0u64;
    for (_, b) in &t.recs {
        for r in b.chunks_exact(REC) {
            runs += 1;
            let tr = u64::from_le_bytes(r[..8].try_into().unwrap());
            let sc = u64::from_le_bytes(r[8..16].try_into().unwrap());
            if r[16] != 0 {
                nontrivial += 1;
                traces.insert(mix(tr));
            }
            if d.meta.threads {
                scheds.insert(mix(sc));
            }
        }
    }
    let samples: Vec<Value> = [0, 1, total / 2].iter().map(|r| json!({"run": r, "plan": (d.plan)(seed, k.env, *r)})).collect();
    let per_hour = |n: f64| (n / search.max(0.001) * 3600.0) as u64;
    let mut cov = Map::new();
    for (key, v) in [
        ("evaluations", json!(runs)),
        ("distinct_nontrivial", json!(traces.len())),
        ("rule", json!(d.meta.rule)),
        ("samples", json!(samples)),
        ("nontrivial_runs", json!(nontrivial)),
        ("seeds", json!(format!("VERIF_SEED={seed}, run numbers 0..{runs}; each run has its own seed derived from both"))),
        ("runs_per_hour", json!(per_hour(runs as f64))),
        ("library_operations", json!(t.ops)),
        ("oracle_comparisons", json!(t.checks)),
        ("simulated_time_covered", json!({
            "amount": t.sim_ms,
            "unit": "simulated ticks: one per message, disk operation, step or thread switch; nothing waits on a real clock",
        })),
        ("faults_injected", json!(t.faults)),
        ("probes", json!(t.probes)),
        ("distinct_states", json!(t.states.len())),
        ("distinct_states_measure", json!(d.meta.states)),
        ("distinct_states_capped", json!(t.states_capped)),
        ("distinct_interleavings", json!(if d.meta.threads { scheds.len() } else { traces.len() })),
        ("distinct_interleavings_measure", json!(d.meta.interleavings)),
        ("real_components", json!(d.meta.real)),
        ("stubbed_components", json!(d.meta.stub)),
        ("determinism_sample", json!({
            "runs_repeated_from_other_process_boundaries": sampled, "event_logs_that_differed": differ,
        })),
        ("workers_restarted", json!(t.retried)),
        ("runs_surveyed_for_access_to_static_data", json!(surveyed.0)),
        ("accesses_to_static_data_surveyed", json!(surveyed.1)),
        ("preempted_between_calls_only", json!(k.mode == 2)),
        ("search_s", json!(search)),
        ("notes", json!(notes)),
    ] {
        cov.insert(key.into(), v);
    }
    let ev = json!({
        "property": prop, "tier": tier_name(tier), "seed": seed, "level": "exploration", "coverage": cov,
        "assumptions": d.meta.assumptions, "wall_s": t0.elapsed().as_secs_f64(), "violations": violations,
    });
    let evd = verif().join("evidence");
    fs::create_dir_all(&evd).expect("evidence");
    fs::write(evd.join(format!("{prop}.json")), serde_json::to_string_pretty(&ev).unwrap()).expect("evidence");
    println!(
        "{prop}: {runs} runs ({} distinct non-trivial), {} library operations, {} comparisons, {} states, {} of {sampled} repeated runs differed, {:.1} s",
        traces.len(), t.ops, t.checks, t.states.len(), differ, t0.elapsed().as_secs_f64()
    );
    println!("faults: {}", json!(t.faults));
    println!("probes: {}", json!(t.probes));
    if code == 0 {
        println!("{prop}: held on everything explored");
    }
    code
}
