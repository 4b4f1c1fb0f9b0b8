//! A small deterministic property-based-testing engine.
//!
//! * Every generator draws from a *choice tape* ([`Src`]); a case is a pure function of its tape.
//! * Case `i` of sub-check `s` of property `p` gets a PRNG seeded from (VERIF_SEED, p, s, i).
//! * A failing tape is shrunk (chunk deletion, value minimisation) and stored as the replay file.
//! * Panics raised by the code under test are failures. A panic inside an oracle is one too: the oracles
//!   are total on well-formed results, so it means that the result they were given is malformed.
//! * `run` supervises a child process: a case that kills the process (stack overflow, memory
//!   exhaustion) or burns more CPU time than the limit is a failure, replayed by its seed and index.
use serde_json::{Value, json};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- choice tape
#[derive(Clone)]
struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
}
pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}
pub fn hash_tape(t: &[u64]) -> u64 {
    let mut h = 0x9ae16a3b2f90404fu64;
    for v in t {
        h = (h ^ v).wrapping_mul(0x9E3779B97F4A7C15).rotate_left(29);
    }
    h
}

const MAX_REPLAYED: usize = 1 << 22;
/// Thrown when a replayed tape has been extended beyond any case's size: the tape is no case.
struct Exhausted;

/// Source of choices: replays a recorded tape, then (if random) extends it.
pub struct Src {
    tape: Vec<u64>,
    pos: usize,
    rng: Option<Rng>,
}
impl Src {
    pub fn random(seed: u64) -> Self {
        let mut r = Rng(seed);
        r.next();
        Src { tape: vec![], pos: 0, rng: Some(r) }
    }
    pub fn replay(tape: &[u64]) -> Self {
        Src { tape: tape.to_vec(), pos: 0, rng: None }
    }
    /// The tape actually consumed.
    pub fn used(&self) -> &[u64] {
        &self.tape[..self.pos.min(self.tape.len())]
    }
    /// A value below `n` (n = 0 means the full u64 range).
    pub fn below(&mut self, n: u64) -> u64 {
        let v = if self.pos < self.tape.len() {
            let v = self.tape[self.pos];
            if n == 0 { v } else { v % n }
        } else if let Some(r) = &mut self.rng {
            let v = r.next();
            let v = if n == 0 { v } else { ((v as u128 * n as u128) >> 64) as u64 };
            self.tape.push(v);
            v
        } else {
            // a shrunk tape can starve a generator that draws until it is content
            if self.pos >= MAX_REPLAYED {
                std::panic::resume_unwind(Box::new(Exhausted));
            }
            self.tape.push(0);
            0
        };
        // store the reduced value so that shrinking works on what was really chosen
        self.tape[self.pos] = v;
        self.pos += 1;
        v
    }
    /// Inclusive range; shrinks towards `lo`.
    pub fn int(&mut self, lo: i64, hi: i64) -> i64 {
        debug_assert!(lo <= hi);
        lo + self.below((hi - lo) as u64 + 1) as i64
    }
    pub fn usize(&mut self, lo: usize, hi: usize) -> usize {
        self.int(lo as i64, hi as i64) as usize
    }
    /// Inclusive range, biased towards small values (about half of the draws in the low eighth).
    pub fn small(&mut self, lo: i64, hi: i64) -> i64 {
        let n = hi - lo;
        match self.below(4) {
            0 | 1 => lo + self.below((n / 8) as u64 + 1) as i64,
            2 => lo + self.below((n / 2) as u64 + 1) as i64,
            _ => lo + self.below(n as u64 + 1) as i64,
        }
    }
    /// True with probability num/den; shrinks towards false.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len() as u64) as usize]
    }
    /// Index chosen with the given weights; shrinks towards index 0.
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let total: u64 = w.iter().sum();
        let mut v = self.below(total);
        for (i, x) in w.iter().enumerate() {
            if v < *x {
                return i;
            }
            v -= x;
        }
        unreachable!()
    }
    /// A float in [lo, hi] on a grid of 2^20 steps; shrinks towards lo.
    pub fn f32(&mut self, lo: f32, hi: f32) -> f32 {
        let t = self.below((1 << 20) + 1) as f64 / (1u64 << 20) as f64;
        (lo as f64 + (hi as f64 - lo as f64) * t) as f32
    }
    /// Multiples of `step` in [lo*step, hi*step].
    pub fn grid(&mut self, lo: i64, hi: i64, step: f32) -> f32 {
        self.int(lo, hi) as f32 * step
    }
    pub fn u64(&mut self) -> u64 {
        self.below(0)
    }
    pub fn u32(&mut self) -> u32 {
        self.below(1 << 32) as u32
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            // shrinks towards the identity
            let j = i - self.below(i as u64 + 1) as usize;
            xs.swap(i, j);
        }
    }
}

// ---------------------------------------------------------------- results
#[derive(Debug, Clone)]
pub struct Fail {
    /// Stable identification of what fails (for the known-findings file).
    pub sig: String,
    pub msg: String,
}
impl Fail {
    pub fn new(sig: &str, msg: impl Into<String>) -> Self {
        Fail { sig: sig.into(), msg: msg.into() }
    }
}
pub type Res = Result<(), Fail>;

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $sig:expr, $($arg:tt)*) => {
        if !($cond) { return Err($crate::Fail::new($sig, format!($($arg)*))); }
    };
}

/// Per-case context: classification, non-triviality, description.
#[derive(Default)]
pub struct Ctx {
    pub nontrivial: bool,
    pub thorough: bool,
    labels: Vec<(&'static str, u64)>,
    want_desc: bool,
    desc: String,
}
impl Ctx {
    pub fn label(&mut self, l: &'static str) {
        self.labels.push((l, 1));
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.label(l)
        }
    }
    pub fn count(&mut self, l: &'static str, n: u64) {
        if n > 0 {
            self.labels.push((l, n));
        }
    }
    /// Marks the case non-trivial when `c`.
    pub fn nontrivial_if(&mut self, c: bool) {
        self.nontrivial |= c;
    }
    pub fn describe(&mut self, f: impl FnOnce() -> String) {
        if self.want_desc {
            let s = f();
            if !self.desc.is_empty() {
                self.desc.push_str(" | ");
            }
            self.desc.push_str(&s);
        }
    }
}

pub struct Sub {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub f: fn(&mut Src, &mut Ctx) -> Res,
}
pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub subs: Vec<Sub>,
}

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}
/// Source-path prefixes that belong to the harness itself.
fn is_harness_file(f: &str) -> bool {
    f.starts_with("src/") || f.contains("/verif/")
}

pub enum Outcome {
    Pass,
    Fail(Fail),
}

fn run_case(f: fn(&mut Src, &mut Ctx) -> Res, src: &mut Src, ctx: &mut Ctx) -> Outcome {
    LAST_PANIC.with(|p| *p.borrow_mut() = None);
    match catch_unwind(AssertUnwindSafe(|| f(src, ctx))) {
        Ok(Ok(())) => Outcome::Pass,
        Ok(Err(e)) => Outcome::Fail(e),
        Err(e) if e.is::<Exhausted>() => Outcome::Pass,
        Err(_) => {
            let (file, msg) = LAST_PANIC
                .with(|p| p.borrow_mut().take())
                .unwrap_or(("?".into(), "?".into()));
            let base = file.rsplit_once(':').map(|x| x.0).unwrap_or(&file);
            let base = base.rsplit('/').next().unwrap_or(base);
            let short = msg.chars().take(60).collect::<String>();
            if is_harness_file(&file) {
                Outcome::Fail(Fail::new(
                    &format!("oracle:{base}:{short}"),
                    format!("the oracle could not process the result (malformed output): {msg} at {file}"),
                ))
            } else {
                Outcome::Fail(Fail::new(
                    &format!("panic:{base}:{short}"),
                    format!("the code under test panicked: {msg} at {file}"),
                ))
            }
        }
    }
}

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        LAST_PANIC.with(|p| {
            let mut p = p.borrow_mut();
            // keep the first panic of the case (later ones may be consequences)
            if p.is_none() {
                *p = Some((loc, msg));
            }
        });
    }));
}

// ---------------------------------------------------------------- runner
#[derive(Default)]
struct Acc {
    evaluations: u64,
    nontrivial: u64,
    distinct: HashSet<u64>,
    labels: BTreeMap<String, u64>,
    samples: Vec<(u64, Value)>,
    known: BTreeMap<String, (u64, String)>,
}

struct Known {
    sig: String,
    what: String,
}

fn load_known(root: &str, id: &str) -> Vec<Known> {
    let p = format!("{root}/known_findings.json");
    let Ok(s) = std::fs::read_to_string(&p) else { return vec![] };
    let v: Value = serde_json::from_str(&s).expect("known_findings.json must be valid JSON");
    v["findings"]
        .as_array()
        .map(|a| {
            a.iter()
                .filter(|e| e["property"] == id)
                .map(|e| Known {
                    sig: e["signature"].as_str().unwrap_or("").into(),
                    what: e["what"].as_str().unwrap_or("").into(),
                })
                .collect()
        })
        .unwrap_or_default()
}

fn case_seed(seed: u64, id: &str, sub: &str, i: u64) -> u64 {
    let mut r = Rng(seed ^ hash_str(id).rotate_left(17) ^ hash_str(sub).rotate_left(41));
    r.next();
    let a = r.next();
    let mut r = Rng(a ^ i.wrapping_mul(0xD6E8FEB86659FD93));
    r.next()
}

/// Entry point of a harness binary.
///   <bin> run <ID>             (VERIF_SEED, VERIF_TIER, VERIF_ROOT from the environment)
///   <bin> replay <file>        re-runs one replay file, verbosely
///   <bin> list
pub fn main_with(props: Vec<Prop>) -> ! {
    install_hook();
    let args: Vec<String> = std::env::args().collect();
    let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
    match args.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for p in &props {
                for s in &p.subs {
                    println!("{} {} quick={} thorough={}", p.id, s.name, s.quick, s.thorough);
                }
            }
            std::process::exit(0)
        }
        Some("replay") => {
            let v: Value = serde_json::from_str(&std::fs::read_to_string(&args[2]).unwrap()).unwrap();
            let id = v["property"].as_str().unwrap();
            let sub = v["sub"].as_str().unwrap();
            let p = props.iter().find(|p| p.id == id).expect("unknown property");
            let s = p.subs.iter().find(|s| s.name == sub).expect("unknown sub-check");
            let mut src = match v["tape"].as_array() {
                Some(t) => Src::replay(&t.iter().map(|x| x.as_u64().unwrap()).collect::<Vec<_>>()),
                None => Src::random(case_seed(v["seed"].as_u64().unwrap(), id, sub, v["index"].as_u64().unwrap())),
            };
            let thorough = v["tier"] == "thorough";
            let mut ctx = Ctx { want_desc: true, thorough, ..Ctx::default() };
            let o = run_case(s.f, &mut src, &mut ctx);
            println!("case: {}", ctx.desc);
            match o {
                Outcome::Pass => {
                    println!("PASS");
                    std::process::exit(0)
                }
                Outcome::Fail(f) => {
                    println!("signature: {}\nmessage: {}", f.sig, f.msg);
                    println!("VIOLATION property={id} replay={}", args[2]);
                    std::process::exit(1)
                }
            }
        }
        Some("run") => {
            let id = args.get(2).cloned().unwrap_or_default();
            let Some(p) = props.iter().find(|p| p.id == id) else {
                eprintln!("unknown property {id}");
                std::process::exit(2)
            };
            let only = args.get(3).cloned();
            std::process::exit(supervise(p, &root, only))
        }
        Some("child") => {
            let p = props.iter().find(|p| p.id == args[2]).unwrap();
            let only = args.get(4).cloned();
            std::process::exit(run_prop(p, &root, only, &args[3]))
        }
        _ => {
            eprintln!("usage: run <ID> [sub] | replay <file> | list");
            std::process::exit(2)
        }
    }
}

/// Runs the property in a child process and turns a crash of that process into a failure.
fn supervise(p: &Prop, root: &str, only: Option<String>) -> i32 {
    let exe = std::env::current_exe().expect("own path");
    let journal = std::env::temp_dir().join(format!("pbt-{}-{}.journal", p.id, std::process::id()));
    let mut cmd = std::process::Command::new(&exe);
    cmd.arg("child").arg(p.id).arg(&journal);
    if let Some(o) = &only {
        cmd.arg(o);
    }
    let st = cmd.status().expect("start child");
    let entries = std::fs::read(&journal).unwrap_or_default();
    let _ = std::fs::remove_file(&journal);
    let noted = journal.with_extension("found");
    let found = std::fs::read_to_string(&noted).ok();
    let _ = std::fs::remove_file(&noted);
    if let Some(c) = st.code() {
        return c;
    }
    // killed while shrinking: the failure itself is as it was found
    if let Some(v) = found.as_deref().and_then(|f| serde_json::from_str::<Value>(f).ok()) {
        let (sub, tier) = (v["sub"].as_str().unwrap_or(""), if thorough_tier() { "thorough" } else { "quick" });
        let i = v["index"].as_u64().unwrap_or(0);
        let path = write_index_replay(root, p.id, sub, seed(), tier, i, v["message"].as_str().unwrap_or(""));
        write_crash_evidence(p, root, seed(), tier);
        println!("counterexample ({sub}): {} (not shrunk: the process was killed while shrinking it)", v["message"].as_str().unwrap_or(""));
        println!("VIOLATION property={} replay={path}", p.id);
        return 1;
    }
    // killed by a signal: find the case in flight that does it
    let seed = seed();
    let tier = if thorough_tier() { "thorough" } else { "quick" };
    for e in entries.chunks_exact(16) {
        let (s, i) = (u64::from_le_bytes(e[..8].try_into().unwrap()), u64::from_le_bytes(e[8..].try_into().unwrap()));
        if i == u64::MAX {
            continue;
        }
        let Some(sub) = p.subs.get(s as usize) else { continue };
        let path = write_index_replay(root, p.id, sub.name, seed, tier, i, "the process was killed while running this case");
        let r = std::process::Command::new(&exe).arg("replay").arg(&path).stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null()).status();
        if r.is_ok_and(|r| r.code().is_none()) {
            write_crash_evidence(p, root, seed, tier);
            println!("counterexample ({}): case {i} of seed {seed} kills the process (stack or memory exhaustion)", sub.name);
            println!("VIOLATION property={} replay={path}", p.id);
            return 1;
        }
        let _ = std::fs::remove_file(&path);
    }
    println!("INCONCLUSIVE property={}: the process was killed and no single case reproduces it", p.id);
    3
}

fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}
fn thorough_tier() -> bool {
    std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false)
}
fn write_index_replay(root: &str, id: &str, sub: &str, seed: u64, tier: &str, i: u64, why: &str) -> String {
    let _ = std::fs::create_dir_all(format!("{root}/replays"));
    let path = format!("{root}/replays/{id}-{sub}-seed{seed}-case{i}.json");
    let v = json!({"property": id, "sub": sub, "seed": seed, "tier": tier, "index": i, "message": why});
    std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap()).expect("write replay");
    path
}
fn write_crash_evidence(p: &Prop, root: &str, seed: u64, tier: &str) {
    let _ = std::fs::create_dir_all(format!("{root}/evidence"));
    let ev = json!({
        "property": p.id, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": p.rule, "samples": [{"case": "see the replay file"}]},
        "assumptions": p.assumptions, "wall_s": 0.0, "violations": 1,
    });
    let _ = std::fs::write(format!("{root}/evidence/{}.json", p.id), serde_json::to_string_pretty(&ev).unwrap());
}
/// CPU time of one of our threads in milliseconds.
fn thread_cpu_ms(tid: u64) -> Option<u64> {
    let s = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).ok()?;
    let rest = &s[s.rfind(')')? + 2..];
    let f: Vec<&str> = rest.split(' ').collect();
    Some((f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?) * 10)
}
fn own_tid() -> u64 {
    std::fs::read_link("/proc/thread-self")
        .ok()
        .and_then(|p| p.file_name().and_then(|f| f.to_str()?.parse().ok()))
        .unwrap_or(0)
}

/// Shrinks in a helper thread, so that a candidate that never returns cannot block the report.
fn shrink(f: fn(&mut Src, &mut Ctx) -> Res, tape: Vec<u64>, first: Fail, known: &[Known], thorough: bool) -> (Vec<u64>, Fail, u64) {
    let best = std::sync::Arc::new(Mutex::new((tape.clone(), first.clone())));
    let (b2, known) = (best.clone(), known.iter().map(|k| k.sig.clone()).collect::<Vec<_>>());
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            let n = shrink_inner(f, tape, first, &known, thorough, &b2);
            let _ = tx.send(n);
        })
        .unwrap();
    let n = rx.recv_timeout(Duration::from_secs(55)).unwrap_or(0);
    let b = best.lock().unwrap().clone();
    (b.0, b.1, n)
}

fn shrink_inner(
    f: fn(&mut Src, &mut Ctx) -> Res,
    tape: Vec<u64>,
    first: Fail,
    known: &[String],
    thorough: bool,
    report: &Mutex<(Vec<u64>, Fail)>,
) -> u64 {
    let t0 = Instant::now();
    let budget = Duration::from_secs(40);
    let attempts = std::cell::Cell::new(0u64);
    let mut best = tape;
    let mut best_fail = first;
    let is_known = |s: &str| known.iter().any(|k| k == s);
    let try_tape = |t: &[u64]| -> Option<(Vec<u64>, Fail)> {
        attempts.set(attempts.get() + 1);
        let mut src = Src::replay(t);
        let mut ctx = Ctx { thorough, ..Ctx::default() };
        match run_case(f, &mut src, &mut ctx) {
            Outcome::Fail(x) if !is_known(&x.sig) => {
                let mut used = src.used().to_vec();
                while used.last() == Some(&0) {
                    used.pop();
                }
                Some((used, x))
            }
            _ => None,
        }
    };
    let simpler = |a: &[u64], b: &[u64]| a.len() < b.len() || (a.len() == b.len() && a < b);
    let over = || t0.elapsed() > budget || attempts.get() > 20_000;
    loop {
        let before = best.clone();
        // delete chunks
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i + size <= best.len() && !over() {
                let mut t = best.clone();
                t.drain(i..i + size);
                if let Some((u, x)) = try_tape(&t) {
                    if simpler(&u, &best) {
                        best = u;
                        best_fail = x;
                        continue;
                    }
                }
                i += size;
            }
            if size == 1 || over() {
                break;
            }
            size /= 2;
        }
        *report.lock().unwrap() = (best.clone(), best_fail.clone());
        // zero chunks, then minimise single values
        let mut size = (best.len() / 4).max(1);
        loop {
            let mut i = 0;
            while i < best.len() && !over() {
                let e = (i + size).min(best.len());
                if best[i..e].iter().any(|v| *v != 0) {
                    let mut t = best.clone();
                    t[i..e].iter_mut().for_each(|v| *v = 0);
                    if let Some((u, x)) = try_tape(&t) {
                        if simpler(&u, &best) {
                            best = u;
                            best_fail = x;
                        }
                    }
                }
                i += size;
            }
            if size == 1 || over() {
                break;
            }
            size /= 2;
        }
        let mut i = 0;
        while i < best.len() && !over() {
            let mut lo = 0u64;
            let mut hi = best[i];
            let mut steps = 0;
            while lo < hi && steps < 24 && !over() && i < best.len() {
                let mid = lo + (hi - lo) / 2;
                let mut t = best.clone();
                t[i] = mid;
                match try_tape(&t) {
                    Some((u, x)) if simpler(&u, &best) => {
                        best = u;
                        best_fail = x;
                        hi = mid;
                    }
                    _ => lo = mid + 1,
                }
                steps += 1;
            }
            i += 1;
        }
        *report.lock().unwrap() = (best.clone(), best_fail.clone());
        if best == before || over() {
            break;
        }
    }
    attempts.get()
}

fn run_prop(p: &Prop, root: &str, only: Option<String>, journal: &str) -> i32 {
    let t0 = Instant::now();
    let seed = seed();
    let thorough = thorough_tier();
    let jfile = std::fs::File::create(journal).expect("journal");
    let threads: usize = std::env::var("VERIF_THREADS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4));
    let known = load_known(root, p.id);
    let mut total = Acc::default();
    let mut per_sub = serde_json::Map::new();
    let mut violation: Option<(String, Vec<u64>, Fail, String, u64)> = None;

    for (si, sub) in p.subs.iter().enumerate() {
        if only.as_deref().is_some_and(|o| o != sub.name) {
            continue;
        }
        let ts = Instant::now();
        let n = if thorough { sub.thorough } else { sub.quick };
        let scale: f64 = std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
        let n = ((n as f64 * scale) as u64).max(1);
        let next = AtomicU64::new(0);
        let worst = AtomicU64::new(u64::MAX); // lowest failing index
        let found: Mutex<Option<(u64, Vec<u64>, Fail)>> = Mutex::new(None);
        let acc: Mutex<Acc> = Mutex::new(Acc::default());
        let done = AtomicBool::new(false);
        let live = AtomicUsize::new(threads);
        // per thread: case in flight, CPU time at its start, wall time at its start, thread id
        let slots: Vec<[AtomicU64; 4]> = (0..threads).map(|_| [u64::MAX, 0, 0, 0].map(AtomicU64::new)).collect();
        let jfile = &jfile;
        std::thread::scope(|sc| {
            for t in 0..threads {
                let (next, worst, found, acc, slots, live, done, known) =
                    (&next, &worst, &found, &acc, &slots, &live, &done, &known);
                let body = move || {
                    let mut a = Acc::default();
                    let tid = own_tid();
                    slots[t][3].store(tid, Ordering::SeqCst);
                    let note = |i: u64| {
                        use std::os::unix::fs::FileExt;
                        let mut b = [0u8; 16];
                        b[..8].copy_from_slice(&(si as u64).to_le_bytes());
                        b[8..].copy_from_slice(&i.to_le_bytes());
                        let _ = jfile.write_at(&b, 16 * t as u64);
                    };
                    loop {
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        if i >= n || i > worst.load(Ordering::SeqCst) {
                            break;
                        }
                        note(i);
                        slots[t][1].store(u64::MAX, Ordering::SeqCst);
                        slots[t][2].store(t0.elapsed().as_millis() as u64, Ordering::SeqCst);
                        slots[t][0].store(i, Ordering::SeqCst);
                        let mut src = Src::random(case_seed(seed, p.id, sub.name, i));
                        let mut ctx = Ctx { want_desc: i < 4, thorough, ..Ctx::default() };
                        let o = run_case(sub.f, &mut src, &mut ctx);
                        slots[t][0].store(u64::MAX, Ordering::SeqCst);
                        a.evaluations += 1;
                        for (l, k) in ctx.labels {
                            *a.labels.entry(l.to_string()).or_default() += k;
                        }
                        if ctx.nontrivial {
                            a.nontrivial += 1;
                            a.distinct.insert(hash_tape(src.used()) ^ hash_str(sub.name));
                        }
                        if i < 4 {
                            let mut d = ctx.desc;
                            if d.len() > 600 {
                                let mut e = 600;
                                while !d.is_char_boundary(e) {
                                    e -= 1;
                                }
                                d.truncate(e);
                                d.push_str("...");
                            }
                            a.samples.push((i, json!({"sub": sub.name, "index": i, "nontrivial": ctx.nontrivial, "choices": src.used().len(), "case": d})));
                        }
                        match o {
                            Outcome::Pass => {}
                            Outcome::Fail(fl) => {
                                if let Some(k) = known.iter().find(|k| k.sig == fl.sig) {
                                    let e = a.known.entry(k.sig.clone()).or_insert((0, k.what.clone()));
                                    e.0 += 1;
                                } else {
                                    worst.fetch_min(i, Ordering::SeqCst);
                                    let mut f = found.lock().unwrap();
                                    if f.as_ref().is_none_or(|x| i < x.0) {
                                        *f = Some((i, src.used().to_vec(), fl));
                                    }
                                }
                            }
                        }
                    }
                    note(u64::MAX);
                    let mut g = acc.lock().unwrap();
                    g.evaluations += a.evaluations;
                    g.nontrivial += a.nontrivial;
                    g.distinct.extend(a.distinct);
                    for (k, v) in a.labels {
                        *g.labels.entry(k).or_default() += v;
                    }
                    g.samples.extend(a.samples);
                    for (k, v) in a.known {
                        let e = g.known.entry(k).or_insert((0, v.1));
                        e.0 += v.0;
                    }
                    if live.fetch_sub(1, Ordering::SeqCst) == 1 {
                        done.store(true, Ordering::SeqCst);
                    }
                };
                std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, body).unwrap();
            }
            // watchdog: cases take milliseconds; one that burns this much CPU time does not finish
            let limit_ms: u64 = std::env::var("VERIF_CASE_LIMIT_S").ok().and_then(|s| s.parse().ok()).unwrap_or(60u64) * 1000;
            let mut seen: Vec<(u64, u64)> = vec![(u64::MAX, 0); threads];
            while !done.load(Ordering::SeqCst) {
                std::thread::sleep(Duration::from_millis(10));
                let now = t0.elapsed().as_millis() as u64;
                for (t, s) in slots.iter().enumerate() {
                    let i = s[0].load(Ordering::SeqCst);
                    if i == u64::MAX || now.saturating_sub(s[2].load(Ordering::SeqCst)) < 1000 {
                        continue;
                    }
                    let Some(cpu) = thread_cpu_ms(s[3].load(Ordering::SeqCst)) else { continue };
                    if seen[t].0 != i {
                        seen[t] = (i, cpu);
                    } else if cpu.saturating_sub(seen[t].1) > limit_ms && s[0].load(Ordering::SeqCst) == i {
                        let tier = if thorough { "thorough" } else { "quick" };
                        let path = write_index_replay(root, p.id, sub.name, seed, tier, i, "the case does not finish");
                        write_crash_evidence(p, root, seed, tier);
                        println!("counterexample ({}): case {i} of seed {seed} did not finish within {} s of CPU time", sub.name, limit_ms / 1000);
                        println!("VIOLATION property={} replay={path}", p.id);
                        std::process::exit(1);
                    }
                }
            }
        });
        let a = acc.into_inner().unwrap();
        per_sub.insert(
            sub.name.into(),
            json!({"evaluations": a.evaluations, "nontrivial": a.nontrivial, "distinct_nontrivial": a.distinct.len(), "seconds": (ts.elapsed().as_secs_f64()*100.0).round()/100.0, "labels": a.labels}),
        );
        total.evaluations += a.evaluations;
        total.nontrivial += a.nontrivial;
        total.distinct.extend(a.distinct);
        let mut s = a.samples;
        s.sort_by_key(|x| x.0);
        total.samples.extend(s);
        for (k, v) in a.known {
            let e = total.known.entry(k).or_insert((0, v.1));
            e.0 += v.0;
        }
        if let Some((i, tape, fl)) = found.into_inner().unwrap() {
            let note = json!({"sub": sub.name, "index": i, "message": fl.msg}).to_string();
            let _ = std::fs::write(std::path::Path::new(journal).with_extension("found"), note);
            eprintln!("sub {} case {i} fails ({}), shrinking a tape of {} choices ...", sub.name, fl.msg, tape.len());
            let (t, f2, att) = shrink(sub.f, tape.clone(), fl, &known, thorough);
            let mut src = Src::replay(&t);
            let mut ctx = Ctx { want_desc: true, thorough, ..Ctx::default() };
            let _ = run_case(sub.f, &mut src, &mut ctx);
            violation = Some((sub.name.into(), t, f2, ctx.desc, att));
            break;
        }
    }

    let _ = std::fs::create_dir_all(format!("{root}/evidence"));
    let ev = json!({
        "property": p.id,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": total.evaluations,
            "distinct_nontrivial": total.distinct.len(),
            "nontrivial": total.nontrivial,
            "rule": p.rule,
            "samples": total.samples.iter().map(|x| x.1.clone()).collect::<Vec<_>>(),
            "sub_checks": per_sub,
            "known_findings_hit": total.known.iter().map(|(k, v)| json!({"signature": k, "cases": v.0})).collect::<Vec<_>>(),
        },
        "assumptions": p.assumptions,
        "wall_s": (t0.elapsed().as_secs_f64() * 100.0).round() / 100.0,
        "violations": if violation.is_some() { 1 } else { 0 },
    });
    std::fs::write(format!("{root}/evidence/{}.json", p.id), serde_json::to_string_pretty(&ev).unwrap()).expect("write evidence");
    for k in &known {
        println!("KNOWN-FINDING: property={} {}", p.id, k.what);
    }
    println!(
        "{}: {} cases, {} non-trivial ({} distinct), {:.1} s",
        p.id, total.evaluations, total.nontrivial, total.distinct.len(), t0.elapsed().as_secs_f64()
    );
    if let Some((sub, tape, fl, desc, att)) = violation {
        let _ = std::fs::create_dir_all(format!("{root}/replays"));
        let path = format!("{root}/replays/{}-{}-{:016x}.json", p.id, sub, hash_tape(&tape));
        let v = json!({"property": p.id, "sub": sub, "seed": seed, "tier": if thorough { "thorough" } else { "quick" }, "signature": fl.sig, "message": fl.msg, "case": desc, "shrink_attempts": att, "tape": tape});
        std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap()).expect("write replay");
        println!("counterexample ({sub}): {}", fl.msg);
        println!("  case: {desc}");
        println!("VIOLATION property={} replay={path}", p.id);
        return 1;
    }
    0
}
