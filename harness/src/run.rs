//! The engine: generates cases with proptest from a seed, runs them in worker
//! processes (so that a crash of the code under test is an observation and not
//! the end of the check), shrinks failures, writes replay and evidence files.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::fs;
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::os::unix::process::ExitStatusExt;
use std::panic;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};

use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// What a check tells the engine about the case besides pass/fail.
#[derive(Default)]
pub struct Ctx {
    pub nontrivial: bool,
    pub labels: Vec<String>,
    /// Known findings this case ran into (and was excluded for).
    pub known: Vec<String>,
}

impl Ctx {
    pub fn label<S: Into<String>>(&mut self, s: S) {
        let s = s.into();
        if !self.labels.contains(&s) {
            self.labels.push(s);
        }
    }
    pub fn label_if<S: Into<String>>(&mut self, c: bool, s: S) {
        if c {
            self.label(s);
        }
    }
}

pub type Res = Result<(), String>;

pub trait Prop {
    type Case: Debug + Clone + Hash + Serialize + DeserializeOwned + 'static;
    const ID: &'static str;
    const LEVEL: &'static str = "exploration";
    /// How cases are made, and what makes one non-trivial.
    const RULE: &'static str;
    const ASSUMPTIONS: &'static [&'static str] = &[];
    /// Cases in the quick tier (over all shards).
    const QUICK: u64;
    const THOROUGH_FACTOR: u64 = 20;
    fn strategy(tier: Tier) -> BoxedStrategy<Self::Case>;
    /// Cases of unusual size that each shard runs first (quick tier).
    const LARGE: u64 = 0;
    fn large(_: Tier) -> Option<BoxedStrategy<Self::Case>> {
        None
    }
    fn check(case: &Self::Case, ctx: &mut Ctx) -> Res;
}

pub const NSHARDS: u64 = 16;

/// A case that has used this much CPU time does not finish (the slowest case
/// on sound code takes a small fraction of it).
const CASE_CPU_S: u64 = 40;
const LARGE_CASE_CPU_S: u64 = 180;
static CASE_CPU: AtomicU64 = AtomicU64::new(LARGE_CASE_CPU_S);
/// Exit code of a worker whose case did not finish.
const HUNG: i32 = 77;
static CASE_START_MS: AtomicU64 = AtomicU64::new(u64::MAX);
static SHRINKING: AtomicBool = AtomicBool::new(false);

extern "C" {
    fn clock_gettime(clock: i32, ts: *mut [i64; 2]) -> i32;
}

/// CPU time used by this process, in ms.
fn cpu_ms() -> u64 {
    let mut ts = [0i64; 2];
    unsafe { clock_gettime(2, &mut ts) };
    ts[0] as u64 * 1000 + ts[1] as u64 / 1_000_000
}

/// Ends the process when the case under way takes too much CPU time.
fn watchdog() {
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(100));
        let start = CASE_START_MS.load(SeqCst);
        if start != u64::MAX && cpu_ms() > start + CASE_CPU.load(SeqCst) * 1000 && CASE_START_MS.load(SeqCst) == start {
            // While shrinking, the report of the failure is on disk already
            std::process::exit(if SHRINKING.load(SeqCst) { 0 } else { HUNG });
        }
    });
}

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = RefCell::new(None);
}

pub fn install_hook() {
    panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "(no message)".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let text = format!("panic at {}: {}", loc, msg);
        // Shown when the process is about to be aborted (non-unwinding panics)
        if !std::thread::panicking() || true {
            LAST_PANIC.with(|p| {
                if let Ok(mut p) = p.try_borrow_mut() {
                    *p = Some(text.clone());
                }
            });
        }
    }));
}

/// Runs code under test; a panic becomes an `Err` with its message.
pub fn guard<T, F: FnOnce() -> T>(f: F) -> Result<T, String> {
    match panic::catch_unwind(panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".to_string())),
    }
}

fn check_guarded<P: Prop>(case: &P::Case, ctx: &mut Ctx) -> Res {
    CASE_START_MS.store(cpu_ms(), SeqCst);
    let r = match guard(|| P::check(case, ctx)) {
        Ok(r) => r,
        Err(e) => Err(e),
    };
    CASE_START_MS.store(u64::MAX, SeqCst);
    r.map_err(|e| if e.len() > 2000 { e.chars().take(2000).collect::<String>() + "..." } else { e })
}

fn hash_of<T: Hash>(t: &T) -> u64 {
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new();
    t.hash(&mut h);
    h.finish()
}

fn runner_for<P: Prop>(seed: u64, shard: u64) -> TestRunner {
    let mut bytes = [0u8; 32];
    bytes[0..8].copy_from_slice(&seed.to_le_bytes());
    bytes[8..16].copy_from_slice(&hash_of(&P::ID).to_le_bytes());
    bytes[16..24].copy_from_slice(&shard.to_le_bytes());
    let config = Config { failure_persistence: None, ..Config::default() };
    TestRunner::new_with_rng(config, TestRng::from_seed(RngAlgorithm::ChaCha, &bytes))
}

fn cases_per_shard<P: Prop>(tier: Tier) -> u64 {
    let n = match tier {
        Tier::Quick => P::QUICK,
        Tier::Thorough => P::QUICK * P::THOROUGH_FACTOR,
    };
    (n + NSHARDS - 1) / NSHARDS
}

/// The sequence of cases of one shard.
struct Source<P: Prop> {
    runner: TestRunner,
    normal: BoxedStrategy<P::Case>,
    large: Option<BoxedStrategy<P::Case>>,
    n_large: u64,
    total: u64,
    at: u64,
}

impl<P: Prop> Source<P> {
    fn new(tier: Tier, seed: u64, shard: u64) -> Source<P> {
        let large = P::large(tier);
        let n_large = match (large.is_some(), tier) {
            (false, _) => 0,
            (true, Tier::Quick) => P::LARGE,
            (true, Tier::Thorough) => P::LARGE * 12,
        };
        Source { runner: runner_for::<P>(seed, shard), normal: P::strategy(tier), large, n_large, total: n_large + cases_per_shard::<P>(tier), at: 0 }
    }
    fn next(&mut self) -> (Box<dyn ValueTree<Value = P::Case>>, bool) {
        let big = self.at < self.n_large;
        let tree = if big { self.large.as_ref().unwrap().new_tree(&mut self.runner).unwrap() } else { self.normal.new_tree(&mut self.runner).unwrap() };
        self.at += 1;
        (tree, big)
    }
}

#[derive(Serialize, Deserialize, Default)]
struct ShardReport {
    evaluations: u64,
    nontrivial: u64,
    labels: BTreeMap<String, u64>,
    known: BTreeMap<String, u64>,
    samples: Vec<serde_json::Value>,
    failure: Option<Failure>,
    /// CPU time of the slowest case
    max_case_ms: u64,
    max_large_ms: u64,
}

#[derive(Serialize, Deserialize, Clone)]
struct Failure {
    message: String,
    original_message: String,
    shrink_steps: u64,
    case: serde_json::Value,
}

#[derive(Serialize, Deserialize)]
struct Replay {
    property: String,
    message: String,
    seed: u64,
    shard: u64,
    case_index: u64,
    case: serde_json::Value,
}

const MAX_SHRINK: u64 = 4000;

/// Minimises a failing case. `fails` says whether (and how) a candidate fails.
fn shrink<V: ValueTree, F: FnMut(&V::Value) -> Option<String>>(
    tree: &mut V, max: u64, budget: Duration, mut fails: F,
) -> (u64, Option<(V::Value, String)>)
where
    V::Value: Clone,
{
    let t0 = Instant::now();
    let mut best: Option<(V::Value, String)> = None;
    let mut steps = 0;
    if !tree.simplify() {
        return (0, None);
    }
    loop {
        steps += 1;
        let cur = tree.current();
        let again = match fails(&cur) {
            Some(m) => {
                best = Some((cur, m));
                tree.simplify()
            }
            None => tree.complicate(),
        };
        if !again || steps >= max || t0.elapsed() > budget {
            return (steps, best);
        }
    }
}

/// Worker: runs one shard, writes its report and the hashes of the distinct
/// non-trivial cases.
pub fn shard<P: Prop>(tier: Tier, seed: u64, shard_no: u64, dir: &Path) {
    let mut source: Source<P> = Source::new(tier, seed, shard_no);
    let n = source.total;
    watchdog();
    let write_report = |rep: &ShardReport, seen: &HashSet<u64>| {
        let mut buf: Vec<u8> = Vec::with_capacity(seen.len() * 8);
        for h in seen.iter() {
            buf.extend_from_slice(&h.to_le_bytes());
        }
        fs::write(dir.join(format!("{}.hashes", shard_no)), buf).unwrap();
        fs::write(dir.join(format!("{}.json", shard_no)), serde_json::to_string(rep).unwrap()).unwrap();
    };
    let mut rep = ShardReport::default();
    let mut seen: HashSet<u64> = HashSet::new();
    let progress = fs::OpenOptions::new().create(true).write(true).truncate(true)
        .open(dir.join(format!("{}.progress", shard_no))).unwrap();

    for i in 0..n {
        use std::os::unix::fs::FileExt;
        progress.write_at(&i.to_le_bytes(), 0).unwrap();
        let (mut tree, big) = source.next();
        let case = tree.current();
        let mut ctx = Ctx::default();
        ctx.label_if(big, "large");
        CASE_CPU.store(if big { LARGE_CASE_CPU_S } else { CASE_CPU_S }, SeqCst);
        let before = cpu_ms();
        let res = check_guarded::<P>(&case, &mut ctx);
        let m = if big { &mut rep.max_large_ms } else { &mut rep.max_case_ms };
        *m = (*m).max(cpu_ms() - before);
        rep.evaluations += 1;
        for l in ctx.labels.iter() {
            *rep.labels.entry(l.clone()).or_insert(0) += 1;
        }
        for k in ctx.known.iter() {
            *rep.known.entry(k.clone()).or_insert(0) += 1;
        }
        if ctx.nontrivial {
            rep.nontrivial += 1;
            if seen.insert(hash_of(&case)) && rep.samples.len() < 2 && shard_no < 4 {
                let mut text = serde_json::to_string(&case).unwrap();
                if text.len() <= 1500 {
                    rep.samples.push(serde_json::to_value(&case).unwrap());
                } else if rep.samples.is_empty() && i > 20 {
                    let mut cut = 600;
                    while !text.is_char_boundary(cut) { cut -= 1; }
                    text.truncate(cut);
                    rep.samples.push(serde_json::Value::String(text + "..."));
                }
            }
        }
        if let Err(message) = res {
            rep.failure = Some(Failure { message: message.clone(), original_message: message.clone(), shrink_steps: 0, case: serde_json::to_value(&case).unwrap() });
            write_report(&rep, &seen);
            SHRINKING.store(true, SeqCst);
            let (steps, best) = shrink(&mut tree, MAX_SHRINK, Duration::from_secs(60), |c| {
                check_guarded::<P>(c, &mut Ctx::default()).err()
            });
            let (c, m) = best.unwrap_or((case, message.clone()));
            rep.failure = Some(Failure {
                message: m,
                original_message: message,
                shrink_steps: steps,
                case: serde_json::to_value(&c).unwrap(),
            });
            break;
        }
    }

    write_report(&rep, &seen);
}

/// Runs one saved case. Exit code 1 if it fails.
pub fn replay_case<P: Prop>(v: &serde_json::Value) -> i32 {
    let case: P::Case = serde_json::from_value(v.clone()).expect("replay file does not hold a case of this property");
    if let Some(n) = std::env::var("VERIF_CASE_CPU_S").ok().and_then(|s| s.parse().ok()) {
        CASE_CPU.store(n, SeqCst);
    }
    watchdog();
    let mut ctx = Ctx::default();
    match check_guarded::<P>(&case, &mut ctx) {
        Ok(()) => {
            println!("property held");
            for k in ctx.known {
                println!("known: {}", k);
            }
            0
        }
        Err(m) => {
            println!("property violated: {}", m);
            1
        }
    }
}

enum End {
    Code(i32),
    /// Died from memory corruption, an abort, a stack overflow, or because the
    /// case needed more memory than any case of this check may
    Crash(String),
    /// The case did not finish
    Hung,
    /// Killed, timed out: says nothing about the property
    Inconclusive(String),
}

fn describe_end(status: std::process::ExitStatus, stderr: &str) -> End {
    if let Some(c) = status.code() {
        if c == HUNG {
            return End::Hung;
        }
        return End::Code(c);
    }
    let sig = status.signal().unwrap_or(0);
    let tail: String = stderr.lines().rev().take(3).collect::<Vec<_>>().into_iter().rev().collect::<Vec<_>>().join(" | ");
    if stderr.contains("memory allocation of") {
        return End::Crash(format!("needs more than {} GiB of memory: {}", crate::alloc::LIMIT >> 30, tail));
    }
    match sig {
        4 | 6 | 7 | 8 | 11 => End::Crash(format!("process died with signal {} {}", sig, tail)),
        s => End::Inconclusive(format!("killed by signal {} {}", s, tail)),
    }
}

fn run_child(args: &[String], stderr_path: &Path, cpu_s: u64) -> End {
    let timeout = Duration::from_secs(cpu_s * 3);
    let exe = std::env::current_exe().unwrap();
    let errf = fs::File::create(stderr_path).unwrap();
    let mut child = Command::new(exe).args(args).env("VERIF_CASE_CPU_S", cpu_s.to_string()).stdin(Stdio::null()).stdout(Stdio::null()).stderr(errf).spawn().unwrap();
    let t0 = Instant::now();
    loop {
        match child.try_wait().unwrap() {
            Some(st) => {
                let err = fs::read(stderr_path).map(|b| String::from_utf8_lossy(&b).into_owned()).unwrap_or_default();
                return describe_end(st, &err);
            }
            None => {
                if t0.elapsed() > timeout {
                    let _ = child.kill();
                    let _ = child.wait();
                    return End::Inconclusive("timeout".into());
                }
                std::thread::sleep(Duration::from_millis(2));
            }
        }
    }
}

fn hung_text() -> String {
    "the case does not finish".into()
}

fn write_replay<P: Prop>(root: &Path, seed: u64, shard: u64, case_index: u64, f: &Failure) -> PathBuf {
    let dir = root.join("out").join("replay");
    fs::create_dir_all(&dir).unwrap();
    let path = dir.join(format!("{}-seed{}-shard{}.json", P::ID, seed, shard));
    let r = Replay { property: P::ID.to_string(), message: f.message.clone(), seed, shard, case_index, case: f.case.clone() };
    fs::write(&path, serde_json::to_string_pretty(&r).unwrap()).unwrap();
    path
}

/// Supervisor. Returns the exit code of the check.
pub fn run<P: Prop>(root: &Path, tier: Tier, seed: u64) -> i32 {
    let t0 = Instant::now();
    let limit = match tier {
        Tier::Quick => Duration::from_secs(600),
        Tier::Thorough => Duration::from_secs(6 * 3600),
    };
    let dir = root.join("out").join("work").join(format!("{}-{}", P::ID, std::process::id()));
    let _ = fs::remove_dir_all(&dir);
    fs::create_dir_all(&dir).unwrap();
    let tier_s = if tier == Tier::Quick { "quick" } else { "thorough" };

    // Saved cases first: shrunk reproductions of earlier failures, committed
    // as regressions/<ID>/*.json.
    let mut violations: Vec<(PathBuf, String)> = vec![];
    let mut inconclusive: Vec<String> = vec![];
    let mut known: BTreeMap<String, u64> = BTreeMap::new();
    let mut n_regressions = 0u64;
    if let Ok(rd) = fs::read_dir(root.join("regressions").join(P::ID)) {
        let mut files: Vec<PathBuf> = rd.filter_map(|e| e.ok()).map(|e| e.path()).filter(|p| p.extension().map_or(false, |x| x == "json")).collect();
        files.sort();
        for f in files {
            n_regressions += 1;
            let args = vec!["replay".to_string(), f.display().to_string()];
            match run_child(&args, &dir.join("replay.err"), LARGE_CASE_CPU_S) {
                End::Code(0) => {}
                End::Code(1) => violations.push((f, "saved case fails".into())),
                End::Code(c) => inconclusive.push(format!("saved case {}: exit {}", f.display(), c)),
                End::Crash(m) => violations.push((f, m)),
                End::Hung => violations.push((f, hung_text())),
                End::Inconclusive(m) => inconclusive.push(format!("saved case {}: {}", f.display(), m)),
            }
        }
    }

    let exe = std::env::current_exe().unwrap();
    let jobs = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8);
    let mut pending: Vec<u64> = (0..NSHARDS).rev().collect();
    let mut running: Vec<(u64, Child)> = vec![];
    let mut ends: BTreeMap<u64, End> = BTreeMap::new();
    while !pending.is_empty() || !running.is_empty() {
        while running.len() < jobs && !pending.is_empty() {
            let s = pending.pop().unwrap();
            let errf = fs::File::create(dir.join(format!("{}.err", s))).unwrap();
            let child = Command::new(&exe)
                .args(&["shard", P::ID, tier_s, &seed.to_string(), &s.to_string(), dir.to_str().unwrap()])
                .stdin(Stdio::null()).stdout(Stdio::null()).stderr(errf).spawn().unwrap();
            running.push((s, child));
        }
        let mut i = 0;
        while i < running.len() {
            if let Some(st) = running[i].1.try_wait().unwrap() {
                let (s, _) = running.remove(i);
                let err = fs::read(dir.join(format!("{}.err", s))).map(|b| String::from_utf8_lossy(&b).into_owned()).unwrap_or_default();
                let end = describe_end(st, &err);
                let failed = match end {
                    End::Code(0) => fs::read_to_string(dir.join(format!("{}.json", s))).ok()
                        .and_then(|t| serde_json::from_str::<ShardReport>(&t).ok()).map_or(false, |r| r.failure.is_some()),
                    End::Hung => true,
                    _ => false,
                };
                ends.insert(s, end);
                if failed {
                    // one violation is enough
                    pending.clear();
                    for (_, mut c) in running.drain(..) {
                        let _ = c.kill();
                        let _ = c.wait();
                    }
                    break;
                }
            } else {
                i += 1;
            }
        }
        if t0.elapsed() > limit {
            for (s, mut c) in running.drain(..) {
                let _ = c.kill();
                let _ = c.wait();
                ends.insert(s, End::Inconclusive("time limit reached".into()));
            }
            for s in pending.drain(..) {
                ends.insert(s, End::Inconclusive("not started: time limit reached".into()));
            }
        }
        std::thread::sleep(Duration::from_millis(3));
    }

    let mut total = ShardReport::default();
    let mut distinct: HashSet<u64> = HashSet::new();
    for (s, end) in ends.iter() {
        match *end {
            End::Code(0) => {
                let rep: ShardReport = serde_json::from_str(&fs::read_to_string(dir.join(format!("{}.json", s))).unwrap()).unwrap();
                total.evaluations += rep.evaluations;
                total.nontrivial += rep.nontrivial;
                total.max_case_ms = total.max_case_ms.max(rep.max_case_ms);
                total.max_large_ms = total.max_large_ms.max(rep.max_large_ms);
                for (k, v) in rep.labels { *total.labels.entry(k).or_insert(0) += v; }
                for (k, v) in rep.known { *known.entry(k).or_insert(0) += v; }
                total.samples.extend(rep.samples);
                for c in fs::read(dir.join(format!("{}.hashes", s))).unwrap().chunks(8) {
                    let mut b = [0u8; 8];
                    b.copy_from_slice(c);
                    distinct.insert(u64::from_le_bytes(b));
                }
                if let Some(f) = rep.failure {
                    let path = write_replay::<P>(root, seed, *s, rep.evaluations - 1, &f);
                    violations.push((path, f.message));
                }
            }
            End::Code(c) => inconclusive.push(format!("shard {} exited with {}", s, c)),
            End::Inconclusive(ref m) => inconclusive.push(format!("shard {}: {}", s, m)),
            End::Crash(_) | End::Hung => {
                let hung = matches!(end, End::Hung);
                let m = match end { End::Crash(m) => m.clone(), _ => hung_text() };
                // The code under test took the whole process down. Regenerate
                // the case it was running, confirm, and minimise.
                let idx = fs::read(dir.join(format!("{}.progress", s))).ok().filter(|b| b.len() == 8)
                    .map(|b| { let mut a = [0u8; 8]; a.copy_from_slice(&b); u64::from_le_bytes(a) });
                let mut confirmed = None;
                if let (Some(idx), true) = (idx, violations.is_empty()) {
                    let mut source: Source<P> = Source::new(tier, seed, *s);
                    let mut tree = source.next();
                    for _ in 0..idx {
                        tree = source.next();
                    }
                    let (mut tree, big) = tree;
                    let full = if big { LARGE_CASE_CPU_S } else { CASE_CPU_S };
                    let tmp = dir.join("crash.json");
                    let fails = |c: &P::Case, cpu_s: u64| -> Option<String> {
                        let r = Replay { property: P::ID.into(), message: String::new(), seed, shard: *s, case_index: idx, case: serde_json::to_value(c).unwrap() };
                        fs::write(&tmp, serde_json::to_string(&r).unwrap()).unwrap();
                        match run_child(&vec!["replay".to_string(), tmp.display().to_string()], &dir.join("crash.err"), cpu_s) {
                            End::Code(1) => Some("property violated".into()),
                            End::Crash(m) => Some(m),
                            End::Hung if hung => Some(hung_text()),
                            _ => None,
                        }
                    };
                    let case = tree.current();
                    if let Some(m0) = fails(&case, full) {
                        // Candidates get less time; what comes out is confirmed with all of it.
                        let (steps, best) = shrink(&mut tree, 300, Duration::from_secs(40), |c| fails(c, if hung { 4 } else { 30 }));
                        let best = best.and_then(|(c, m)| if hung { fails(&c, full).map(|m| (c, m)) } else { Some((c, m)) });
                        let (c, m) = best.unwrap_or((case, m0.clone()));
                        let f = Failure { message: m, original_message: m0, shrink_steps: steps, case: serde_json::to_value(&c).unwrap() };
                        let path = write_replay::<P>(root, seed, *s, idx, &f);
                        confirmed = Some((path, f.message));
                    }
                }
                match confirmed {
                    Some(v) => violations.push(v),
                    None if violations.is_empty() => inconclusive.push(format!("shard {}: {} (not reproduced from a single case)", s, m)),
                    None => {}
                }
            }
        }
    }

    let wall = t0.elapsed().as_secs_f64();
    total.samples.truncate(6);
    let ev = serde_json::json!({
        "property": P::ID,
        "tier": tier_s,
        "seed": seed,
        "level": P::LEVEL,
        "coverage": {
            "evaluations": total.evaluations,
            "distinct_nontrivial": distinct.len(),
            "nontrivial": total.nontrivial,
            "rule": if P::LARGE > 0 { format!("{}. The first {} cases of every shard are large ones (class 'large'), with sizes around the limits of 8, 15 and 16 bits and above", P::RULE, if tier == Tier::Thorough { 12 * P::LARGE } else { P::LARGE }) } else { P::RULE.to_string() },
            "classes": total.labels,
            "excluded_known_findings": known,
            "saved_cases_replayed": n_regressions,
            "samples": total.samples,
            "violations": violations.iter().map(|v| serde_json::json!({"replay": v.0.display().to_string(), "message": v.1})).collect::<Vec<_>>(),
            "slowest_case_cpu_ms": total.max_case_ms,
            "slowest_large_case_cpu_ms": total.max_large_ms,
            "inconclusive": inconclusive,
        },
        "assumptions": P::ASSUMPTIONS,
        "wall_s": wall,
        "violations": violations.len(),
    });
    let evdir = root.join("evidence");
    fs::create_dir_all(&evdir).unwrap();
    fs::write(evdir.join(format!("{}.json", P::ID)), serde_json::to_string_pretty(&ev).unwrap() + "\n").unwrap();
    let _ = fs::remove_dir_all(&dir);

    let mut out = std::io::stdout();
    writeln!(out, "{} {} seed={} cases={} distinct_nontrivial={} wall={:.1}s", P::ID, tier_s, seed, total.evaluations, distinct.len(), wall).unwrap();
    if !violations.is_empty() {
        for (path, m) in violations.iter().take(3) {
            writeln!(out, "  {}", m).unwrap();
            writeln!(out, "VIOLATION property={} replay={}", P::ID, path.display()).unwrap();
        }
        return 1;
    }
    if !inconclusive.is_empty() {
        for m in inconclusive.iter() {
            writeln!(out, "INCONCLUSIVE {}", m).unwrap();
        }
        return 2;
    }
    crate::known::print_known::<P>(root, &mut out)
}
