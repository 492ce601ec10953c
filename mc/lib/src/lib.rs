//! Bounded exhaustive explorer shared by all checks.
//!
//! A check enumerates cases (operation histories, input words, configurations, fault
//! schedules) in a deterministic order and judges every one of them on the real code.
//! The parent process supervises the exploring child: a case that panics, aborts,
//! overflows the stack, runs out of memory or does not terminate is confirmed by
//! running it alone again and is then reported like any other violation.

use std::any::Any;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

use serde::de::DeserializeOwned;
use serde::Serialize;

pub use serde;
pub use serde_json;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

impl Tier {
    pub fn pick<T>(self, quick: T, thorough: T) -> T {
        match self {
            Tier::Quick => quick,
            Tier::Thorough => thorough,
        }
    }
}

/// What one worker observed. Merged over all workers at the end.
#[derive(Default)]
pub struct Ctx {
    states: HashSet<u64>,
    transitions: u64,
    traces: u64,
    outcomes: BTreeMap<String, u64>,
}

impl Ctx {
    /// A (canonical) state of the model that was reached
    pub fn state<H: Hash>(&mut self, state: &H) {
        let mut hasher = Fnv(0xcbf2_9ce4_8422_2325);
        state.hash(&mut hasher);
        self.states.insert(hasher.finish());
    }
    /// Steps of the model taken, each compared with the code
    pub fn step(&mut self, n: u64) {
        self.transitions += n;
    }
    /// A class of observed outcome, to show that the exploration is not vacuous
    pub fn outcome(&mut self, label: &str) {
        match self.outcomes.get_mut(label) {
            Some(n) => *n += 1,
            None => {
                self.outcomes.insert(label.to_string(), 1);
            }
        }
    }
}

pub struct Fnv(pub u64);
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        // final avalanche
        let mut x = self.0;
        x ^= x >> 33;
        x = x.wrapping_mul(0xff51_afd7_ed55_8ccd);
        x ^= x >> 33;
        x
    }
    fn write(&mut self, bytes: &[u8]) {
        for b in bytes {
            self.0 ^= *b as u64;
            self.0 = self.0.wrapping_mul(0x0000_0100_0000_01b3);
        }
    }
}

pub fn hash_of<H: Hash>(x: &H) -> u64 {
    let mut h = Fnv(0xcbf2_9ce4_8422_2325);
    x.hash(&mut h);
    h.finish()
}

/// The result of judging one case: `Err` is a violation, with a description of it.
pub type Verdict = Result<(), Failure>;

#[derive(Debug, Clone)]
pub struct Failure {
    /// Identifies the violation for the known-findings file
    pub key: String,
    pub what: String,
}

impl From<String> for Failure {
    fn from(what: String) -> Self {
        Failure {
            key: String::new(),
            what,
        }
    }
}
impl From<&str> for Failure {
    fn from(what: &str) -> Self {
        what.to_string().into()
    }
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)*) => {
        if !$cond { return Err(format!($($arg)*).into()); }
    };
}

#[macro_export]
macro_rules! ensure_eq {
    ($got:expr, $want:expr, $($arg:tt)*) => {{
        let (got, want) = (&$got, &$want);
        if *got != *want {
            return Err(format!("{}: code gives {:?}, expected {:?}", format!($($arg)*), got, want).into());
        }
    }};
}

pub trait Check: Sync {
    type Case: Serialize + DeserializeOwned + Send + Clone;

    /// Property id
    fn id(&self) -> &'static str;
    fn level(&self) -> &'static str {
        "model_checking"
    }
    /// What is enumerated, and within which bounds
    fn bounds(&self, tier: Tier) -> String;
    fn assumptions(&self) -> Vec<String> {
        Vec::new()
    }
    /// Is everything within the bounds explored?
    fn exhaustive(&self) -> bool {
        true
    }
    /// Emits all cases, in a deterministic order, simplest first
    fn explore(&self, tier: Tier, emit: &mut dyn FnMut(Self::Case));
    /// Judges one case on the real code
    fn judge(&self, case: &Self::Case, ctx: &mut Ctx) -> Verdict;
    /// Number of workers; 1 for checks whose code under test uses process-wide state
    fn workers(&self) -> usize {
        std::thread::available_parallelism().map_or(4, |n| n.get()).min(8)
    }
    /// Seconds a single case may take before it counts as not terminating
    fn case_timeout(&self) -> u64 {
        60
    }
    /// The key by which a violation is looked up among the known findings
    fn key(&self, case: &Self::Case) -> String {
        serde_json::to_string(case).unwrap_or_default()
    }
    /// Called before exploring in the child process
    fn prepare(&self) {}
    /// Any last judgement over the whole exploration (e.g. conformance runs)
    fn epilogue(&self, _tier: Tier, _extra: &mut serde_json::Map<String, serde_json::Value>) -> Verdict {
        Ok(())
    }
}

pub trait DynCheck {
    fn dyn_id(&self) -> &'static str;
    fn dyn_main(&self, args: &Args) -> i32;
}

impl<C: Check> DynCheck for C {
    fn dyn_id(&self) -> &'static str {
        self.id()
    }
    fn dyn_main(&self, args: &Args) -> i32 {
        main_one(self, args)
    }
}

pub struct Args {
    tier: Tier,
    seed: i64,
    mode: Mode,
}

enum Mode {
    Parent,
    Child { shm: PathBuf, report: PathBuf },
    Replay { file: PathBuf, quiet: bool },
    Find { index: u64, out: PathBuf },
}

/// `<bin> <ID> [quick|thorough]`, `<bin> <ID> --replay FILE`
pub fn run(checks: &[&dyn DynCheck]) -> ! {
    let argv: Vec<String> = std::env::args().collect();
    let usage = || -> ! {
        eprintln!("usage: {} ID [quick|thorough] | ID --replay FILE", argv[0]);
        eprintln!("ids: {}", checks.iter().map(|c| c.dyn_id()).collect::<Vec<_>>().join(" "));
        std::process::exit(2)
    };
    if argv.len() < 2 {
        usage();
    }
    let Some(check) = checks.iter().find(|c| c.dyn_id() == argv[1]) else {
        usage()
    };
    let mut tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut mode = Mode::Parent;
    let mut i = 2;
    while i < argv.len() {
        match argv[i].as_str() {
            "quick" => tier = Tier::Quick,
            "thorough" => tier = Tier::Thorough,
            "--replay" => {
                mode = Mode::Replay { file: PathBuf::from(&argv[i + 1]), quiet: false };
                i += 1;
            }
            "--replay-quiet" => {
                mode = Mode::Replay { file: PathBuf::from(&argv[i + 1]), quiet: true };
                i += 1;
            }
            "--child" => {
                mode = Mode::Child { shm: PathBuf::from(&argv[i + 1]), report: PathBuf::from(&argv[i + 2]) };
                i += 2;
            }
            "--find" => {
                mode = Mode::Find { index: argv[i + 1].parse().unwrap(), out: PathBuf::from(&argv[i + 2]) };
                i += 2;
            }
            _ => usage(),
        }
        i += 1;
    }
    let code = check.dyn_main(&Args { tier, seed, mode });
    std::process::exit(code)
}

pub fn verif_dir() -> PathBuf {
    std::env::var_os("VERIF_DIR").map_or_else(|| PathBuf::from("/verif"), PathBuf::from)
}

// ---------------------------------------------------------------------------------------
// Known findings

struct Known {
    property: String,
    key: String,
    what: String,
}

/// Lines `KNOWN-FINDING: property=<id> key=<json string> <what fails>`; other lines are comments
/// or records of fixed defects, which suppress nothing.
fn known_findings(id: &str) -> Vec<Known> {
    let Ok(text) = std::fs::read_to_string(verif_dir().join("known-findings.txt")) else {
        return Vec::new();
    };
    let mut out = Vec::new();
    for line in text.lines() {
        let Some(rest) = line.strip_prefix("KNOWN-FINDING: property=") else { continue };
        let Some((property, rest)) = rest.split_once(" key=") else { continue };
        let mut stream = serde_json::Deserializer::from_str(rest).into_iter::<String>();
        let Some(Ok(key)) = stream.next() else { continue };
        let what = rest[stream.byte_offset()..].trim().to_string();
        if property == id {
            out.push(Known { property: property.to_string(), key, what });
        }
    }
    out
}

/// Keys of the recorded findings of a property
pub fn known_keys(id: &str) -> HashSet<String> {
    known_findings(id).into_iter().map(|k| k.key).collect()
}

// ---------------------------------------------------------------------------------------
// Child: exploration

const SLOTS: usize = 16;
const STACK: usize = 64 << 20;

/// Per worker: index + 1 of the case being judged (0: none), and when it started (ms)
struct Shm(*mut u64);
unsafe impl Sync for Shm {}
unsafe impl Send for Shm {}
impl Shm {
    fn open(path: &Path) -> Shm {
        use std::os::fd::AsRawFd;
        let file = std::fs::OpenOptions::new().read(true).write(true).open(path).unwrap();
        let len = SLOTS * 16;
        let ptr = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                len,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED,
                file.as_raw_fd(),
                0,
            )
        };
        assert!(ptr != libc::MAP_FAILED);
        Shm(ptr as *mut u64)
    }
    fn slot(&self, i: usize) -> &AtomicU64 {
        unsafe { &*(self.0.add(i) as *const AtomicU64) }
    }
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

fn quiet_panics() {
    std::panic::set_hook(Box::new(|info| {
        let text = info.to_string();
        LAST_PANIC.with(|p| *p.borrow_mut() = text);
    }));
}

/// Runs code under test; a panic becomes an error with its message
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|payload| {
        let text = LAST_PANIC.with(|p| std::mem::take(&mut *p.borrow_mut()));
        if text.is_empty() {
            format!("panic: {}", payload_text(&payload))
        } else {
            text
        }
    })
}

fn payload_text(payload: &Box<dyn Any + Send>) -> String {
    if let Some(s) = payload.downcast_ref::<&str>() {
        (*s).to_string()
    } else if let Some(s) = payload.downcast_ref::<String>() {
        s.clone()
    } else {
        "?".to_string()
    }
}

fn judge_guarded<C: Check>(check: &C, case: &C::Case, ctx: &mut Ctx) -> Verdict {
    ctx.traces += 1;
    match guard(|| check.judge(case, ctx)) {
        Ok(verdict) => verdict,
        Err(panic) => Err(format!("panicked: {panic}").into()),
    }
    .map_err(|mut failure| {
        if failure.key.is_empty() {
            failure.key = check.key(case);
        }
        failure
    })
}

struct Queue<T> {
    inner: Mutex<(Vec<(u64, Vec<T>)>, bool)>,
    not_empty: Condvar,
    not_full: Condvar,
}

#[derive(Serialize, serde::Deserialize, Default)]
struct Report {
    states: u64,
    transitions: u64,
    traces: u64,
    outcomes: BTreeMap<String, u64>,
    samples: Vec<serde_json::Value>,
    /// (index, key, what, case)
    violations: Vec<(u64, String, String, serde_json::Value)>,
    violation_count: u64,
    stopped_early: bool,
    extra: serde_json::Map<String, serde_json::Value>,
}

fn child<C: Check>(check: &C, tier: Tier, shm: &Path, report_path: &Path) -> i32 {
    limit_memory(12);
    // If the supervisor goes away, so do we
    unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL) };
    quiet_panics();
    check.prepare();
    let shm = Shm::open(shm);
    let start = Instant::now();
    let n = check.workers().clamp(1, SLOTS / 2);
    let known: HashSet<String> = known_findings(check.id()).into_iter().map(|k| k.key).collect();

    let queue: Queue<C::Case> = Queue {
        inner: Mutex::new((Vec::new(), false)),
        not_empty: Condvar::new(),
        not_full: Condvar::new(),
    };
    let stop = AtomicBool::new(false);
    let unlisted = AtomicU64::new(0);
    let report = Mutex::new(Report::default());
    let all_states: Mutex<HashSet<u64>> = Mutex::new(HashSet::new());

    std::thread::scope(|scope| {
        let mut workers = Vec::new();
        for w in 0..n {
            let (queue, shm, stop, unlisted, report, all_states, known) =
                (&queue, &shm, &stop, &unlisted, &report, &all_states, &known);
            let handle = std::thread::Builder::new()
                .stack_size(STACK)
                .spawn_scoped(scope, move || {
                    let mut ctx = Ctx::default();
                    let mut samples: Vec<(u64, serde_json::Value)> = Vec::new();
                    loop {
                        let (mut index, batch) = {
                            let mut inner = queue.inner.lock().unwrap();
                            loop {
                                if !inner.0.is_empty() {
                                    let batch = inner.0.remove(0);
                                    queue.not_full.notify_one();
                                    break batch;
                                }
                                if inner.1 {
                                    let mut report = report.lock().unwrap();
                                    report.transitions += ctx.transitions;
                                    report.traces += ctx.traces;
                                    for (k, v) in ctx.outcomes {
                                        *report.outcomes.entry(k).or_default() += v;
                                    }
                                    for (_, s) in samples {
                                        report.samples.push(s);
                                    }
                                    all_states.lock().unwrap().extend(ctx.states);
                                    return;
                                }
                                inner = queue.not_empty.wait(inner).unwrap();
                            }
                        };
                        for case in batch {
                            if stop.load(Ordering::Relaxed) {
                                break;
                            }
                            shm.slot(2 * w + 1).store(start.elapsed().as_millis() as u64, Ordering::Relaxed);
                            shm.slot(2 * w).store(index + 1, Ordering::SeqCst);
                            let verdict = judge_guarded(check, &case, &mut ctx);
                            shm.slot(2 * w).store(0, Ordering::SeqCst);
                            // a few spread out samples: case numbers that are powers of four
                            if index.is_power_of_two() && index.trailing_zeros() % 2 == 0 {
                                samples.push((index, serde_json::to_value(&case).unwrap()));
                            }
                            if let Err(failure) = verdict {
                                let listed = known.contains(&failure.key);
                                let mut report = report.lock().unwrap();
                                report.violation_count += 1;
                                if listed || report.violations.len() < 200 {
                                    report.violations.push((
                                        index,
                                        failure.key,
                                        failure.what,
                                        serde_json::to_value(&case).unwrap(),
                                    ));
                                }
                                if !listed && unlisted.fetch_add(1, Ordering::Relaxed) >= 20 {
                                    report.stopped_early = true;
                                    stop.store(true, Ordering::Relaxed);
                                }
                            }
                            index += 1;
                        }
                    }
                })
                .unwrap();
            workers.push(handle);
        }
        // Watchdog
        let done = AtomicBool::new(false);
        let done = &*Box::leak(Box::new(done));
        let (shm_ref, limit) = (&shm, check.case_timeout() * 1000);
        scope.spawn(move || {
            while !done.load(Ordering::Relaxed) {
                std::thread::sleep(Duration::from_millis(100));
                let now = start.elapsed().as_millis() as u64;
                for w in 0..n {
                    let before = shm_ref.slot(2 * w).load(Ordering::SeqCst);
                    let since = shm_ref.slot(2 * w + 1).load(Ordering::SeqCst);
                    if before != 0
                        && shm_ref.slot(2 * w).load(Ordering::SeqCst) == before
                        && now.saturating_sub(since) > limit
                    {
                        // keep only this slot
                        for other in 0..n {
                            if other != w {
                                shm_ref.slot(2 * other).store(0, Ordering::SeqCst);
                            }
                        }
                        shm_ref.slot(2 * w).store(before, Ordering::SeqCst);
                        std::process::exit(97);
                    }
                }
            }
        });
        // Producer: this thread
        let batch_size = 64;
        let mut batch = Vec::with_capacity(batch_size);
        let mut next: u64 = 0;
        let push = |first: u64, batch: Vec<C::Case>| {
            let mut inner = queue.inner.lock().unwrap();
            while inner.0.len() >= 256 {
                inner = queue.not_full.wait(inner).unwrap();
            }
            inner.0.push((first, batch));
            queue.not_empty.notify_one();
        };
        let mut emit = |case: C::Case| {
            if stop.load(Ordering::Relaxed) {
                return;
            }
            batch.push(case);
            next += 1;
            // The first cases one by one, so that few slow ones are spread over the workers
            if batch.len() == batch_size || next < 4096 {
                let full = std::mem::replace(&mut batch, Vec::with_capacity(batch_size));
                push(next - full.len() as u64, full);
            }
        };
        check.explore(tier, &mut emit);
        if !batch.is_empty() {
            let full = std::mem::take(&mut batch);
            push(next - full.len() as u64, full);
        }
        queue.inner.lock().unwrap().1 = true;
        queue.not_empty.notify_all();
        for worker in workers {
            worker.join().unwrap();
        }
        done.store(true, Ordering::Relaxed);
    });

    let mut report = report.into_inner().unwrap();
    report.states = all_states.into_inner().unwrap().len() as u64;
    report.violations.sort_by(|a, b| a.0.cmp(&b.0));
    let mut extra = serde_json::Map::new();
    match guard(|| check.epilogue(tier, &mut extra)) {
        Ok(Ok(())) => {}
        Ok(Err(failure)) => {
            report.violation_count += 1;
            report.violations.push((u64::MAX, failure.key, failure.what, serde_json::Value::Null));
        }
        Err(panic) => {
            eprintln!("epilogue failed: {panic}");
            return 2;
        }
    }
    report.extra = extra;
    std::fs::write(report_path, serde_json::to_vec(&report).unwrap()).unwrap();
    0
}

// ---------------------------------------------------------------------------------------
// Parent: supervision, verdict and evidence

fn main_one<C: Check>(check: &C, args: &Args) -> i32 {
    match &args.mode {
        Mode::Child { shm, report } => child(check, args.tier, shm, report),
        Mode::Replay { file, quiet } => replay(check, file, *quiet),
        Mode::Find { index, out } => {
            let mut i = 0;
            check.explore(args.tier, &mut |case| {
                if i == *index {
                    let value = serde_json::json!({"property": check.id(), "case": case});
                    std::fs::write(out, serde_json::to_vec_pretty(&value).unwrap()).unwrap();
                    std::process::exit(0);
                }
                i += 1;
            });
            2
        }
        Mode::Parent => parent(check, args),
    }
}

fn replay<C: Check>(check: &C, file: &Path, quiet: bool) -> i32 {
    let text = std::fs::read_to_string(file).expect("can read the replay file");
    let value: serde_json::Value = serde_json::from_str(&text).expect("the replay file is JSON");
    let case: C::Case = serde_json::from_value(value["case"].clone()).expect("the replay file holds a case");
    quiet_panics();
    limit_memory(4);
    check.prepare();
    let timeout = check.case_timeout();
    std::thread::spawn(move || {
        std::thread::sleep(Duration::from_secs(timeout));
        println!("does not terminate within {timeout} s");
        std::process::exit(97);
    });
    let verdict = std::thread::scope(|scope| {
        std::thread::Builder::new()
            .stack_size(STACK)
            .spawn_scoped(scope, move || judge_guarded(check, &case, &mut Ctx::default()))
            .unwrap()
            .join()
            .unwrap()
    });
    match verdict {
        Ok(()) => {
            if !quiet {
                println!("the property holds on this case");
            }
            0
        }
        Err(failure) => {
            println!("{}", failure.what);
            if !quiet {
                println!("VIOLATION property={} replay={}", check.id(), file.display());
            }
            1
        }
    }
}

fn scratch_file(name: &str) -> PathBuf {
    let dir = verif_dir().join("out").join("run");
    std::fs::create_dir_all(&dir).unwrap();
    dir.join(format!("{}-{name}", std::process::id()))
}

fn parent<C: Check>(check: &C, args: &Args) -> i32 {
    let start = Instant::now();
    let id = check.id();
    let exe = std::env::current_exe().unwrap();
    let tier_name = args.tier.pick("quick", "thorough");
    let (shm, report_path) = (scratch_file("shm"), scratch_file("report"));
    std::fs::write(&shm, vec![0u8; SLOTS * 16]).unwrap();

    let scratch = scratch_base();
    // SAFETY: there is only one thread yet
    unsafe { std::env::set_var(SCRATCH, &scratch) };

    let replay_dir = verif_dir().join("out").join("replay").join(id);
    let _ = std::fs::remove_dir_all(&replay_dir);
    std::fs::create_dir_all(&replay_dir).unwrap();

    let status = Command::new(&exe)
        .args([id, tier_name, "--child"])
        .arg(&shm)
        .arg(&report_path)
        .status()
        .expect("can start the exploring process");

    let cleanup = || {
        let _ = std::fs::remove_file(&shm);
        let _ = std::fs::remove_file(&report_path);
        let _ = std::fs::remove_dir_all(&scratch);
        let _ = std::fs::remove_dir_all(on_disk(&scratch));
    };

    let mut report = Report::default();
    let finished = status.success();
    if finished {
        report = serde_json::from_slice(&std::fs::read(&report_path).unwrap()).unwrap();
    } else {
        // It died or hung: on which case? Confirm each candidate alone.
        let slots = std::fs::read(&shm).unwrap();
        let mut candidates: Vec<u64> = (0..SLOTS / 2)
            .map(|w| u64::from_ne_bytes(slots[16 * w..16 * w + 8].try_into().unwrap()))
            .filter(|index| *index != 0)
            .map(|index| index - 1)
            .collect();
        candidates.sort_unstable();
        for index in candidates {
            let file = replay_dir.join(format!("case-{index}.json"));
            let found = Command::new(&exe)
                .args([id, tier_name, "--find", &index.to_string()])
                .arg(&file)
                .status()
                .unwrap();
            if !found.success() {
                continue;
            }
            let output = Command::new(&exe)
                .args([id, tier_name, "--replay-quiet"])
                .arg(&file)
                .stderr(Stdio::null())
                .output()
                .unwrap();
            if !output.status.success() {
                let value: serde_json::Value = serde_json::from_slice(&std::fs::read(&file).unwrap()).unwrap();
                let what = format!("{} ({})", String::from_utf8_lossy(&output.stdout).trim(), output.status);
                let case: C::Case = serde_json::from_value(value["case"].clone()).unwrap();
                report.violations.push((index, check.key(&case), what, value["case"].clone()));
                report.violation_count += 1;
                report.stopped_early = true;
                if report.violations.len() == 2 {
                    break;
                }
            }
        }
        if report.violations.is_empty() {
            eprintln!("{id}: the exploring process ended with {status}, on no case that fails again: error of the check");
            cleanup();
            return 2;
        }
    }

    // Verdict
    let known = known_findings(id);
    let mut seen_known: HashSet<String> = HashSet::new();
    let mut fresh = 0;
    let stdout = std::io::stdout();
    let mut stdout = stdout.lock();
    for (index, key, what, case) in &report.violations {
        if known.iter().any(|k| k.key == *key) {
            seen_known.insert(key.clone());
            continue;
        }
        fresh += 1;
        if fresh <= 5 {
            let file = replay_dir.join(format!("violation-{fresh}.json"));
            let value = serde_json::json!({"property": id, "index": index, "key": key, "what": what, "case": case});
            std::fs::write(&file, serde_json::to_vec_pretty(&value).unwrap()).unwrap();
            writeln!(stdout, "{id}: {what}").unwrap();
            writeln!(stdout, "  case: {case}").unwrap();
            writeln!(stdout, "  key: {}", serde_json::to_string(key).unwrap()).unwrap();
            writeln!(stdout, "VIOLATION property={id} replay={}", file.display()).unwrap();
        }
    }
    for k in &known {
        if seen_known.contains(&k.key) {
            writeln!(stdout, "KNOWN-FINDING: property={} {}", k.property, k.what).unwrap();
        } else if finished && !report.stopped_early {
            writeln!(stdout, "note: listed finding not observed in this tier: {}", k.what).unwrap();
        }
    }

    // Evidence
    let wall = start.elapsed().as_secs_f64();
    let mut samples = report.samples.clone();
    samples.truncate(12);
    let mut coverage = serde_json::Map::new();
    let level = check.level();
    if level == "model_checking" {
        coverage.insert("states".into(), report.states.into());
        coverage.insert("transitions".into(), report.transitions.into());
        coverage.insert("traces_validated_against_impl".into(), report.traces.into());
    } else {
        coverage.insert("evaluations".into(), report.traces.into());
        coverage.insert("distinct_nontrivial".into(), report.states.into());
        coverage.insert("rule".into(), check.bounds(args.tier).into());
    }
    coverage.insert("bounds".into(), check.bounds(args.tier).into());
    coverage.insert("outcomes".into(), serde_json::to_value(&report.outcomes).unwrap());
    coverage.insert("samples".into(), serde_json::Value::Array(samples));
    coverage.insert("exhaustive".into(), (check.exhaustive() && finished && !report.stopped_early).into());
    for (k, v) in report.extra.clone() {
        coverage.insert(k, v);
    }
    let evidence = serde_json::json!({
        "property": id,
        "tier": tier_name,
        "seed": args.seed,
        "level": level,
        "coverage": coverage,
        "assumptions": check.assumptions(),
        "wall_s": (wall * 1000.0).round() / 1000.0,
        "violations": fresh,
    });
    let dir = verif_dir().join("evidence");
    std::fs::create_dir_all(&dir).unwrap();
    std::fs::write(dir.join(format!("{id}.json")), serde_json::to_vec_pretty(&evidence).unwrap()).unwrap();
    writeln!(
        stdout,
        "{id} {tier_name}: {} executions, {} steps, {} states, {} outcome classes {:?}, {fresh} violations, {wall:.1} s",
        report.traces,
        report.transitions,
        report.states,
        report.outcomes.len(),
        report.outcomes.iter().take(12).collect::<Vec<_>>(),
    )
    .unwrap();
    cleanup();
    if fresh > 0 {
        return 1;
    }
    if report.traces == 0 {
        eprintln!("{id}: nothing was explored: error of the check");
        return 2;
    }
    0
}

// ---------------------------------------------------------------------------------------
// Containment of code that writes or deletes files

const SCRATCH: &str = "MC_SCRATCH";

fn limit_memory(gigabytes: u64) {
    let limit = libc::rlimit { rlim_cur: gigabytes << 30, rlim_max: gigabytes << 30 };
    unsafe { libc::setrlimit(libc::RLIMIT_AS, &limit) };
}

/// A directory of its own for the calling thread, owned by an unprivileged user, that goes away
/// with this value
pub struct Scratch {
    dir: PathBuf,
}

const NOBODY: u32 = 65534;

/// In memory if possible
fn scratch_base() -> PathBuf {
    let name = format!("mc-{}", std::process::id());
    let shm = Path::new("/dev/shm").join(&name);
    match std::fs::create_dir(&shm) {
        Ok(()) => shm,
        Err(_) => std::env::temp_dir().join(name),
    }
}

fn on_disk(base: &Path) -> PathBuf {
    std::env::temp_dir().join(base.file_name().unwrap())
}

impl Scratch {
    pub fn new() -> Self {
        Self::within(std::env::var_os(SCRATCH).map_or_else(scratch_base, PathBuf::from))
    }
    /// For executables: memory might not hold any
    pub fn on_disk() -> Self {
        let base = std::env::var_os(SCRATCH).map_or_else(scratch_base, PathBuf::from);
        Self::within(on_disk(&base))
    }
    fn within(base: PathBuf) -> Self {
        static NEXT: AtomicU64 = AtomicU64::new(0);
        let dir = base.join(NEXT.fetch_add(1, Ordering::Relaxed).to_string());
        std::fs::create_dir_all(&dir).expect("can create a scratch directory");
        // No symlinks in the path, which the code under test might resolve
        let dir = dir.canonicalize().unwrap();
        let _ = std::os::unix::fs::chown(&dir, Some(NOBODY), Some(NOBODY));
        Scratch { dir }
    }
    pub fn path(&self) -> &Path {
        &self.dir
    }
    /// Removes what is inside
    pub fn clear(&self) {
        for entry in std::fs::read_dir(&self.dir).unwrap() {
            let entry = entry.unwrap();
            let path = entry.path();
            let removed = match entry.file_type().unwrap().is_dir() {
                true => std::fs::remove_dir_all(&path),
                false => std::fs::remove_file(&path),
            };
            removed.unwrap_or_else(|e| panic!("can remove {}: {e}", path.display()));
        }
    }
    /// Runs code under test with this as its working directory and with the file permissions of
    /// an unprivileged user, both for the calling thread only
    pub fn enter<T>(&self, f: impl FnOnce() -> T) -> T {
        thread_local! {
            static OWN_DIRECTORY: () = assert_eq!(unsafe { libc::unshare(libc::CLONE_FS) }, 0);
        }
        OWN_DIRECTORY.with(|_| ());
        struct Back(PathBuf);
        impl Drop for Back {
            fn drop(&mut self) {
                unsafe {
                    libc::setfsuid(0);
                    libc::setfsgid(0);
                }
                let _ = std::env::set_current_dir(&self.0);
            }
        }
        let _back = Back(std::env::current_dir().unwrap_or_else(|_| PathBuf::from("/")));
        std::env::set_current_dir(&self.dir).unwrap();
        if unsafe { libc::geteuid() } == 0 {
            unsafe {
                libc::setfsgid(NOBODY);
                libc::setfsuid(NOBODY);
                assert_eq!(libc::setfsuid(u32::MAX), NOBODY as i32, "runs unprivileged");
            }
        }
        f()
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.dir);
        if std::env::var_os(SCRATCH).is_none() {
            let _ = std::fs::remove_dir(self.dir.parent().unwrap());
        }
    }
}

// ---------------------------------------------------------------------------------------
// Enumeration helpers

/// All words over `0..k` of length `0..=max`, shortest first
pub fn words(k: usize, max: usize, f: &mut dyn FnMut(&[usize])) {
    for len in 0..=max {
        words_of(k, len, f);
    }
}

/// All words over `0..k` of length `len`, in lexicographic order
pub fn words_of(k: usize, len: usize, f: &mut dyn FnMut(&[usize])) {
    if k == 0 && len > 0 {
        return;
    }
    let mut word = vec![0usize; len];
    loop {
        f(&word);
        let mut i = len;
        loop {
            if i == 0 {
                return;
            }
            i -= 1;
            word[i] += 1;
            if word[i] < k {
                break;
            }
            word[i] = 0;
        }
    }
}

/// All tuples of a mixed-radix space
pub fn tuples(radix: &[usize], f: &mut dyn FnMut(&[usize])) {
    if radix.iter().any(|r| *r == 0) {
        return;
    }
    let mut word = vec![0usize; radix.len()];
    loop {
        f(&word);
        let mut i = radix.len();
        loop {
            if i == 0 {
                return;
            }
            i -= 1;
            word[i] += 1;
            if word[i] < radix[i] {
                break;
            }
            word[i] = 0;
        }
    }
}

/// All words of length `0..=max`, as concatenated text
/// Characters to be tried one by one: all of the first blocks, and ones of every UTF-8 width with
/// special properties (separators, joiners, other blanks, a byte order mark)
pub fn characters() -> impl Iterator<Item = char> {
    (0u32..=0x250)
        .chain([0x3b1, 0x401, 0x5d0, 0x1680, 0x180e])
        .chain(0x2000..=0x206f)
        .chain([0x3000, 0x4e2d, 0xac00, 0xfeff, 0xfffd, 0xffff, 0x10000, 0x1f600, 0x10ffff])
        .filter_map(char::from_u32)
}

pub fn texts(alphabet: &[&str], max: usize, f: &mut dyn FnMut(String)) {
    words(alphabet.len(), max, &mut |word| f(word.iter().map(|i| alphabet[*i]).collect()));
}
