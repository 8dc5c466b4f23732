//! Suite runner: drives proptest strategies deterministically on several threads, counts what was
//! generated, shrinks failures and writes replay files.

use proptest::strategy::{BoxedStrategy, NewTree, Strategy, Union, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::OnceLock;

pub type Res = Result<(), String>;

/// What a check tells the runner about a case.
#[derive(Default)]
pub struct Obs {
    pub nontrivial: bool,
    pub labels: Vec<&'static str>,
    pub known: Vec<&'static str>,
}

impl Obs {
    pub fn label(&mut self, l: &'static str) {
        self.labels.push(l);
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.labels.push(l);
        }
    }
    pub fn nontrivial_if(&mut self, c: bool) {
        self.nontrivial |= c;
    }
    /// A failure with an exact signature: tolerated (and reported) only if the signature is listed
    /// as an open finding for the property in the committed known-findings file.
    pub fn known(&mut self, prop: &str, sig: &'static str, msg: impl FnOnce() -> String) -> Res {
        if open_findings().contains(&(prop.to_string(), sig.to_string())) {
            self.known.push(sig);
            Ok(())
        } else {
            Err(msg())
        }
    }
}

static OPEN: OnceLock<BTreeSet<(String, String)>> = OnceLock::new();

pub fn set_open_findings(v: BTreeSet<(String, String)>) {
    let _ = OPEN.set(v);
}
fn open_findings() -> &'static BTreeSet<(String, String)> {
    OPEN.get_or_init(BTreeSet::new)
}

/// Lines of the form `open: property=C20 sig=some-signature <text>`.
pub fn parse_findings(text: &str) -> Vec<(String, String, String)> {
    let mut out = vec![];
    for l in text.lines() {
        if let Some(rest) = l.strip_prefix("open: property=") {
            let mut it = rest.splitn(3, ' ');
            let prop = it.next().unwrap_or("").to_string();
            let sig = it.next().unwrap_or("").trim_start_matches("sig=").to_string();
            out.push((prop, sig, it.next().unwrap_or("").to_string()));
        }
    }
    out
}

// ---------------------------------------------------------------------------------------------
// panics

thread_local! {
    static QUIET: Cell<u32> = const { Cell::new(0) };
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{} at {loc}", payload_str(info.payload())));
        if QUIET.with(|q| q.get()) == 0 {
            default(info);
        }
    }));
}

fn payload_str(p: &(dyn Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".to_string()
    }
}

/// Runs `f`; a panic becomes `Err(message)`.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    QUIET.with(|q| q.set(q.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(q.get() - 1));
    r.map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

// ---------------------------------------------------------------------------------------------
// where each thread is: so that a crash or a hang of the code under test can be traced to its case

static TRACE: OnceLock<std::fs::File> = OnceLock::new();
thread_local! {
    static SLOT: Cell<usize> = const { Cell::new(0) };
}
const MAX_SLOTS: usize = 64;
const RECORD: usize = 64;
static STEPS: [std::sync::atomic::AtomicU64; MAX_SLOTS] = [const { std::sync::atomic::AtomicU64::new(0) }; MAX_SLOTS];

pub fn set_trace(path: &str) {
    if let Ok(f) = std::fs::File::create(path) {
        let _ = TRACE.set(f);
    }
}

/// Notes that this thread starts case `index` of a chunk (fixed-size record per thread).
fn progress(suite: &str, chunk: u64, index: u64) {
    let slot = SLOT.with(|s| s.get());
    STEPS[slot].fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    if let Some(f) = TRACE.get() {
        write_record(f, slot, &format!("{suite} {chunk} {index}"));
    }
}

fn write_record(f: &std::fs::File, slot: usize, text: &str) {
    use std::os::unix::fs::FileExt;
    let mut rec = [b' '; RECORD];
    rec[..text.len().min(RECORD - 1)].copy_from_slice(&text.as_bytes()[..text.len().min(RECORD - 1)]);
    rec[RECORD - 1] = b'\n';
    let _ = f.write_at(&rec, (slot * RECORD) as u64);
}

static WAITING: [std::sync::atomic::AtomicBool; MAX_SLOTS] = [const { std::sync::atomic::AtomicBool::new(false) }; MAX_SLOTS];

/// For cases which need so much memory that they run one at a time; waiting for the turn does not count as a stall.
pub fn exclusive() -> std::sync::MutexGuard<'static, ()> {
    static ONE_AT_A_TIME: std::sync::Mutex<()> = std::sync::Mutex::new(());
    let slot = SLOT.with(|s| s.get());
    WAITING[slot].store(true, std::sync::atomic::Ordering::Relaxed);
    let g = ONE_AT_A_TIME.lock().unwrap_or_else(|e| e.into_inner());
    WAITING[slot].store(false, std::sync::atomic::Ordering::Relaxed);
    g
}

/// Ends the process with code 4 if a single case does not end within `limit` seconds.
pub fn watch_for_stalls(limit: u64) {
    std::thread::spawn(move || {
        let mut last = [(0u64, 0u64); MAX_SLOTS];
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            for (i, l) in last.iter_mut().enumerate() {
                let now = STEPS[i].load(std::sync::atomic::Ordering::Relaxed);
                if now != l.0 || now == 0 || now == u64::MAX || WAITING[i].load(std::sync::atomic::Ordering::Relaxed) {
                    *l = (now, 0);
                } else {
                    l.1 += 1;
                    if l.1 > limit {
                        eprintln!("stalled: a single case takes more than {limit} s");
                        std::process::exit(4);
                    }
                }
            }
        }
    });
}

static DEADLINE: OnceLock<std::time::Instant> = OnceLock::new();

/// No case starts more than `seconds` from now: slow code under test means fewer cases, not a missing answer.
pub fn set_deadline(seconds: u64) {
    let _ = DEADLINE.set(std::time::Instant::now() + std::time::Duration::from_secs(seconds));
}

fn past_deadline() -> bool {
    DEADLINE.get().is_some_and(|d| std::time::Instant::now() > *d)
}

// ---------------------------------------------------------------------------------------------
// suites

pub trait Case: Clone + Debug + Serialize + DeserializeOwned + 'static {}
impl<T: Clone + Debug + Serialize + DeserializeOwned + 'static> Case for T {}

pub struct Suite<C: Case> {
    pub name: &'static str,
    pub rule: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub strat: fn() -> BoxedStrategy<C>,
    pub check: fn(&C, &mut Obs) -> Res,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub evals: u64,
    pub nontrivial: u64,
    pub hashes: Vec<u64>,
    pub labels: BTreeMap<&'static str, u64>,
    pub known: BTreeMap<&'static str, u64>,
    pub samples: Vec<serde_json::Value>,
}

#[derive(Clone)]
pub struct Failure {
    pub case: serde_json::Value,
    pub pretty: String,
    pub msg: String,
    /// chunk and number of its cases: a failure that depends on earlier cases (hidden state) repeats only with these
    pub origin: Option<(u64, u64)>,
}

/// Cases of millions of bits have very long descriptions.
fn shorten(s: String) -> String {
    const MAX: usize = 4000;
    match s.char_indices().nth(MAX) {
        None => s,
        Some((at, _)) => format!("{}... ({} more bytes)", &s[..at], s.len() - at),
    }
}

pub struct ChunkResult {
    pub stats: Stats,
    pub failure: Option<Failure>,
    pub error: Option<String>,
}

pub trait DynSuite: Send + Sync {
    fn name(&self) -> &'static str;
    fn rule(&self) -> &'static str;
    fn cases(&self, thorough: bool) -> u64;
    fn run_chunk(&self, seed: u64, chunk: u64, cases: u64) -> ChunkResult;
    fn replay(&self, case: &serde_json::Value) -> Result<Res, String>;
    /// The case number `index` (from 0) of a chunk, without running it.
    fn regenerate(&self, seed: u64, chunk: u64, index: u64) -> Option<(serde_json::Value, String)>;
    /// Coverage-guided execution: the bytes drive the strategy.
    fn fuzzer(&self) -> Box<dyn FnMut(&[u8], &mut Stats) -> Option<Failure> + '_>;
    /// The case that the fuzzer makes of these bytes, without running it.
    fn fuzz_case(&self, data: &[u8]) -> Option<(serde_json::Value, String)>;
}

fn run_case<C: Case>(check: fn(&C, &mut Obs) -> Res, c: &C, obs: &mut Obs) -> Res {
    match catch(|| check(c, obs)) {
        Ok(r) => r,
        Err(p) => Err(format!("panic: {p}")),
    }
}

pub fn hash64(x: &impl Hash) -> u64 {
    // FNV-style hasher with a final mix: stable across runs
    struct H(u64);
    impl Hasher for H {
        fn finish(&self) -> u64 {
            let mut z = self.0;
            z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
            z ^ (z >> 31)
        }
        fn write(&mut self, b: &[u8]) {
            for c in b.chunks(8) {
                let mut w = [0u8; 8];
                w[..c.len()].copy_from_slice(c);
                self.0 = (self.0.rotate_left(23) ^ u64::from_le_bytes(w)).wrapping_mul(0x9e3779b97f4a7c15);
            }
        }
    }
    let mut h = H(0x1234_5678_9abc_def1);
    x.hash(&mut h);
    h.finish()
}

pub fn derive_seed(seed: u64, name: &str, chunk: u64) -> [u8; 32] {
    let mut out = [0u8; 32];
    for i in 0..4u64 {
        // builds with and without debug assertions explore different cases
        let v = hash64(&(seed, name, chunk, i, cfg!(debug_assertions)));
        out[(i * 8) as usize..(i * 8 + 8) as usize].copy_from_slice(&v.to_le_bytes());
    }
    out
}

fn failure_of<C: Case>(check: fn(&C, &mut Obs) -> Res, c: &C, reported: &str, origin: Option<(u64, u64)>) -> Failure {
    let msg = match run_case(check, c, &mut Obs::default()) {
        Err(m) => m,
        Ok(()) => format!("depends on the cases before it (does not repeat alone): {reported}"),
    };
    Failure {
        case: serde_json::to_value(c).expect("cases are serialisable"),
        pretty: shorten(format!("{c:?}")),
        msg: shorten(msg),
        origin,
    }
}

impl<C: Case> DynSuite for Suite<C> {
    fn name(&self) -> &'static str {
        self.name
    }
    fn rule(&self) -> &'static str {
        self.rule
    }
    fn cases(&self, thorough: bool) -> u64 {
        if thorough {
            self.thorough
        } else {
            self.quick
        }
    }

    fn run_chunk(&self, seed: u64, chunk: u64, cases: u64) -> ChunkResult {
        let strat = (self.strat)();
        let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &derive_seed(seed, self.name, chunk));
        // suites with few cases have expensive ones
        let shrink_iters = match self.quick {
            20_000.. => 20_000,
            1_000.. => 400,
            _ => 12,
        };
        let config = Config {
            cases: cases as u32,
            failure_persistence: None,
            max_shrink_iters: shrink_iters,
            max_shrink_time: 12_000,
            verbose: 0,
            ..Config::default()
        };
        let mut runner = TestRunner::new_with_rng(config, rng);
        let stats = RefCell::new(Stats::default());
        let failed = Cell::new(false);
        let every = (cases / 3).max(1);
        let (asked, late) = (Cell::new(0u64), Cell::new(false));
        let look = (self.quick / 5_000).max(1);
        let result = runner.run(&strat, |c: C| {
            let mut obs = Obs::default();
            // looking at the clock costs more than some of the cases
            let seen = asked.get();
            asked.set(seen + 1);
            if !failed.get() && (late.get() || seen % look == 0 && past_deadline()) {
                late.set(true);
                return Ok(());
            }
            if !failed.get() {
                progress(self.name, chunk, stats.borrow().evals);
            }
            let r = run_case(self.check, &c, &mut obs);
            if !failed.get() {
                let mut s = stats.borrow_mut();
                s.evals += 1;
                obs.labels.sort_unstable();
                obs.labels.dedup();
                obs.known.sort_unstable();
                obs.known.dedup();
                for l in &obs.labels {
                    *s.labels.entry(l).or_insert(0) += 1;
                }
                for k in &obs.known {
                    *s.known.entry(k).or_insert(0) += 1;
                }
                if obs.nontrivial {
                    s.nontrivial += 1;
                    let h = hash64(&bincode::serialize(&c).unwrap_or_default());
                    s.hashes.push(h);
                    if s.samples.is_empty() || (s.samples.len() < 3 && s.nontrivial % every == 0) {
                        let text: String = format!("{c:?}").chars().take(600).collect();
                        s.samples.push(serde_json::Value::String(text));
                    }
                }
            }
            r.map_err(|m| {
                failed.set(true);
                TestCaseError::fail(m)
            })
        });
        let (mut failure, mut error) = (None, None);
        match result {
            Ok(()) => {}
            Err(TestError::Fail(reason, c)) => failure = Some(failure_of(self.check, &c, reason.message(), Some((chunk, cases)))),
            Err(TestError::Abort(r)) => error = Some(format!("{}: generation aborted: {r}", self.name)),
        }
        ChunkResult { stats: stats.into_inner(), failure, error }
    }

    fn regenerate(&self, seed: u64, chunk: u64, index: u64) -> Option<(serde_json::Value, String)> {
        let strat = (self.strat)();
        let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &derive_seed(seed, self.name, chunk));
        let mut runner = TestRunner::new_with_rng(Config { failure_persistence: None, ..Config::default() }, rng);
        for _ in 0..index {
            strat.new_tree(&mut runner).ok()?;
        }
        let c = strat.new_tree(&mut runner).ok()?.current();
        Some((serde_json::to_value(&c).ok()?, format!("{c:?}")))
    }

    fn replay(&self, case: &serde_json::Value) -> Result<Res, String> {
        let c: C = serde_json::from_value(case.clone()).map_err(|e| format!("bad case: {e}"))?;
        Ok(run_case(self.check, &c, &mut Obs::default()))
    }

    fn fuzz_case(&self, data: &[u8]) -> Option<(serde_json::Value, String)> {
        let c = (self.strat)().new_tree(&mut fuzz_runner(data, &fuzz_tail())).ok()?.current();
        Some((serde_json::to_value(&c).ok()?, format!("{c:?}")))
    }

    fn fuzzer(&self) -> Box<dyn FnMut(&[u8], &mut Stats) -> Option<Failure> + '_> {
        let strat = (self.strat)();
        let tail = fuzz_tail();
        Box::new(move |data, stats| {
            let mut runner = fuzz_runner(data, &tail);
            let mut tree = strat.new_tree(&mut runner).ok()?;
            let c = tree.current();
            let mut obs = Obs::default();
            let r = run_case(self.check, &c, &mut obs);
            stats.evals += 1;
            for l in obs.labels.iter().collect::<BTreeSet<_>>() {
                *stats.labels.entry(l).or_insert(0) += 1;
            }
            for k in obs.known.iter().collect::<BTreeSet<_>>() {
                *stats.known.entry(k).or_insert(0) += 1;
            }
            if obs.nontrivial {
                stats.nontrivial += 1;
                stats.hashes.push(hash64(&bincode::serialize(&c).unwrap_or_default()));
                if stats.nontrivial.is_power_of_two() {
                    stats.samples.truncate(2);
                    stats.samples.push(serde_json::Value::String(format!("{c:?}").chars().take(600).collect()));
                }
            }
            let reported = r.err()?;
            // shrink
            let (mut smallest, start) = (c, std::time::Instant::now());
            while start.elapsed().as_secs() < 12 {
                let failing = {
                    let c = tree.current();
                    let fails = run_case(self.check, &c, &mut Obs::default()).is_err();
                    if fails {
                        smallest = c;
                    }
                    fails
                };
                if !(if failing { tree.simplify() } else { tree.complicate() }) {
                    break;
                }
            }
            Some(failure_of(self.check, &smallest, &reported, None))
        })
    }
}

thread_local! {
    static FUZZING: Cell<bool> = const { Cell::new(false) };
}

pub fn set_fuzzing() {
    FUZZING.with(|f| f.set(true));
}

fn fuzz_runner(data: &[u8], tail: &[u8]) -> TestRunner {
    let bytes: Vec<u8> = data.iter().chain(tail.iter()).copied().collect();
    let rng = TestRng::from_seed(RngAlgorithm::PassThrough, &bytes);
    TestRunner::new_with_rng(Config { failure_persistence: None, ..Config::default() }, rng)
}

/// What a fuzz input is followed by, so that short inputs still make full cases.
fn fuzz_tail() -> Vec<u8> {
    (0..2048u64).flat_map(|i| hash64(&i).to_le_bytes()).collect()
}

/// The `prop_oneof!` of this crate. Under the fuzzer the alternatives that are not picked consume no input
/// (proptest's own union hands half of the remaining bytes to each of them).
#[derive(Clone, Debug)]
pub struct OneOf<T: Debug> {
    options: std::sync::Arc<Vec<(u32, BoxedStrategy<T>)>>,
    union: Union<BoxedStrategy<T>>,
}

impl<T: Debug> OneOf<T> {
    pub fn new(options: Vec<(u32, BoxedStrategy<T>)>) -> Self {
        OneOf { union: Union::new_weighted(options.clone()), options: std::sync::Arc::new(options) }
    }
}

impl<T: Debug + 'static> Strategy for OneOf<T> {
    type Tree = Box<dyn ValueTree<Value = T>>;
    type Value = T;
    fn new_tree(&self, runner: &mut TestRunner) -> NewTree<Self> {
        if FUZZING.with(|f| f.get()) {
            let total: u32 = self.options.iter().map(|o| o.0).sum();
            let mut pick = (0..total).new_tree(runner)?.current();
            for (weight, option) in self.options.iter() {
                if pick < *weight {
                    return option.new_tree(runner);
                }
                pick -= weight;
            }
            unreachable!()
        }
        Ok(Box::new(self.union.new_tree(runner)?))
    }
}

#[macro_export]
macro_rules! one_of {
    ($($weight:expr => $item:expr),+ $(,)?) => {
        $crate::engine::OneOf::new(vec![$(($weight, proptest::strategy::Strategy::boxed($item))),+])
    };
    ($($item:expr),+ $(,)?) => {
        $crate::engine::OneOf::new(vec![$((1, proptest::strategy::Strategy::boxed($item))),+])
    };
}

// ---------------------------------------------------------------------------------------------
// running a property

pub struct Property {
    pub id: &'static str,
    pub suites: Vec<Box<dyn DynSuite>>,
}

pub struct SuiteReport {
    pub name: &'static str,
    pub rule: &'static str,
    pub stats: Stats,
    pub distinct: u64,
    pub failure: Option<Failure>,
    pub errors: Vec<String>,
}

/// The work split is fixed, so results do not depend on the number of threads.
const CHUNKS: u64 = 16;

/// Cases which take seconds or gigabytes. They run in processes of their own, where running out of time or memory (which says more
/// about the size of the case than about the property) is not an answer, rather than a violation.
pub fn is_heavy(suite: &str) -> bool {
    suite.ends_with("_huge")
        || suite.contains("_giant")
        || suite.contains("_largest")
        || ["c16_up_to_limit", "c17_large_slices", "c17_many_distinct", "c18_large"].contains(&suite)
}

pub fn run_property(p: &Property, seed: u64, thorough: bool, scale: f64, threads: usize) -> Vec<SuiteReport> {
    let mut jobs = vec![];
    for (si, s) in p.suites.iter().enumerate() {
        let total = ((s.cases(thorough) as f64) * scale).ceil() as u64;
        let chunks = CHUNKS.min(total.max(1));
        for c in 0..chunks {
            let n = total / chunks + u64::from(c < total % chunks);
            if n > 0 {
                jobs.push((si, c, n));
            }
        }
    }
    // all suites make progress together
    jobs.sort_by_key(|(_, c, _)| *c);
    let next = std::sync::atomic::AtomicUsize::new(0);
    let results = std::sync::Mutex::new(BTreeMap::new());
    std::thread::scope(|sc| {
        for t in 0..threads.min(MAX_SLOTS) {
            let (next, jobs, results) = (&next, &jobs, &results);
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(sc, move || {
                    SLOT.with(|s| s.set(t));
                    loop {
                        let j = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                        let Some(&(si, c, n)) = jobs.get(j) else { break };
                        if past_deadline() {
                            continue;
                        }
                        let r = p.suites[si].run_chunk(seed, c, n);
                        results.lock().unwrap().insert((si, c), r);
                    }
                    STEPS[t].store(u64::MAX, std::sync::atomic::Ordering::Relaxed);
                    if let Some(f) = TRACE.get() {
                        write_record(f, t, "");
                    }
                })
                .unwrap();
        }
    });
    let mut out: Vec<SuiteReport> = p
        .suites
        .iter()
        .map(|s| SuiteReport {
            name: s.name(),
            rule: s.rule(),
            stats: Stats::default(),
            distinct: 0,
            failure: None,
            errors: vec![],
        })
        .collect();
    for ((si, _), r) in results.into_inner().unwrap() {
        let o = &mut out[si];
        o.stats.evals += r.stats.evals;
        o.stats.nontrivial += r.stats.nontrivial;
        o.stats.hashes.extend(r.stats.hashes);
        for (k, v) in r.stats.labels {
            *o.stats.labels.entry(k).or_insert(0) += v;
        }
        for (k, v) in r.stats.known {
            *o.stats.known.entry(k).or_insert(0) += v;
        }
        if o.stats.samples.len() < 3 {
            o.stats.samples.extend(r.stats.samples.into_iter().take(1));
        }
        // keep the smallest failing case
        if let Some(f) = r.failure {
            if o.failure.as_ref().map(|g| f.pretty.len() < g.pretty.len()).unwrap_or(true) {
                o.failure = Some(f);
            }
        }
        o.errors.extend(r.error);
    }
    for o in &mut out {
        o.stats.hashes.sort_unstable();
        o.stats.hashes.dedup();
        o.distinct = o.stats.hashes.len() as u64;
    }
    out
}
