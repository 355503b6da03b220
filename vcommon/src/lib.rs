//! Shared machinery of the checks: seeded proptest runs over several shards,
//! shrinking, replay files, evidence, known findings, crash containment.

use proptest::{
    strategy::{BoxedStrategy, Strategy},
    test_runner::{Config, TestCaseError, TestError, TestRng, TestRunner},
};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::{
    cell::RefCell,
    collections::{BTreeMap, BTreeSet, HashSet},
    fmt::Debug,
    fs,
    hash::{Hash, Hasher},
    io::Write,
    panic::{catch_unwind, AssertUnwindSafe},
    path::{Path, PathBuf},
    sync::{
        atomic::{AtomicBool, Ordering},
        Arc, Mutex,
    },
    time::{Duration, Instant},
};

pub use proptest;

/// Fail the current case with a message
#[macro_export]
macro_rules! fail {
    ($($arg:tt)*) => { return Err(format!($($arg)*)) };
}
/// Fail the current case unless a condition holds
#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)*) => { if !$cond { return Err(format!($($arg)*)); } };
    ($cond:expr) => { if !$cond { return Err(format!("{} does not hold", stringify!($cond))); } };
}
/// Fail the current case unless two values are equal
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($arg:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b {
            return Err(format!("{}: got {:?}, expected {:?}", format!($($arg)*), a, b));
        }
    }};
    ($a:expr, $b:expr) => {{
        let (a, b) = (&$a, &$b);
        if a != b {
            return Err(format!("{} = {:?}, expected {:?}", stringify!($a), a, b));
        }
    }};
}

/// Outcome of a case: Err describes how the property was violated
pub type CaseResult = Result<(), String>;

/// Bookkeeping for one generated case
#[derive(Default)]
pub struct Case {
    pub nontrivial: bool,
    pub labels: Vec<String>,
    /// Number of elementary checks made within this case (0 means 1)
    pub evals: u64,
    /// Known-finding signatures met
    pub known: Vec<String>,
}
impl Case {
    pub fn label(&mut self, l: impl Into<String>) {
        self.labels.push(l.into());
    }
    pub fn label_if(&mut self, c: bool, l: &str) {
        if c {
            self.labels.push(l.into());
        }
    }
    pub fn nontrivial(&mut self, c: bool) {
        self.nontrivial |= c;
    }
}

/// Run environment
pub struct Env {
    pub prop: String,
    pub thorough: bool,
    pub seed: u64,
    pub verif: PathBuf,
    /// Binary directory of the binaries built from /repo
    pub bins: PathBuf,
    /// Scratch directory, removed at the end
    pub scratch: PathBuf,
    known: BTreeMap<String, String>,
}
impl Env {
    pub fn pick<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }
}

const SHARDS: u64 = 8;

/// A sub-check of a property
pub trait Sub: Send + Sync {
    fn name(&self) -> &str;
    fn rule(&self) -> &str;
    fn run(&self, env: &Env, out: &mut Outcome);
    fn replay(&self, env: &Env, value: serde_json::Value) -> Result<Case, String>;
    /// Seconds after which a case that does not end is a violation
    fn hang(&self) -> Option<u64> {
        None
    }
}

#[derive(Default)]
pub struct Outcome {
    evaluations: u64,
    cases: u64,
    distinct: u64,
    labels: BTreeMap<String, u64>,
    samples: Vec<serde_json::Value>,
    rules: Vec<String>,
    subs: Vec<serde_json::Value>,
    known: BTreeMap<String, u64>,
    violations: Vec<(PathBuf, String)>,
}

type TestFn<V> = dyn Fn(&Env, &V, &mut Case) -> CaseResult + Send + Sync;

/// Proptest-driven sub-check
pub struct PropSub<V: Debug + Clone + 'static> {
    name: String,
    rule: String,
    quick: u32,
    thorough: u32,
    shards: u64,
    crashy: bool,
    hang: Option<u64>,
    shrink: u32,
    strat: Box<dyn Fn(&Env) -> BoxedStrategy<V> + Send + Sync>,
    test: Box<TestFn<V>>,
}

/// Build a proptest-driven sub-check
pub fn sub<V, S>(
    name: &str,
    rule: &str,
    (quick, thorough): (u32, u32),
    strat: impl Fn(&Env) -> S + Send + Sync + 'static,
    test: impl Fn(&Env, &V, &mut Case) -> CaseResult + Send + Sync + 'static,
) -> PropSub<V>
where
    V: Debug + Clone + 'static,
    S: Strategy<Value = V> + 'static,
{
    PropSub {
        name: name.into(),
        rule: rule.into(),
        quick,
        thorough,
        shards: SHARDS,
        crashy: false,
        hang: None,
        shrink: 8192,
        strat: Box::new(move |e| strat(e).boxed()),
        test: Box::new(test),
    }
}
impl<V: Debug + Clone + 'static> PropSub<V> {
    /// The code under test may abort the process: record each case first
    pub fn crashy(mut self) -> Self {
        self.crashy = true;
        self
    }
    /// A case which lasts that many seconds is a violation (confirmed by running it alone)
    pub fn hang(mut self, secs: u64) -> Self {
        self.hang = Some(secs);
        self
    }
    /// Set the number of parallel shards
    pub fn shards(mut self, n: u64) -> Self {
        self.shards = n;
        self
    }
    /// Set the maximal number of shrinking steps
    pub fn shrink(mut self, n: u32) -> Self {
        self.shrink = n;
        self
    }
}

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}
/// Panics of threads other than the one running a case
pub static OTHER_PANICS: Mutex<Vec<String>> = Mutex::new(Vec::new());

fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let text = format!("panic at {loc}: {msg}");
        if std::thread::current().name().is_some_and(|n| n.starts_with("shard")) {
            LAST_PANIC.with(|p| *p.borrow_mut() = Some(text));
        } else if std::thread::current().name() == Some("main") {
            eprintln!("{text}");
        } else {
            OTHER_PANICS.lock().unwrap_or_else(|e| e.into_inner()).push(text);
        }
    }));
}

/// Run a closure, turning a panic into an error
pub fn no_panic<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    LAST_PANIC.with(|p| p.borrow_mut().take());
    catch_unwind(AssertUnwindSafe(f))
        .map_err(|_| LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into()))
}

#[derive(Default)]
struct ShardOut {
    evals: u64,
    cases: u64,
    distinct: HashSet<u64>,
    labels: BTreeMap<String, u64>,
    samples: Vec<serde_json::Value>,
    known: BTreeMap<String, u64>,
    failure: Option<(serde_json::Value, String)>,
    aborted: Option<String>,
}

fn fnv(bytes: &[u8]) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    bytes.hash(&mut h);
    h.finish()
}

fn seed_bytes(env: &Env, sub: &str, shard: u64) -> [u8; 32] {
    let mut out = [0u8; 32];
    for (i, chunk) in out.chunks_mut(8).enumerate() {
        let h = fnv(format!("{}/{}/{}/{}/{}", env.prop, sub, env.seed, shard, i).as_bytes());
        chunk.copy_from_slice(&h.to_le_bytes());
    }
    out
}

fn truncated(v: serde_json::Value) -> serde_json::Value {
    let s = v.to_string();
    if s.len() <= 1500 {
        v
    } else {
        let mut end = 1500;
        while !s.is_char_boundary(end) {
            end -= 1;
        }
        serde_json::Value::String(format!("{}... ({} bytes)", &s[..end], s.len()))
    }
}

impl<V: Debug + Clone + Serialize + DeserializeOwned + 'static> PropSub<V> {
    fn one(&self, env: &Env, v: &V, case: &mut Case) -> CaseResult {
        match no_panic(|| (self.test)(env, v, case)) {
            Ok(r) => r,
            Err(p) => Err(p),
        }
    }

    fn shard(&self, env: &Env, shard: u64, cases: u32, stop: &AtomicBool, running: &Mutex<Option<(Instant, serde_json::Value)>>) -> ShardOut {
        let out = RefCell::new(ShardOut::default());
        let mut runner = TestRunner::new_with_rng(
            Config {
                cases,
                failure_persistence: None,
                max_shrink_iters: std::env::var("VERIF_SHRINK").ok().and_then(|x| x.parse().ok()).unwrap_or(self.shrink),
                max_shrink_time: 120_000,
                max_global_rejects: cases.saturating_mul(20).saturating_add(1000),
                max_local_rejects: 1_000_000,
                verbose: 0,
                source_file: None,
                ..Config::default()
            },
            TestRng::from_seed(proptest::test_runner::RngAlgorithm::ChaCha, &seed_bytes(env, &self.name, shard)),
        );
        let failed = std::cell::Cell::new(false);
        let cur = (self.crashy || std::env::var_os("VERIF_CRASHY").is_some()).then(|| current_file(env, &self.name, shard));
        let strat = (self.strat)(env);
        let result = runner.run(&strat, |v| {
            if !failed.get() && stop.load(Ordering::Relaxed) {
                return Ok(());
            }
            if let Some(cur) = &cur {
                let _ = fs::write(cur, serde_json::to_vec(&v).unwrap_or_default());
            }
            let mut case = Case::default();
            if self.hang.is_some() {
                *running.lock().unwrap() = Some((Instant::now(), serde_json::to_value(&v).unwrap_or(serde_json::Value::Null)));
            }
            let res = self.one(env, &v, &mut case);
            if self.hang.is_some() {
                *running.lock().unwrap() = None;
            }
            // Known findings
            let mut res = res;
            for k in &case.known {
                if env.known.contains_key(k) {
                    if !failed.get() {
                        *out.borrow_mut().known.entry(k.clone()).or_default() += 1;
                    }
                } else if res.is_ok() {
                    res = Err(format!("deviation with signature {k} which is not a known finding"));
                }
            }
            if !failed.get() {
                let mut out = out.borrow_mut();
                out.cases += 1;
                out.evals += case.evals.max(1);
                for l in &case.labels {
                    *out.labels.entry(l.clone()).or_default() += 1;
                }
                if case.nontrivial {
                    let json = serde_json::to_value(&v).unwrap_or(serde_json::Value::Null);
                    let h = fnv(json.to_string().as_bytes());
                    let new = out.distinct.insert(h);
                    if new && shard == 0 && (out.samples.len() < 2 || (out.samples.len() < 4 && h % 61 == 0)) {
                        out.samples.push(truncated(json));
                    }
                }
            }
            match res {
                Ok(()) => Ok(()),
                Err(m) => {
                    failed.set(true);
                    stop.store(true, Ordering::Relaxed);
                    Err(TestCaseError::fail(m))
                }
            }
        });
        let mut out = out.into_inner();
        match result {
            Ok(()) => {}
            Err(TestError::Fail(reason, v)) => {
                // Prefer the message of the minimal case
                let mut case = Case::default();
                if self.hang.is_some() {
                    *running.lock().unwrap() = Some((Instant::now(), serde_json::to_value(&v).unwrap_or(serde_json::Value::Null)));
                }
                let msg = self.one(env, &v, &mut case).err().unwrap_or_else(|| reason.message().to_string());
                out.failure = Some((serde_json::to_value(&v).unwrap_or(serde_json::Value::Null), msg));
            }
            Err(TestError::Abort(r)) => out.aborted = Some(r.message().to_string()),
        }
        if let Some(cur) = cur {
            let _ = fs::remove_file(cur);
        }
        *running.lock().unwrap() = None;
        out
    }
}

fn current_file(env: &Env, sub: &str, shard: u64) -> PathBuf {
    env.scratch.join(format!("cur.{sub}.{shard}"))
}

impl<V: Debug + Clone + Serialize + DeserializeOwned + Send + 'static> Sub for PropSub<V> {
    fn name(&self) -> &str {
        &self.name
    }
    fn rule(&self) -> &str {
        &self.rule
    }
    fn run(&self, env: &Env, total: &mut Outcome) {
        let t0 = Instant::now();
        let cases = env.pick(self.quick, self.thorough);
        let per = ((cases as u64 + self.shards - 1) / self.shards).max(1) as u32;
        let stop = Arc::new(AtomicBool::new(false));
        let running: Vec<Mutex<Option<(Instant, serde_json::Value)>>> = (0..self.shards).map(|_| Mutex::new(None)).collect();
        let done = AtomicBool::new(false);
        let outs: Vec<ShardOut> = std::thread::scope(|s| {
            if let Some(secs) = self.hang {
                let (running, done) = (&running, &done);
                s.spawn(move || {
                    while !done.load(Ordering::Relaxed) {
                        std::thread::sleep(Duration::from_millis(100));
                        for r in running {
                            let stuck = r.lock().unwrap().as_ref().filter(|(t, _)| t.elapsed() > Duration::from_secs(secs)).map(|(_, v)| v.clone());
                            if let Some(v) = stuck {
                                report_hang(env, &self.name, v, secs, t0);
                            }
                        }
                    }
                });
            }
            let handles: Vec<_> = (0..self.shards)
                .map(|i| {
                    let stop = stop.clone();
                    let running = &running[i as usize];
                    std::thread::Builder::new()
                        .name(format!("shard{i}"))
                        .stack_size(64 << 20)
                        .spawn_scoped(s, move || {
                            // Generators may panic too
                            no_panic(|| self.shard(env, i, per, &stop, running)).unwrap_or_else(|e| ShardOut { aborted: Some(e), ..ShardOut::default() })
                        })
                        .expect("spawn shard")
                })
                .collect();
            let outs = handles.into_iter().map(|h| h.join().expect("shard thread died")).collect();
            done.store(true, Ordering::Relaxed);
            outs
        });
        let mut distinct = HashSet::new();
        let mut labels: BTreeMap<String, u64> = BTreeMap::new();
        let (mut evals, mut ncases) = (0, 0);
        let mut samples = vec![];
        for mut o in outs {
            evals += o.evals;
            ncases += o.cases;
            distinct.extend(o.distinct.drain());
            for (l, n) in o.labels {
                *labels.entry(l).or_default() += n;
            }
            for (k, n) in o.known {
                *total.known.entry(k).or_default() += n;
            }
            samples.append(&mut o.samples);
            if let Some(a) = o.aborted {
                eprintln!("ERROR: {} of {} gave up generating cases: {a}", self.name, env.prop);
                finish_scratch(env);
                std::process::exit(3);
            }
            if let Some((v, msg)) = o.failure {
                let path = write_replay(env, &self.name, &v, &msg);
                total.violations.push((path, msg));
            }
        }
        total.evaluations += evals;
        total.cases += ncases;
        total.distinct += distinct.len() as u64;
        for (l, n) in &labels {
            *total.labels.entry(format!("{}/{}", self.name, l)).or_default() += n;
        }
        for s in samples {
            total.samples.push(serde_json::json!({"sub": self.name, "case": s}));
        }
        total.rules.push(format!("[{}] {}", self.name, self.rule));
        total.subs.push(serde_json::json!({
            "sub": self.name, "cases": ncases, "evaluations": evals,
            "distinct_nontrivial": distinct.len(), "wall_s": t0.elapsed().as_secs_f64()
        }));
    }
    fn replay(&self, env: &Env, value: serde_json::Value) -> Result<Case, String> {
        let v: V = serde_json::from_value(value).map_err(|e| format!("bad replay value: {e}"))?;
        let mut case = Case::default();
        self.one(env, &v, &mut case)?;
        Ok(case)
    }
    fn hang(&self) -> Option<u64> {
        self.hang
    }
}

/// Sub-check which enumerates cases itself (finite spaces, regression corpora)
pub struct EnumSub {
    pub name: String,
    pub rule: String,
    #[allow(clippy::type_complexity)]
    pub cases: Box<dyn Fn(&Env) -> Vec<serde_json::Value> + Send + Sync>,
    pub test: Box<TestFn<serde_json::Value>>,
}
pub fn enumerated<V: Serialize + DeserializeOwned + 'static>(
    name: &str,
    rule: &str,
    cases: impl Fn(&Env) -> Vec<V> + Send + Sync + 'static,
    test: impl Fn(&Env, &V, &mut Case) -> CaseResult + Send + Sync + 'static,
) -> EnumSub {
    EnumSub {
        name: name.into(),
        rule: rule.into(),
        cases: Box::new(move |e| cases(e).into_iter().map(|v| serde_json::to_value(v).unwrap()).collect()),
        test: Box::new(move |e, v, c| {
            let v: V = serde_json::from_value(v.clone()).map_err(|e| format!("bad case: {e}"))?;
            test(e, &v, c)
        }),
    }
}
impl Sub for EnumSub {
    fn name(&self) -> &str {
        &self.name
    }
    fn rule(&self) -> &str {
        &self.rule
    }
    fn run(&self, env: &Env, total: &mut Outcome) {
        let t0 = Instant::now();
        let cases = (self.cases)(env);
        let next = std::sync::atomic::AtomicUsize::new(0);
        let found: Mutex<Option<(serde_json::Value, String)>> = Mutex::new(None);
        let acc = Mutex::new((0u64, 0u64, HashSet::new(), BTreeMap::<String, u64>::new(), BTreeMap::<String, u64>::new()));
        std::thread::scope(|s| {
            for i in 0..SHARDS {
                let (cases, next, found, acc) = (&cases, &next, &found, &acc);
                std::thread::Builder::new()
                    .name(format!("shard{i}"))
                    .stack_size(64 << 20)
                    .spawn_scoped(s, move || loop {
                        let idx = next.fetch_add(1, Ordering::Relaxed);
                        if idx >= cases.len() || found.lock().unwrap().is_some() {
                            break;
                        }
                        let v = &cases[idx];
                        let mut case = Case::default();
                        let mut res = match no_panic(|| (self.test)(env, v, &mut case)) {
                            Ok(r) => r,
                            Err(p) => Err(p),
                        };
                        let mut acc = acc.lock().unwrap();
                        for k in &case.known {
                            if env.known.contains_key(k) {
                                *acc.4.entry(k.clone()).or_default() += 1;
                            } else if res.is_ok() {
                                res = Err(format!("deviation with signature {k} which is not a known finding"));
                            }
                        }
                        acc.0 += 1;
                        acc.1 += case.evals.max(1);
                        if case.nontrivial {
                            acc.2.insert(fnv(v.to_string().as_bytes()));
                        }
                        for l in case.labels {
                            *acc.3.entry(l).or_default() += 1;
                        }
                        if let Err(m) = res {
                            found.lock().unwrap().get_or_insert((v.clone(), m));
                        }
                    })
                    .expect("spawn shard");
            }
        });
        let (n, evals, distinct, labels, known) = acc.into_inner().unwrap();
        if let Some((v, msg)) = found.into_inner().unwrap() {
            let path = write_replay(env, &self.name, &v, &msg);
            total.violations.push((path, msg));
        }
        total.cases += n;
        total.evaluations += evals;
        total.distinct += distinct.len() as u64;
        for (k, n) in known {
            *total.known.entry(k).or_default() += n;
        }
        for (l, n) in labels {
            *total.labels.entry(format!("{}/{}", self.name, l)).or_default() += n;
        }
        for s in cases.iter().take(2) {
            total.samples.push(serde_json::json!({"sub": self.name, "case": truncated(s.clone())}));
        }
        total.rules.push(format!("[{}] {}", self.name, self.rule));
        total.subs.push(serde_json::json!({
            "sub": self.name, "cases": n, "evaluations": evals,
            "distinct_nontrivial": distinct.len(), "wall_s": t0.elapsed().as_secs_f64()
        }));
    }
    fn replay(&self, env: &Env, value: serde_json::Value) -> Result<Case, String> {
        let mut case = Case::default();
        match no_panic(|| (self.test)(env, &value, &mut case)) {
            Ok(r) => r.map(|()| case),
            Err(p) => Err(p),
        }
    }
}

#[derive(Serialize, Deserialize)]
struct Replay {
    property: String,
    sub: String,
    seed: u64,
    message: String,
    value: serde_json::Value,
}

fn write_replay(env: &Env, sub: &str, value: &serde_json::Value, msg: &str) -> PathBuf {
    let dir = env.verif.join("replays");
    let _ = fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-{}-{:016x}.json", env.prop, sub, fnv(value.to_string().as_bytes())));
    let r = Replay {
        property: env.prop.clone(),
        sub: sub.into(),
        seed: env.seed,
        message: msg.into(),
        value: value.clone(),
    };
    let _ = fs::write(&path, serde_json::to_vec_pretty(&r).unwrap());
    path
}

/// A case does not end: confirm by running it alone, then report
fn report_hang(env: &Env, sub: &str, value: serde_json::Value, secs: u64, t0: Instant) -> ! {
    let msg = format!("the case does not end within {secs} s");
    let replay = write_replay(env, sub, &value, &msg);
    let st = std::process::Command::new(std::env::current_exe().expect("own path"))
        .args(["replay", &replay.display().to_string()])
        .env("VERIF_SCRATCH", env.scratch.join("confirm"))
        .stdout(std::process::Stdio::null())
        .status();
    let code = if st.is_ok_and(|s| s.code() == Some(1)) {
        println!("{}: {msg}", env.prop);
        println!("VIOLATION property={} replay={}", env.prop, replay.display());
        let mut out = Outcome::default();
        out.evaluations = 1;
        out.violations.push((replay, msg));
        out.samples.push(truncated(value));
        out.rules.push("run cut short by a case that does not end".into());
        write_evidence(env, None, &out, t0.elapsed(), Some("hang".into()));
        1
    } else {
        eprintln!("ERROR: a case of {sub} took more than {secs} s, but not when run alone");
        let _ = fs::remove_file(&replay);
        3
    };
    let _ = std::io::stdout().flush();
    finish_scratch(env);
    std::process::exit(code)
}

fn finish_scratch(env: &Env) {
    let _ = fs::remove_dir_all(&env.scratch);
}

/// A property and its sub-checks
pub struct Prop {
    pub id: &'static str,
    pub assumptions: Vec<&'static str>,
    pub subs: Vec<Box<dyn Sub>>,
}

fn read_known(verif: &Path, prop: &str) -> BTreeMap<String, String> {
    let mut out = BTreeMap::new();
    if let Ok(text) = fs::read_to_string(verif.join("known-findings.txt")) {
        for line in text.lines() {
            // KNOWN property=<id> signature=<sig> <what fails>
            if let Some(rest) = line.strip_prefix("KNOWN property=") {
                let mut it = rest.splitn(3, ' ');
                let (id, sig, what) = (it.next().unwrap_or(""), it.next().unwrap_or(""), it.next().unwrap_or(""));
                if id == prop {
                    if let Some(sig) = sig.strip_prefix("signature=") {
                        out.insert(sig.to_string(), what.to_string());
                    }
                }
            }
        }
    }
    out
}

/// Entry point of a harness binary: `BIN check <id>` or `BIN replay <file>`
pub fn main(props: impl Fn() -> Vec<Prop> + Send + 'static) -> ! {
    let args: Vec<String> = std::env::args().collect();
    let usage = || -> ! {
        eprintln!("usage: {} check <id> | replay <file> | list", args[0]);
        std::process::exit(2)
    };
    let verif = PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()));
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough");
    let bins = PathBuf::from(std::env::var("VERIF_BINS").unwrap_or_else(|_| verif.join("target/debug").display().to_string()));
    let mk_env = |prop: &str| {
        let scratch = match std::env::var("VERIF_SCRATCH") {
            Ok(s) => PathBuf::from(s),
            Err(_) => std::env::temp_dir().join(format!("vh-{}-{}", prop, std::process::id())),
        };
        let _ = fs::create_dir_all(&scratch);
        Env { prop: prop.into(), thorough, seed, verif: verif.clone(), bins: bins.clone(), scratch, known: read_known(&verif, prop) }
    };
    match args.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for p in props() {
                println!("{}", p.id);
            }
            std::process::exit(0)
        }
        Some("check") => {
            let id = args.get(2).cloned().unwrap_or_else(|| usage());
            let env = mk_env(&id);
            if std::env::var("VERIF_CHILD").is_ok() {
                child(&env, props())
            } else {
                parent(&env, &args)
            }
        }
        Some("replay") => {
            let file = args.get(2).cloned().unwrap_or_else(|| usage());
            let r: Replay = serde_json::from_slice(&fs::read(&file).expect("replay file")).expect("replay format");
            let env = mk_env(&r.property);
            install_panic_hook();
            {
                let hang = props().iter().filter(|p| p.id == r.property).flat_map(|p| p.subs.iter()).find(|s| s.name() == r.sub).and_then(|s| s.hang());
                if let Some(secs) = hang {
                    let (id, file, scratch) = (r.property.clone(), file.clone(), env.scratch.clone());
                    std::thread::spawn(move || {
                        std::thread::sleep(Duration::from_secs(secs));
                        println!("replay: the case does not end within {secs} s");
                        println!("VIOLATION property={id} replay={file}");
                        let _ = fs::remove_dir_all(scratch);
                        std::process::exit(1)
                    });
                }
            }
            let code = std::thread::Builder::new()
                .name("shard-replay".into())
                .stack_size(64 << 20)
                .spawn(move || {
                    for p in props() {
                        if p.id == r.property {
                            for s in &p.subs {
                                if s.name() == r.sub {
                                    return match s.replay(&env, r.value.clone()) {
                                        Ok(_) => {
                                            println!("replay: property {} holds on this case", r.property);
                                            finish_scratch(&env);
                                            0
                                        }
                                        Err(m) => {
                                            println!("replay: {m}");
                                            println!("VIOLATION property={} replay={}", r.property, file);
                                            finish_scratch(&env);
                                            1
                                        }
                                    };
                                }
                            }
                        }
                    }
                    eprintln!("no such sub-check");
                    2
                })
                .unwrap()
                .join()
                .unwrap_or(2);
            std::process::exit(code)
        }
        _ => usage(),
    }
}

fn write_evidence(env: &Env, props: Option<&Prop>, out: &Outcome, wall: Duration, note: Option<String>) {
    let dir = env.verif.join("evidence");
    let _ = fs::create_dir_all(&dir);
    let mut cov = serde_json::json!({
        "evaluations": out.evaluations,
        "cases": out.cases,
        "distinct_nontrivial": out.distinct,
        "rule": out.rules.join("  "),
        "samples": out.samples,
        "sub_checks": out.subs,
        "classes": out.labels,
        "known_findings_met": out.known,
    });
    if let Some(n) = note {
        cov["explanation"] = n.into();
    }
    if !out.violations.is_empty() {
        cov["violation_messages"] = out.violations.iter().map(|v| serde_json::json!({"replay": v.0, "message": v.1})).collect();
    }
    let ev = serde_json::json!({
        "property": env.prop,
        "tier": if env.thorough { "thorough" } else { "quick" },
        "seed": env.seed,
        "level": "exploration",
        "coverage": cov,
        "assumptions": props.map(|p| p.assumptions.clone()).unwrap_or_default(),
        "wall_s": wall.as_secs_f64(),
        "violations": out.violations.len(),
    });
    let _ = fs::write(dir.join(format!("{}.json", env.prop)), serde_json::to_vec_pretty(&ev).unwrap());
}

fn child(env: &Env, props: Vec<Prop>) -> ! {
    install_panic_hook();
    let t0 = Instant::now();
    let Some(prop) = props.into_iter().find(|p| p.id == env.prop) else {
        eprintln!("no check for property {}", env.prop);
        std::process::exit(2)
    };
    let only = std::env::var("VERIF_SUB").ok();
    let mut out = Outcome::default();
    let mut names = BTreeSet::new();
    for s in &prop.subs {
        assert!(names.insert(s.name().to_string()), "duplicate sub-check name");
        if only.as_ref().is_some_and(|o| o != s.name()) {
            continue;
        }
        s.run(env, &mut out);
        if !out.violations.is_empty() {
            break;
        }
    }
    write_evidence(env, Some(&prop), &out, t0.elapsed(), None);
    let stdout = std::io::stdout();
    let mut stdout = stdout.lock();
    for (sig, what) in &env.known {
        let n = out.known.get(sig).copied().unwrap_or(0);
        let _ = writeln!(stdout, "KNOWN-FINDING: property={} {} ({} cases of this run met it)", env.prop, what, n);
    }
    for s in &out.subs {
        let _ = writeln!(stdout, "{} {}", env.prop, s);
    }
    if std::env::var("VERIF_LABELS").is_ok() {
        for (l, n) in &out.labels {
            let _ = writeln!(stdout, "  {l}: {n}");
        }
    }
    let code = if out.violations.is_empty() {
        let _ = writeln!(
            stdout,
            "{}: held on {} evaluations, {} distinct non-trivial cases",
            env.prop, out.evaluations, out.distinct
        );
        0
    } else {
        for (path, msg) in &out.violations {
            let _ = writeln!(stdout, "{}: {}", env.prop, msg);
            let _ = writeln!(stdout, "VIOLATION property={} replay={}", env.prop, path.display());
        }
        1
    };
    let _ = stdout.flush();
    std::process::exit(code)
}

/// Supervise the process that runs the cases: if the code under test brings it
/// down (stack overflow, abort), find the case that does it and report it
fn parent(env: &Env, args: &[String]) -> ! {
    use std::os::unix::process::ExitStatusExt;
    use std::process::Command;
    let t0 = Instant::now();
    let budget = Duration::from_secs(
        std::env::var("VERIF_BUDGET").ok().and_then(|s| s.parse().ok()).unwrap_or(if env.thorough { 6 * 3600 } else { 780 }),
    );
    let run = |crashy: bool, cmd: &[&str], budget: Duration| -> Option<std::process::ExitStatus> {
        let mut c = Command::new(std::env::current_exe().expect("own path"));
        c.args(cmd).env("VERIF_CHILD", "1").env("VERIF_SCRATCH", &env.scratch);
        if crashy {
            c.env("VERIF_CRASHY", "1");
        }
        let mut ch = c.spawn().expect("spawn child");
        let start = Instant::now();
        loop {
            if let Some(st) = ch.try_wait().expect("wait child") {
                return Some(st);
            }
            if start.elapsed() > budget {
                let _ = ch.kill();
                let _ = ch.wait();
                return None;
            }
            std::thread::sleep(Duration::from_millis(20));
        }
    };
    let deadly = |st: &std::process::ExitStatus| st.signal().is_some_and(|s| [4, 6, 7, 8, 9, 11].contains(&s));
    let mut st = run(false, &["check", &args[2]], budget);
    if st.as_ref().is_some_and(deadly) {
        // Again, with all cases noted down
        st = run(true, &["check", &args[2]], budget.saturating_sub(t0.elapsed()));
    }
    let code = match st {
        None => {
            eprintln!("ERROR: inconclusive, the time budget of this check is used up");
            3
        }
        Some(st) => match (st.code(), st.signal()) {
            (Some(c @ (0 | 1)), _) => c,
            (Some(c), _) => {
                eprintln!("ERROR: check process exited with {c}");
                c
            }
            (None, Some(sig)) => {
                eprintln!("check process died from signal {sig}");
                let mut code = 3;
                if deadly(&ExitStatusExt::from_raw(sig)) {
                    // Abort, segfault and friends: which of the cases that were running does it?
                    let mut files: Vec<_> = fs::read_dir(&env.scratch)
                        .map(|d| d.flatten().map(|e| e.path()).collect())
                        .unwrap_or_default();
                    files.sort();
                    for f in files {
                        let name = f.file_name().unwrap().to_string_lossy().to_string();
                        let Some(rest) = name.strip_prefix("cur.") else { continue };
                        let Some((sub, _)) = rest.rsplit_once('.') else { continue };
                        let Ok(value) = serde_json::from_slice(&fs::read(&f).unwrap_or_default()) else { continue };
                        let replay = write_replay(env, sub, &value, "the process is brought down by this case");
                        let st = run(false, &["replay", &replay.display().to_string()], Duration::from_secs(120));
                        if st.as_ref().is_some_and(deadly) {
                            println!("{}: the process is brought down by signal {sig} on a case", env.prop);
                            println!("VIOLATION property={} replay={}", env.prop, replay.display());
                            let mut out = Outcome::default();
                            out.evaluations = 1;
                            out.violations.push((replay, format!("died from signal {sig}")));
                            out.samples.push(truncated(value));
                            out.rules.push("run cut short by a crash of the code under test".into());
                            write_evidence(env, None, &out, t0.elapsed(), Some("crash".into()));
                            code = 1;
                            break;
                        } else {
                            let _ = fs::remove_file(&replay);
                        }
                    }
                }
                code
            }
            _ => 3,
        },
    };
    finish_scratch(env);
    std::process::exit(code)
}
