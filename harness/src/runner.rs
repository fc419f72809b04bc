//! Drives a property: regression inputs, generated cases on several threads,
//! shrinking, replay files and evidence.

use std::{
    any::Any,
    cell::RefCell,
    collections::{BTreeMap, HashSet},
    fmt::Debug,
    fs,
    hash::{Hash, Hasher},
    panic::{catch_unwind, AssertUnwindSafe},
    path::{Path, PathBuf},
    process::exit,
    sync::{
        atomic::{AtomicBool, Ordering},
        mpsc, Arc, Mutex,
    },
    thread,
    time::{Duration, Instant},
};

use proptest::{
    strategy::{BoxedStrategy, Strategy, ValueTree},
    test_runner::{Config, RngAlgorithm, TestRng, TestRunner},
};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};

use crate::refmodel::keccak;

const SHARDS: u64 = 8;
const SHRINK_STEPS: usize = 50_000;
const SHRINK_TIME: Duration = Duration::from_secs(20);
const STACK: usize = 256 << 20;

#[derive(Clone, Copy, Debug, Eq, PartialEq)]
pub enum Tier {
    Quick,
    Thorough,
}

/// What a single evaluation reports besides its verdict.
#[derive(Default)]
pub struct Obs {
    pub nontrivial: bool,
    labels: Vec<&'static str>,
}

impl Obs {
    pub fn label(&mut self, l: &'static str) {
        self.labels.push(l);
    }

    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.labels.push(l);
        }
    }
}

pub type Verdict = Result<(), String>;

pub trait Property: 'static {
    type Case: Clone + Debug + Hash + Serialize + DeserializeOwned + Send + Sync + 'static;
    const ID: &'static str;
    /// Generated cases in the quick tier.
    const QUICK: u64;
    /// How many times as many cases the thorough tier runs.
    const THOROUGH_FACTOR: u64 = 12;
    /// How cases are made, and what makes one non-trivial.
    const RULE: &'static str;
    const ASSUMPTIONS: &'static [&'static str] = &[];

    fn strategy(tier: Tier) -> BoxedStrategy<Self::Case>;
    fn check(case: &Self::Case, obs: &mut Obs) -> Verdict;
}

pub struct Opts {
    pub tier: Tier,
    pub seed: u64,
    pub root: PathBuf,
    pub replay: Option<PathBuf>,
    /// Name of this build; `Some` for a second run of the same property in
    /// another build, whose evidence is added to that of the first.
    pub second_build: Option<String>,
    pub cases: Option<u64>,
}

thread_local! {
    static PANIC_AT: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn silence_panics() {
    std::panic::set_hook(Box::new(|info| {
        let at = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        PANIC_AT.with(|p| *p.borrow_mut() = at);
    }));
}

fn panic_text(p: &(dyn Any + Send)) -> String {
    let msg = p
        .downcast_ref::<String>()
        .cloned()
        .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
        .unwrap_or_else(|| "(no message)".into());
    let msg: String = msg.chars().take(300).collect();
    PANIC_AT.with(|at| format!("{msg} [{}]", at.borrow()))
}

/// Runs library code that may panic. `Err` is the panic's text.
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|p| panic_text(&*p))
}

pub fn eval<P: Property>(case: &P::Case, obs: &mut Obs) -> Verdict {
    match guarded(|| P::check(case, obs)) {
        Ok(v) => v,
        Err(p) => Err(format!("unexpected panic: {p}")),
    }
}

fn case_hash<C: Hash>(c: &C) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    c.hash(&mut h);
    h.finish()
}

fn shard_seed(seed: u64, id: &str, build: &str, shard: u64) -> [u8; 32] {
    keccak(format!("{seed}/{id}/{build}/{shard}").as_bytes())
}

struct ShardResult {
    evaluations: u64,
    distinct: HashSet<u64>,
    labels: BTreeMap<&'static str, u64>,
    samples: Vec<Value>,
    capped: bool,
}

enum Msg<C> {
    Failed { case: C, error: String },
    Shrunk,
    Done(ShardResult),
}

fn sample_value<C: Serialize>(c: &C) -> Value {
    let v = serde_json::to_value(c).unwrap_or(Value::Null);
    let s = v.to_string();
    match s.chars().count() {
        0..=1500 => v,
        n => Value::String(format!(
            "{}... ({n} characters)",
            s.chars().take(1500).collect::<String>()
        )),
    }
}

pub fn run<P: Property>(opts: Opts) -> ! {
    silence_panics();
    if let Some(path) = &opts.replay {
        replay::<P>(path);
    }

    let start = Instant::now();
    let (cap, watchdog) = match opts.tier {
        Tier::Quick => (Duration::from_secs(240), Duration::from_secs(600)),
        Tier::Thorough => (Duration::from_secs(600), Duration::from_secs(840)),
    };
    thread::spawn(move || {
        thread::sleep(watchdog);
        eprintln!("watchdog: no result after {watchdog:?}");
        exit(3);
    });

    let (n_regressions, bad) = regressions::<P>(&opts);
    if let Some((path, err)) = bad {
        eprintln!("{err}");
        evidence::<P>(&opts, &[], 1, n_regressions, start);
        println!("VIOLATION property={} replay={}", P::ID, path.display());
        exit(1);
    }

    let total = opts.cases.unwrap_or(match opts.tier {
        Tier::Quick => P::QUICK,
        Tier::Thorough => P::QUICK * P::THOROUGH_FACTOR,
    });
    let stop = Arc::new(AtomicBool::new(false));
    let best: Arc<Mutex<Option<(P::Case, String)>>> = Arc::default();
    let (tx, rx) = mpsc::channel();

    for shard in 0..SHARDS {
        let n = total / SHARDS + u64::from(shard < total % SHARDS);
        let seed = shard_seed(
            opts.seed,
            P::ID,
            opts.second_build.as_deref().unwrap_or(""),
            shard,
        );
        let (tx, stop, best, tier) = (tx.clone(), stop.clone(), best.clone(), opts.tier);
        thread::Builder::new()
            .stack_size(STACK)
            .spawn(move || run_shard::<P>(n, seed, tier, start, cap, stop, best, tx))
            .expect("cannot start a thread");
    }
    drop(tx);

    let mut results = Vec::new();
    for msg in &rx {
        match msg {
            Msg::Done(r) => results.push(r),
            Msg::Shrunk => (),
            Msg::Failed { case, error } => {
                // The failing shard goes on to shrink; do not wait for ever.
                let end = Instant::now() + 2 * SHRINK_TIME + Duration::from_secs(20);
                while let Ok(m) = rx.recv_timeout(end.saturating_duration_since(Instant::now())) {
                    match m {
                        Msg::Shrunk => break,
                        Msg::Done(r) => results.push(r),
                        Msg::Failed { .. } => (),
                    }
                }
                let (case, error) = best.lock().unwrap().take().unwrap_or((case, error));
                let path = write_replay::<P>(&opts, &case, &error);
                eprintln!("{error}\n{case:?}");
                evidence::<P>(&opts, &results, 1, n_regressions, start);
                println!("VIOLATION property={} replay={}", P::ID, path.display());
                exit(1);
            }
        }
    }

    if results.len() != SHARDS as usize {
        eprintln!("a worker thread died");
        exit(3);
    }
    evidence::<P>(&opts, &results, 0, n_regressions, start);
    println!(
        "{} held: {} cases, {} distinct non-trivial, {:.1} s",
        P::ID,
        results.iter().map(|r| r.evaluations).sum::<u64>(),
        distinct(&results),
        start.elapsed().as_secs_f64()
    );
    exit(0);
}

#[allow(clippy::too_many_arguments)]
fn run_shard<P: Property>(
    n: u64,
    seed: [u8; 32],
    tier: Tier,
    start: Instant,
    cap: Duration,
    stop: Arc<AtomicBool>,
    best: Arc<Mutex<Option<(P::Case, String)>>>,
    tx: mpsc::Sender<Msg<P::Case>>,
) {
    let mut runner = TestRunner::new_with_rng(
        Config::default(),
        TestRng::from_seed(RngAlgorithm::ChaCha, &seed),
    );
    let strategy = P::strategy(tier);
    let mut r = ShardResult {
        evaluations: 0,
        distinct: HashSet::new(),
        labels: BTreeMap::new(),
        samples: Vec::new(),
        capped: false,
    };

    for i in 0..n {
        if stop.load(Ordering::Relaxed) {
            break;
        }
        if start.elapsed() > cap {
            r.capped = true;
            break;
        }
        let mut tree = strategy.new_tree(&mut runner).expect("generator failed");
        let case = tree.current();
        let mut obs = Obs::default();
        let verdict = eval::<P>(&case, &mut obs);
        r.evaluations += 1;
        // A label counts once per case, although both trie types may set it.
        obs.labels.sort_unstable();
        obs.labels.dedup();
        for l in obs.labels {
            *r.labels.entry(l).or_default() += 1;
        }
        if obs.nontrivial && r.distinct.insert(case_hash(&case)) {
            let wanted = match r.samples.len() {
                0 => true,
                1 => i >= n / 2,
                _ => false,
            };
            if wanted {
                r.samples.push(sample_value(&case));
            }
        }

        if let Err(error) = verdict {
            // Only the first shard to fail reports.
            if stop.swap(true, Ordering::SeqCst) {
                break;
            }
            *best.lock().unwrap() = Some((case.clone(), error.clone()));
            let _ = tx.send(Msg::Failed { case, error });
            let _ = tx.send(Msg::Done(r));
            shrink::<P>(&mut *tree, &best);
            crate::shrink::by_parts::<P>(&best, Instant::now() + SHRINK_TIME);
            let _ = tx.send(Msg::Shrunk);
            return;
        }
    }
    let _ = tx.send(Msg::Done(r));
}

fn shrink<P: Property>(
    tree: &mut dyn ValueTree<Value = P::Case>,
    best: &Mutex<Option<(P::Case, String)>>,
) {
    let end = Instant::now() + SHRINK_TIME;
    let mut steps = 0;
    if !tree.simplify() {
        return;
    }
    while steps < SHRINK_STEPS && Instant::now() < end {
        steps += 1;
        let case = tree.current();
        let moved = match eval::<P>(&case, &mut Obs::default()) {
            Err(error) => {
                *best.lock().unwrap() = Some((case, error));
                tree.simplify()
            }
            Ok(()) => tree.complicate(),
        };
        if !moved {
            return;
        }
    }
}

fn distinct(results: &[ShardResult]) -> usize {
    let mut all: HashSet<u64> = HashSet::new();
    for r in results {
        all.extend(&r.distinct);
    }
    all.len()
}

fn read_case<P: Property>(path: &Path) -> Result<P::Case, String> {
    let text = fs::read_to_string(path).map_err(|e| format!("{}: {e}", path.display()))?;
    let v: Value = serde_json::from_str(&text).map_err(|e| format!("{}: {e}", path.display()))?;
    if v["property"] != P::ID {
        return Err(format!("{} is not for {}", path.display(), P::ID));
    }
    serde_json::from_value(v["case"].clone()).map_err(|e| format!("{}: {e}", path.display()))
}

fn on_big_stack<R: Send>(f: impl FnOnce() -> R + Send) -> R {
    thread::scope(|s| {
        thread::Builder::new()
            .stack_size(STACK)
            .spawn_scoped(s, f)
            .expect("cannot start a thread")
            .join()
            .expect("worker died")
    })
}

fn replay<P: Property>(path: &Path) -> ! {
    let case = match read_case::<P>(path) {
        Ok(c) => c,
        Err(e) => {
            eprintln!("{e}");
            exit(2);
        }
    };
    match on_big_stack(|| eval::<P>(&case, &mut Obs::default())) {
        Ok(()) => {
            println!("{} held on {}", P::ID, path.display());
            exit(0)
        }
        Err(e) => {
            eprintln!("{e}\n{case:?}");
            println!("VIOLATION property={} replay={}", P::ID, path.display());
            exit(1)
        }
    }
}

/// Runs the committed inputs of this property; the first failing one is given
/// back.
fn regressions<P: Property>(opts: &Opts) -> (usize, Option<(PathBuf, String)>) {
    let dir = opts.root.join("regressions").join(P::ID);
    let mut files: Vec<PathBuf> = fs::read_dir(&dir)
        .map(|d| d.filter_map(|e| e.ok()).map(|e| e.path()).collect())
        .unwrap_or_default();
    files.sort();
    for f in &files {
        let case = match read_case::<P>(f) {
            Ok(c) => c,
            Err(e) => {
                eprintln!("{e}");
                exit(2);
            }
        };
        if let Err(e) = on_big_stack(|| eval::<P>(&case, &mut Obs::default())) {
            return (files.len(), Some((f.clone(), e)));
        }
    }
    (files.len(), None)
}

fn write_replay<P: Property>(opts: &Opts, case: &P::Case, error: &str) -> PathBuf {
    let dir = opts.root.join("replays");
    let _ = fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-{:016x}.json", P::ID, case_hash(case)));
    let v = json!({
        "property": P::ID,
        "error": error,
        "seed": opts.seed,
        "build": opts.second_build,
        "case": case,
    });
    if let Err(e) = fs::write(&path, format!("{v:#}\n")) {
        eprintln!("cannot write {}: {e}", path.display());
        exit(2);
    }
    path
}

fn evidence<P: Property>(
    opts: &Opts,
    results: &[ShardResult],
    violations: u64,
    regressions: usize,
    start: Instant,
) {
    let dir = opts.root.join("evidence");
    let _ = fs::create_dir_all(&dir);
    let path = dir.join(format!("{}.json", P::ID));

    let evaluations: u64 = results.iter().map(|r| r.evaluations).sum();
    let mut labels: BTreeMap<&str, u64> = BTreeMap::new();
    for r in results {
        for (l, n) in &r.labels {
            *labels.entry(l).or_default() += n;
        }
    }
    let samples: Vec<&Value> = results.iter().flat_map(|r| &r.samples).take(4).collect();
    let mut coverage = json!({
        "evaluations": evaluations,
        "distinct_nontrivial": distinct(results),
        "rule": P::RULE,
        "samples": samples,
        "labels": labels,
        "regression_inputs": regressions,
        "stopped_at_time_cap": results.iter().any(|r| r.capped),
    });
    let mut wall = start.elapsed().as_secs_f64();

    if let Some(build) = &opts.second_build {
        let first: Option<Value> = fs::read_to_string(&path)
            .ok()
            .and_then(|t| serde_json::from_str(&t).ok());
        if let Some(first) = first {
            let c = &first["coverage"];
            let of_this_build = coverage.clone();
            for field in ["evaluations", "distinct_nontrivial"] {
                let sum = c[field].as_u64().unwrap_or(0) + coverage[field].as_u64().unwrap_or(0);
                coverage[field] = sum.into();
            }
            coverage["builds"] = json!({
                "checked": {
                    "evaluations": c["evaluations"],
                    "distinct_nontrivial": c["distinct_nontrivial"],
                    "labels": c["labels"],
                },
                build: {
                    "evaluations": of_this_build["evaluations"],
                    "distinct_nontrivial": of_this_build["distinct_nontrivial"],
                    "labels": of_this_build["labels"],
                },
            });
            wall += first["wall_s"].as_f64().unwrap_or(0.0);
        }
    }

    let v = json!({
        "property": P::ID,
        "tier": match opts.tier { Tier::Quick => "quick", Tier::Thorough => "thorough" },
        "seed": opts.seed,
        "level": "exploration",
        "coverage": coverage,
        "assumptions": P::ASSUMPTIONS,
        "wall_s": wall,
        "violations": violations,
    });
    if let Err(e) = fs::write(&path, format!("{v:#}\n")) {
        eprintln!("cannot write {}: {e}", path.display());
        exit(2);
    }
}
