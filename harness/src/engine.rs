//! Runs a property: generates cases with proptest, judges them, shrinks failures, writes evidence.

use std::any::Any;
use std::cell::RefCell;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Value};

/// What a case that satisfied the property covered.
#[derive(Default, Debug)]
pub struct Stats {
    pub nontrivial: bool,
    pub classes: Vec<String>,
    /// a failure with an exact signature; everything else in the case held
    pub finding: Option<Failure>,
    /// operations, faults or inputs judged within the case
    pub points: u64,
}

impl Stats {
    pub fn class(&mut self, on: bool, name: &str) {
        if on {
            self.classes.push(name.to_string());
        }
    }
}

/// A broken property. `key` is set when the failure has an exact, enumerable signature
/// that a known-findings entry may list.
#[derive(Debug, Clone)]
pub struct Failure {
    pub key: Option<String>,
    pub msg: String,
}

impl From<String> for Failure {
    fn from(msg: String) -> Self {
        Failure { key: None, msg }
    }
}

impl From<&str> for Failure {
    fn from(msg: &str) -> Self {
        Failure {
            key: None,
            msg: msg.to_string(),
        }
    }
}

pub type Outcome = Result<Stats, Failure>;

#[macro_export]
macro_rules! fail {
    ($($arg:tt)*) => { return Err($crate::engine::Failure::from(format!($($arg)*))) };
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)*) => { if !$cond { return Err($crate::engine::Failure::from(format!($($arg)*))) } };
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub trait Prop: Sync + Send + 'static {
    type Case: Serialize + DeserializeOwned + Debug + Clone + Send + Sync + 'static;
    fn id(&self) -> &'static str;
    fn level(&self) -> &'static str {
        "exploration"
    }
    /// How cases are made and what makes one non-trivial.
    fn rule(&self) -> &'static str;
    fn assumptions(&self) -> Vec<&'static str> {
        vec![]
    }
    fn strategy(&self, tier: Tier) -> BoxedStrategy<Self::Case>;
    /// Cases that are always run, before the generated ones.
    fn fixed(&self, _tier: Tier) -> Vec<Self::Case> {
        vec![]
    }
    fn cases(&self, tier: Tier) -> u64;
    fn threads(&self) -> usize {
        8
    }
    /// A case that takes longer than this hangs (ordinary ones take milliseconds).
    fn case_limit(&self) -> Duration {
        Duration::from_secs(120)
    }
    fn run(&self, case: &Self::Case) -> Outcome;
}

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
    pub static QUIET: RefCell<bool> = RefCell::new(true);
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let text = panic_text(info.payload());
        let at = info
            .location()
            .map(|l| format!(" at {}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = format!("{}{}", text, at));
    }));
}

pub fn panic_text(p: &(dyn Any + Send)) -> String {
    p.downcast_ref::<&str>()
        .map(|s| s.to_string())
        .or_else(|| p.downcast_ref::<String>().cloned())
        .unwrap_or_else(|| "panic".to_string())
}

/// Runs `f`; Err(message) if it panicked.
pub fn panics<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

fn judge<P: Prop>(p: &P, case: &P::Case) -> Result<Stats, (Failure, Stats)> {
    match panics(|| p.run(case)) {
        Ok(Ok(mut s)) => match s.finding.take() {
            None => Ok(s),
            Some(f) => Err((f, s)),
        },
        Ok(Err(f)) => Err((f, Stats::default())),
        Err(msg) => Err((Failure::from(format!("panic: {}", msg)), Stats::default())),
    }
}

pub fn hash64(x: impl Hash) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

fn runner(seed: u64, id: &str, index: u64) -> TestRunner {
    let mut bytes = [0u8; 32];
    let mut z = mix(seed ^ 0x6d65_6572_6b61_7400);
    for b in id.bytes() {
        z = mix(z ^ b as u64);
    }
    z = mix(z ^ index);
    for chunk in bytes.chunks_mut(8) {
        z = mix(z);
        chunk.copy_from_slice(&z.to_le_bytes());
    }
    let config = Config {
        failure_persistence: None,
        ..Config::default()
    };
    TestRunner::new_with_rng(config, TestRng::from_seed(RngAlgorithm::ChaCha, &bytes))
}

#[derive(Default)]
struct Totals {
    evaluations: u64,
    nontrivial: u64,
    points: u64,
    distinct: HashSet<u64>,
    classes: BTreeMap<String, u64>,
    known: BTreeMap<String, (u64, String)>,
    samples: Vec<Value>,
    fixed: u64,
    corpus: u64,
}

pub struct Known {
    /// (property, key) -> description
    entries: Vec<(String, String, String)>,
}

impl Known {
    pub fn load(root: &Path) -> Self {
        let mut entries = vec![];
        if let Ok(text) = std::fs::read_to_string(root.join("known_findings.txt")) {
            for line in text.lines() {
                // known: property=<id> key=<key> <description>
                let Some(rest) = line.strip_prefix("known: property=") else {
                    continue;
                };
                let mut it = rest.splitn(3, ' ');
                let (id, key, text) = (it.next(), it.next(), it.next());
                if let (Some(id), Some(key), Some(text)) = (id, key, text) {
                    if let Some(key) = key.strip_prefix("key=") {
                        entries.push((id.into(), key.into(), text.into()));
                    }
                }
            }
        }
        Known { entries }
    }

    fn find(&self, id: &str, f: &Failure) -> Option<(&str, &str)> {
        let key = f.key.as_deref()?;
        self.entries
            .iter()
            .find(|e| e.0 == id && e.1 == key)
            .map(|e| (e.1.as_str(), e.2.as_str()))
    }
}

fn sample(case: &Value) -> Value {
    let text = case.to_string();
    if text.len() > 1500 {
        let mut end = 1500;
        while !text.is_char_boundary(end) {
            end -= 1;
        }
        json!(format!("{}... ({} bytes)", &text[..end], text.len()))
    } else {
        case.clone()
    }
}

pub fn root() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()))
}

/// Exit status of the check.
pub fn check<P: Prop>(p: &P, tier: Tier, seed: u64) -> i32 {
    let t0 = Instant::now();
    let id = p.id();
    let root = root();
    let known = Known::load(&root);
    let totals = Mutex::new(Totals::default());
    let failed: Mutex<Option<(u64, P::Case, Failure)>> = Mutex::new(None);
    let stop = AtomicBool::new(false);
    let next = AtomicU64::new(0);

    let scale: f64 = std::env::var("VERIF_SCALE")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1.0);
    let n_gen = ((p.cases(tier) as f64) * scale).ceil() as u64;

    let mut pre: Vec<P::Case> = vec![];
    let mut n_corpus = 0;
    let dir = root.join("corpus").join(id);
    let mut files: Vec<_> = std::fs::read_dir(&dir)
        .map(|d| d.filter_map(|e| e.ok()).map(|e| e.path()).collect())
        .unwrap_or_default();
    files.sort();
    for f in files {
        let text = std::fs::read_to_string(&f).unwrap_or_default();
        match serde_json::from_str::<Value>(&text)
            .ok()
            .and_then(|v| serde_json::from_value::<P::Case>(v["case"].clone()).ok())
        {
            Some(c) => {
                pre.push(c);
                n_corpus += 1;
            }
            None => {
                eprintln!("cannot read corpus file {}", f.display());
                return 2;
            }
        }
    }
    let fixed = p.fixed(tier);
    let n_fixed = fixed.len() as u64;
    pre.extend(fixed);
    let n_pre = pre.len() as u64;
    let total = n_pre + n_gen;

    let threads = p.threads();
    let pre = &pre;
    let running: Vec<Mutex<Option<(Instant, u64)>>> =
        (0..threads).map(|_| Mutex::new(None)).collect();
    let done = AtomicBool::new(false);

    std::thread::scope(|scope| {
        let watch = scope.spawn(|| {
            while !done.load(Ordering::SeqCst) {
                std::thread::sleep(Duration::from_millis(100));
                for r in &running {
                    if let Some((at, index)) = *r.lock().unwrap() {
                        if at.elapsed() > p.case_limit() {
                            hang(p, tier, seed, index, pre);
                        }
                    }
                }
            }
        });
        let mut workers = vec![];
        for slot in 0..threads {
            let (pre, totals, failed, stop, next, running, known) =
                (pre, &totals, &failed, &stop, &next, &running, &known);
            workers.push(
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(scope, move || {
                        let strategy = p.strategy(tier);
                        let mut local = Totals::default();
                        loop {
                            let index = next.fetch_add(1, Ordering::SeqCst);
                            if index >= total || stop.load(Ordering::SeqCst) {
                                break;
                            }
                            let mut tree = None;
                            let case = if index < n_pre {
                                pre[index as usize].clone()
                            } else {
                                let mut r = runner(seed, id, index - n_pre);
                                let t = strategy.new_tree(&mut r).expect("strategy");
                                let c = t.current();
                                tree = Some(t);
                                c
                            };
                            *running[slot].lock().unwrap() = Some((Instant::now(), index));
                            let got = judge(p, &case);
                            local.evaluations += 1;
                            match got {
                                Ok(stats) => note(&mut local, &case, stats, index),
                                Err((f, stats)) => {
                                    if let Some((key, text)) = known.find(id, &f) {
                                        let e = local
                                            .known
                                            .entry(key.to_string())
                                            .or_insert((0, text.to_string()));
                                        e.0 += 1;
                                        note(&mut local, &case, stats, index);
                                    } else {
                                        stop.store(true, Ordering::SeqCst);
                                        let (case, f) = shrink(p, known, tree, case, f, || {
                                            *running[slot].lock().unwrap() =
                                                Some((Instant::now(), index));
                                        });
                                        let mut slot = failed.lock().unwrap();
                                        if slot.as_ref().map_or(true, |x| index < x.0) {
                                            *slot = Some((index, case, f));
                                        }
                                    }
                                }
                            }
                            *running[slot].lock().unwrap() = None;
                        }
                        merge(&mut totals.lock().unwrap(), local);
                    })
                    .unwrap(),
            );
        }
        for w in workers {
            if w.join().is_err() {
                println!("INCONCLUSIVE property={} harness worker died", id);
                std::process::exit(3);
            }
        }
        done.store(true, Ordering::SeqCst);
        let _ = watch.join();
    });

    let mut totals = totals.into_inner().unwrap();
    totals.fixed = n_fixed;
    totals.corpus = n_corpus;
    let failed = failed.into_inner().unwrap();
    let violations = failed.is_some() as i64;
    totals.samples.truncate(6);
    let known_json: Vec<Value> = totals
        .known
        .iter()
        .map(|(k, (n, t))| json!({"key": k, "cases": n, "what": t}))
        .collect();
    let evidence = json!({
        "property": id,
        "tier": if tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": seed,
        "level": p.level(),
        "coverage": {
            "evaluations": totals.evaluations,
            "distinct_nontrivial": totals.distinct.len(),
            "rule": p.rule(),
            "samples": totals.samples,
            "nontrivial": totals.nontrivial,
            "classes": totals.classes,
            "points_judged_within_cases": totals.points,
            "saved_regressions_replayed": totals.corpus,
            "fixed_cases": totals.fixed,
            "known_findings_hit": known_json,
            "arithmetic": if cfg!(debug_assertions) { "checked" } else { "wrapping" },
        },
        "assumptions": p.assumptions(),
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": violations,
    });
    let _ = std::fs::create_dir_all(root.join("evidence"));
    std::fs::write(
        root.join("evidence").join(format!("{}.json", id)),
        serde_json::to_string_pretty(&evidence).unwrap() + "\n",
    )
    .expect("evidence");

    for (key, (n, text)) in &totals.known {
        println!(
            "KNOWN-FINDING: property={} {} [{}; {} generated cases hit it]",
            id, text, key, n
        );
    }
    println!(
        "{}: {} cases ({} distinct non-trivial), {:.1} s",
        id,
        totals.evaluations,
        totals.distinct.len(),
        t0.elapsed().as_secs_f64()
    );
    if let Some((index, case, f)) = failed {
        let path = save(id, &case, &f, seed, index);
        println!("case: {}", sample(&serde_json::to_value(&case).unwrap()));
        println!("failure: {}", truncated(&f.msg));
        println!("VIOLATION property={} replay={}", id, path.display());
        return 1;
    }
    0
}

fn save<C: Serialize>(id: &str, case: &C, f: &Failure, seed: u64, index: u64) -> PathBuf {
    let body = json!({"property": id, "case": case, "message": f.msg, "key": f.key, "seed": seed, "index": index});
    let dir = root().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!(
        "{}-{:016x}.json",
        id,
        hash64(serde_json::to_string(&case).unwrap())
    ));
    std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap() + "\n").expect("replay");
    path
}

/// A case that does not finish.
fn hang<P: Prop>(p: &P, tier: Tier, seed: u64, index: u64, pre: &[P::Case]) -> ! {
    let n_pre = pre.len() as u64;
    let case = if index < n_pre {
        pre[index as usize].clone()
    } else {
        let mut r = runner(seed, p.id(), index - n_pre);
        p.strategy(tier).new_tree(&mut r).expect("strategy").current()
    };
    let f = Failure::from(format!(
        "the case (or a smaller variant tried while shrinking it) did not finish within {:?}",
        p.case_limit()
    ));
    let path = save(p.id(), &case, &f, seed, index);
    // time says nothing about the property: an error of the check, with the case kept
    println!("INCONCLUSIVE property={} {}; case kept in {}", p.id(), f.msg, path.display());
    std::process::exit(3);
}

fn truncated(s: &str) -> String {
    s.chars().take(2000).collect()
}

fn note<C: Serialize>(t: &mut Totals, case: &C, stats: Stats, index: u64) {
    t.points += stats.points;
    for c in stats.classes {
        *t.classes.entry(c).or_insert(0) += 1;
    }
    if stats.nontrivial {
        t.nontrivial += 1;
        let v = serde_json::to_value(case).unwrap();
        let fresh = t.distinct.insert(hash64(v.to_string()));
        if fresh && (t.samples.len() < 2 || index % 4099 == 0) && t.samples.len() < 6 {
            t.samples.push(sample(&v));
        }
    }
}

fn merge(a: &mut Totals, b: Totals) {
    a.evaluations += b.evaluations;
    a.nontrivial += b.nontrivial;
    a.points += b.points;
    a.distinct.extend(b.distinct);
    for (k, n) in b.classes {
        *a.classes.entry(k).or_insert(0) += n;
    }
    for (k, (n, t)) in b.known {
        a.known.entry(k).or_insert((0, t)).0 += n;
    }
    a.samples.extend(b.samples);
}

fn shrink<P: Prop, T: ValueTree<Value = P::Case>>(
    p: &P,
    known: &Known,
    tree: Option<T>,
    case: P::Case,
    f: Failure,
    mut alive: impl FnMut(),
) -> (P::Case, Failure) {
    let Some(mut tree) = tree else {
        return (case, f);
    };
    let mut best = (case, f);
    let t0 = Instant::now();
    let mut evals = 0;
    if !tree.simplify() {
        return best;
    }
    // the bounds affect only how small the reported case is, never the verdict
    while evals < 4000 && t0.elapsed() < Duration::from_secs(60) {
        alive();
        evals += 1;
        let c = tree.current();
        let again = match judge(p, &c) {
            Err((f, _)) if known.find(p.id(), &f).is_none() => Some(f),
            _ => None,
        };
        let more = match again {
            Some(f) => {
                best = (c, f);
                tree.simplify()
            }
            None => tree.complicate(),
        };
        if !more {
            break;
        }
    }
    best
}

/// Re-runs one saved case.
pub fn replay<P: Prop>(p: &P, file: &Path) -> i32 {
    let text = std::fs::read_to_string(file).expect("replay file");
    let v: Value = serde_json::from_str(&text).expect("json");
    let case: P::Case = serde_json::from_value(v["case"].clone()).expect("case");
    let known = Known::load(&root());
    match judge(p, &case) {
        Ok(s) => {
            println!("holds: {:?}", s);
            0
        }
        Err((f, _)) => match known.find(p.id(), &f) {
            Some((_, text)) => {
                println!("KNOWN-FINDING: property={} {}", p.id(), text);
                0
            }
            None => {
                println!("failure: {}", truncated(&f.msg));
                println!("VIOLATION property={} replay={}", p.id(), file.display());
                1
            }
        },
    }
}

/// Prints generated cases, to look at what the generator makes.
pub fn show<P: Prop>(p: &P, tier: Tier, seed: u64, n: u64) {
    let s = p.strategy(tier);
    for i in 0..n {
        let c = s.new_tree(&mut runner(seed, p.id(), i)).unwrap().current();
        println!("{}", serde_json::to_string(&c).unwrap());
    }
}
