//! Runtime shared by every check: counters, violations, known findings, evidence, parallel driver.
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fs::File;
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::os::fd::FromRawFd;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::sync::{Mutex, OnceLock};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Level {
    Exploration,
    ModelChecking,
    Fault,
}

pub struct Ctx {
    pub id: String,
    pub thorough: bool,
    pub seed: u64,
    pub start: Instant,
    dir: String,
    out: Mutex<Box<dyn Write + Send>>,
    pub evals: AtomicU64,
    pub states: AtomicU64,
    pub transitions: AtomicU64,
    pub traces: AtomicU64,
    extra: Mutex<BTreeMap<String, u64>>,
    distinct: Vec<Mutex<HashSet<u64>>>,
    samples: Mutex<Vec<Value>>,
    violations: Mutex<Vec<(String, String)>>,
    known: Vec<(String, String)>,
    known_hit: Mutex<HashSet<String>>,
    stop: AtomicBool,
    truncated: AtomicBool,
    budget: Duration,
    slots: Vec<Mutex<Option<(Instant, String)>>>,
    replay: Option<String>,
}

static CTX: OnceLock<Ctx> = OnceLock::new();
thread_local! {
    static SLOT: RefCell<usize> = const { RefCell::new(0) };
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub const THREADS: usize = 8;
const CASE_LIMIT: Duration = Duration::from_secs(90);
const MAX_VIOLATIONS: usize = 5;

pub fn ctx() -> &'static Ctx {
    CTX.get().expect("runtime not started")
}

pub fn init(id: &str) {
    let dir = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut known = vec![];
    if let Ok(s) = std::fs::read_to_string(format!("{dir}/known_findings.txt")) {
        for l in s.lines() {
            let Some(r) = l.strip_prefix("finding: property=") else { continue };
            let Some((pid, r)) = r.split_once(" key=") else { continue };
            let Some((key, what)) = r.split_once(" :: ") else { continue };
            if pid == id {
                known.push((key.trim().to_string(), what.trim().to_string()));
            }
        }
    }
    let out: Box<dyn Write + Send> = if std::env::var("MC_OUT_FD").is_ok() {
        Box::new(unsafe { File::from_raw_fd(3) })
    } else {
        Box::new(std::io::stderr())
    };
    std::panic::set_hook(Box::new(|i| {
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some(format!("{msg} at {loc}")));
        if std::env::var("MC_BT").is_ok() {
            eprintln!("{msg} at {loc}\n{}", std::backtrace::Backtrace::force_capture());
        }
    }));
    let budget = std::env::var("MC_BUDGET")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(if thorough { 3 * 3600 } else { 330 });
    let c = Ctx {
        id: id.into(),
        thorough,
        seed,
        start: Instant::now(),
        dir,
        out: Mutex::new(out),
        evals: AtomicU64::new(0),
        states: AtomicU64::new(0),
        transitions: AtomicU64::new(0),
        traces: AtomicU64::new(0),
        extra: Mutex::new(BTreeMap::new()),
        distinct: (0..64).map(|_| Mutex::new(HashSet::new())).collect(),
        samples: Mutex::new(vec![]),
        violations: Mutex::new(vec![]),
        known,
        known_hit: Mutex::new(HashSet::new()),
        stop: AtomicBool::new(false),
        truncated: AtomicBool::new(false),
        budget: Duration::from_secs(budget),
        slots: (0..THREADS + 1).map(|_| Mutex::new(None)).collect(),
        replay: std::env::var("MC_REPLAY").ok(),
    };
    if CTX.set(c).is_err() {
        panic!("init twice");
    }
    std::thread::spawn(|| loop {
        std::thread::sleep(Duration::from_millis(500));
        let c = ctx();
        for s in &c.slots {
            let hung = match &*s.lock().unwrap() {
                Some((t, d)) if t.elapsed() > CASE_LIMIT => Some(d.clone()),
                _ => None,
            };
            if let Some(d) = hung {
                violation(
                    &format!("hang:{d}"),
                    &format!("no answer after {} s: {d}", CASE_LIMIT.as_secs()),
                    json!({"case": d}),
                );
                finish_and_exit(Level::ModelChecking, "", &[]);
            }
        }
    });
}

pub fn thorough() -> bool {
    ctx().thorough
}
pub fn evals(n: u64) {
    ctx().evals.fetch_add(n, Relaxed);
}
pub fn states(n: u64) {
    ctx().states.fetch_add(n, Relaxed);
}
pub fn transitions(n: u64) {
    ctx().transitions.fetch_add(n, Relaxed);
}
pub fn traces(n: u64) {
    ctx().traces.fetch_add(n, Relaxed);
}
/// A named count reported in the evidence file.
pub fn count(name: &str, n: u64) {
    *ctx().extra.lock().unwrap().entry(name.into()).or_insert(0) += n;
}

pub fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 {
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// Counts a distinct non-trivial case (by hash of its description).
pub fn distinct<T: Hash + ?Sized>(t: &T) {
    let h = hash_of(t);
    ctx().distinct[(h % 64) as usize].lock().unwrap().insert(h);
}

pub fn sample(v: Value) {
    let mut s = ctx().samples.lock().unwrap();
    if s.len() < 12 {
        s.push(v);
    }
}

pub fn stopped() -> bool {
    let c = ctx();
    if c.stop.load(Relaxed) {
        return true;
    }
    if c.start.elapsed() > c.budget {
        c.truncated.store(true, Relaxed);
        return true;
    }
    false
}

fn say(s: &str) {
    let mut o = ctx().out.lock().unwrap();
    let _ = writeln!(o, "{s}");
    let _ = o.flush();
}

/// Reports a violation. `key` identifies the failing case; a key listed in known_findings.txt is
/// reported as KNOWN-FINDING instead.
pub fn violation(key: &str, what: &str, replay: Value) {
    let c = ctx();
    let key = key.replace('\n', " ");
    if let Some((k, w)) = c.known.iter().find(|(k, _)| *k == key) {
        if c.known_hit.lock().unwrap().insert(k.clone()) {
            say(&format!("KNOWN-FINDING: property={} {}", c.id, w));
        }
        return;
    }
    let mut v = c.violations.lock().unwrap();
    if v.len() >= MAX_VIOLATIONS || v.iter().any(|(k, _)| *k == key) {
        return;
    }
    let dir = format!("{}/evidence/replay", c.dir);
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{}-{}.json", c.id, v.len() + 1);
    let body = json!({"property": c.id, "key": key, "what": what, "case": replay,
        "rerun": format!("VERIF_TIER={} VERIF_SEED={} ./check.sh {}", if c.thorough {"thorough"} else {"quick"}, c.seed, c.id)});
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap());
    v.push((key.clone(), what.to_string()));
    let w1: String = what.replace('\n', " ").chars().take(600).collect();
    say(&format!("VIOLATION property={} replay={} {}", c.id, path, w1));
    if v.len() >= MAX_VIOLATIONS {
        c.stop.store(true, Relaxed);
    }
}

/// Runs code under test, turning a panic into Err(message).
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into())),
    }
}

/// Marks the current thread as working on `desc` (for the non-termination watchdog).
pub fn watch<T>(desc: impl Into<String>, f: impl FnOnce() -> T) -> T {
    let i = SLOT.with(|s| *s.borrow());
    let prev = ctx().slots[i].lock().unwrap().replace((Instant::now(), desc.into()));
    let r = f();
    *ctx().slots[i].lock().unwrap() = prev.map(|(_, d)| (Instant::now(), d));
    r
}

/// Calls f(0..n) on all cores; stops early after violations or when out of time.
pub fn par(n: usize, f: impl Fn(usize) + Sync) {
    let next = AtomicUsize::new(0);
    let chunk = (n / (THREADS * 64)).clamp(1, 1024);
    std::thread::scope(|s| {
        for t in 0..THREADS {
            let (next, f) = (&next, &f);
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(s, move || {
                    SLOT.with(|s| *s.borrow_mut() = t + 1);
                    'o: loop {
                        let a = next.fetch_add(chunk, Relaxed);
                        if a >= n {
                            break;
                        }
                        for i in a..(a + chunk).min(n) {
                            if stopped() {
                                break 'o;
                            }
                            ctlrand::control(&[], ctx().seed.wrapping_mul(0x9e37_79b9).wrapping_add(i as u64));
                            if let Err(e) = guard(|| f(i)) {
                                violation(
                                    &format!("panic:{e}"),
                                    &format!("unexpected panic while checking case {i}: {e}"),
                                    json!({"index": i, "panic": e}),
                                );
                            }
                        }
                    }
                })
                .unwrap();
        }
    });
}

/// Runs named families in order; MC_ONLY=name restricts to one.
pub fn family(name: &str, f: impl FnOnce()) {
    if let Ok(o) = std::env::var("MC_ONLY") {
        if !o.split(',').any(|x| x == name) {
            return;
        }
    }
    if stopped() {
        return;
    }
    let t = Instant::now();
    ctlrand::control(&[], ctx().seed);
    if let Err(e) = guard(f) {
        violation(
            &format!("panic:{e}"),
            &format!("unexpected panic in family {name}: {e}"),
            json!({"family": name, "panic": e}),
        );
    }
    count(&format!("ms_{name}"), t.elapsed().as_millis() as u64);
    if std::env::var("MC_VERBOSE").is_ok() {
        eprintln!(
            "{name}: {:.1}s evals={} states={} transitions={} traces={}",
            t.elapsed().as_secs_f64(),
            ctx().evals.load(Relaxed),
            ctx().states.load(Relaxed),
            ctx().transitions.load(Relaxed),
            ctx().traces.load(Relaxed)
        );
    }
}

pub fn finish_and_exit(level: Level, rule: &str, assumptions: &[&str]) -> ! {
    let c = ctx();
    let nv = c.violations.lock().unwrap().len();
    let mut cov = serde_json::Map::new();
    let distinct: u64 = c.distinct.iter().map(|m| m.lock().unwrap().len() as u64).sum();
    cov.insert("evaluations".into(), json!(c.evals.load(Relaxed)));
    cov.insert("distinct_nontrivial".into(), json!(distinct));
    cov.insert("rule".into(), json!(rule));
    if level == Level::ModelChecking {
        cov.insert("states".into(), json!(c.states.load(Relaxed)));
        cov.insert("transitions".into(), json!(c.transitions.load(Relaxed)));
        cov.insert("traces_validated_against_impl".into(), json!(c.traces.load(Relaxed)));
    }
    cov.insert("samples".into(), json!(*c.samples.lock().unwrap()));
    for (k, v) in c.extra.lock().unwrap().iter() {
        cov.insert(k.clone(), json!(v));
    }
    cov.insert("exhaustive".into(), json!(!c.truncated.load(Relaxed) && nv == 0));
    let hits: Vec<String> = c.known_hit.lock().unwrap().iter().cloned().collect();
    cov.insert("known_findings_reproduced".into(), json!(hits));
    let ev = json!({
        "property": c.id,
        "tier": if c.thorough {"thorough"} else {"quick"},
        "seed": c.seed,
        "level": match level { Level::Exploration => "exploration", Level::ModelChecking => "model_checking", Level::Fault => "fault_enumeration" },
        "coverage": cov,
        "assumptions": assumptions,
        "wall_s": c.start.elapsed().as_secs_f64(),
        "violations": nv,
    });
    let _ = std::fs::create_dir_all(format!("{}/evidence", c.dir));
    let p = format!("{}/evidence/{}.json", c.dir, c.id);
    if let Err(e) = std::fs::write(&p, serde_json::to_string_pretty(&ev).unwrap()) {
        eprintln!("cannot write {p}: {e}");
        std::process::exit(2);
    }
    let _ = &c.replay;
    std::process::exit(if nv > 0 { 1 } else { 0 });
}
