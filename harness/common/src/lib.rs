//! Shared harness runtime: seeds, evidence, verdicts, known findings, child processes.
use rand::{rngs::StdRng, Rng, SeedableRng};
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::path::PathBuf;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub use rand;
pub use serde_json;

pub fn verif_dir() -> PathBuf {
    std::env::var("SFV_DIR").unwrap_or_else(|_| "/verif".into()).into()
}
pub fn evidence_dir() -> PathBuf {
    let d = match std::env::var("SFV_EVIDENCE_DIR") {
        Ok(d) => PathBuf::from(d),
        Err(_) => verif_dir().join("evidence"),
    };
    let _ = std::fs::create_dir_all(&d);
    d
}

#[derive(Default)]
struct State {
    evaluations: u64,
    distinct: HashSet<u64>,
    samples: Vec<Value>,
    counters: BTreeMap<String, u64>,
    sets: BTreeMap<String, HashSet<u64>>,
    violations: Vec<(String, String)>,
    known_hit: BTreeMap<String, (String, u64)>,
    inconclusive: Vec<String>,
    rule: String,
    assumptions: Vec<String>,
    extra: Map<String, Value>,
}

#[derive(Clone)]
pub struct Ctx {
    pub prop: String,
    pub thorough: bool,
    pub seed: u64,
    pub level: &'static str,
    start: Instant,
    budget: Duration,
    known: Arc<Vec<(String, String)>>,
    st: Arc<Mutex<State>>,
}

pub fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

const MAX_VIOLATIONS: usize = 25;

impl Ctx {
    pub fn new(prop: &str) -> Self {
        let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
        let mut known = vec![];
        if let Ok(text) = std::fs::read_to_string(verif_dir().join("known-findings.txt")) {
            for line in text.lines() {
                // known: property=<id> sig=<signature> -- <description>
                if let Some(rest) = line.strip_prefix("known: property=") {
                    if let Some((id, rest)) = rest.split_once(" sig=") {
                        if id == prop {
                            let (sig, desc) = rest.split_once(" -- ").unwrap_or((rest, ""));
                            known.push((sig.trim().to_string(), desc.trim().to_string()));
                        }
                    }
                }
            }
        }
        // Work stops being generated after this long (seconds); every workload is also bounded by count
        let budget = std::env::var("SFV_BUDGET").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 600 } else { 45 });
        Ctx { prop: prop.into(), thorough, seed, level: "exploration", start: Instant::now(), budget: Duration::from_secs(budget), known: Arc::new(known), st: Default::default() }
    }
    /// independent random stream per (seed, label)
    pub fn rng(&self, label: &str) -> StdRng {
        StdRng::seed_from_u64(hash_of(&(self.seed, label)))
    }
    pub fn rng_n(&self, label: &str, n: u64) -> StdRng {
        StdRng::seed_from_u64(hash_of(&(self.seed, label, n)))
    }
    /// number of cases: quick / thorough
    pub fn n(&self, quick: usize, thorough: usize) -> usize {
        if self.thorough { thorough } else { quick }
    }
    pub fn out_of_time(&self) -> bool {
        self.start.elapsed() > self.budget || self.too_many()
    }
    /// true once the given share of the time budget has been used up
    pub fn used(&self, share: f64) -> bool {
        self.start.elapsed().as_secs_f64() > self.budget.as_secs_f64() * share || self.too_many()
    }
    fn too_many(&self) -> bool {
        self.st.lock().unwrap_or_else(|e| e.into_inner()).violations.len() >= MAX_VIOLATIONS
    }
    pub fn rule(&self, s: &str) {
        self.st.lock().unwrap_or_else(|e| e.into_inner()).rule = s.into();
    }
    pub fn assume(&self, s: &str) {
        self.st.lock().unwrap_or_else(|e| e.into_inner()).assumptions.push(s.into());
    }
    /// one evaluation of the property; `key` identifies the case, `nontrivial` by the stated rule
    pub fn eval<T: Hash + ?Sized>(&self, key: &T, nontrivial: bool) {
        let mut s = self.st.lock().unwrap_or_else(|e| e.into_inner());
        s.evaluations += 1;
        if nontrivial {
            s.distinct.insert(hash_of(key));
        }
    }
    pub fn count(&self, name: &str, n: u64) {
        *self.st.lock().unwrap_or_else(|e| e.into_inner()).counters.entry(name.into()).or_default() += n;
    }
    /// count distinct observed values under a name
    pub fn seen<T: Hash + ?Sized>(&self, name: &str, v: &T) {
        let mut s = self.st.lock().unwrap_or_else(|e| e.into_inner());
        s.sets.entry(name.into()).or_default().insert(hash_of(v));
    }
    pub fn seen_count(&self, name: &str) -> usize {
        self.st.lock().unwrap_or_else(|e| e.into_inner()).sets.get(name).map(|s| s.len()).unwrap_or(0)
    }
    pub fn get_count(&self, name: &str) -> u64 {
        self.st.lock().unwrap_or_else(|e| e.into_inner()).counters.get(name).copied().unwrap_or(0)
    }
    pub fn sample(&self, v: Value) {
        let mut s = self.st.lock().unwrap_or_else(|e| e.into_inner());
        if s.samples.len() < 6 {
            s.samples.push(v);
        }
    }
    pub fn extra(&self, k: &str, v: Value) {
        self.st.lock().unwrap_or_else(|e| e.into_inner()).extra.insert(k.into(), v);
    }
    /// The property is broken. `sig` identifies what fails (input, call site, history), stable over seeds.
    pub fn violation(&self, sig: &str, detail: impl AsRef<str>) {
        let sig = sig.replace(['\n', '\r'], " ");
        let mut s = self.st.lock().unwrap_or_else(|e| e.into_inner());
        if let Some((k, d)) = self.known.iter().find(|(k, _)| *k == sig) {
            s.known_hit.entry(k.clone()).or_insert((d.clone(), 0)).1 += 1;
            return;
        }
        if s.violations.iter().filter(|(x, _)| *x == sig).count() < 3 && s.violations.len() < MAX_VIOLATIONS {
            eprintln!("violation [{}] {}: {}", self.prop, sig, trunc(detail.as_ref(), 1500));
            s.violations.push((sig, detail.as_ref().to_string()));
        }
    }
    pub fn check(&self, cond: bool, sig: &str, detail: impl FnOnce() -> String) -> bool {
        if !cond {
            self.violation(sig, detail());
        }
        cond
    }
    pub fn inconclusive(&self, why: impl AsRef<str>) {
        eprintln!("inconclusive [{}]: {}", self.prop, why.as_ref());
        self.st.lock().unwrap_or_else(|e| e.into_inner()).inconclusive.push(why.as_ref().to_string());
    }
    pub fn violated(&self) -> bool {
        !self.st.lock().unwrap_or_else(|e| e.into_inner()).violations.is_empty()
    }
    /// write evidence, print the verdict, return the exit code
    /// the check itself panicked. What it set up must work, so unless it's the machine that failed, this is a violation too
    pub fn stopped(&self, p: Box<dyn std::any::Any + Send>) {
        let l = last_panic();
        let text = if l.is_empty() { format!("{} (last: {})", panic_text(p), last_panic_any()) } else { l };
        let machine = ["No space left", "Too many open files", "Address already in use", "Cannot allocate", "Resource temporarily", "Elapsed", "timed out", "timeout", "Os {"];
        if machine.iter().any(|m| text.contains(m)) { self.inconclusive(format!("the check stopped: {text}")); } else { self.violation("stopped", format!("what the check sets up doesn't work any more: {text}")); }
    }

    pub fn finish(&self) -> i32 {
        let mut s = self.st.lock().unwrap_or_else(|e| e.into_inner());
        let mut cov = Map::new();
        cov.insert("evaluations".into(), json!(s.evaluations));
        cov.insert("distinct_nontrivial".into(), json!(s.distinct.len()));
        cov.insert("rule".into(), json!(s.rule));
        cov.insert("samples".into(), json!(s.samples));
        let counters: Map<_, _> = s.counters.iter().map(|(k, v)| (k.clone(), json!(v))).collect();
        cov.insert("observed".into(), Value::Object(counters));
        let sets: Map<_, _> = s.sets.iter().map(|(k, v)| (k.clone(), json!(v.len()))).collect();
        cov.insert("distinct_observed".into(), Value::Object(sets));
        for (k, v) in &s.extra {
            cov.insert(k.clone(), v.clone());
        }
        let known: Map<_, _> = s.known_hit.iter().map(|(k, v)| (k.clone(), json!(v.1))).collect();
        cov.insert("known_findings_hit".into(), Value::Object(known));
        cov.insert("inconclusive".into(), json!(s.inconclusive));
        let ev = json!({
            "property": self.prop, "tier": if self.thorough {"thorough"} else {"quick"}, "seed": self.seed,
            "level": self.level, "coverage": cov, "assumptions": s.assumptions,
            "wall_s": self.start.elapsed().as_secs_f64(), "violations": s.violations.len(),
        });
        let dir = evidence_dir();
        if let Err(e) = std::fs::write(dir.join(format!("{}.json", self.prop)), serde_json::to_string_pretty(&ev).unwrap()) {
            s.inconclusive.push(format!("cannot write evidence: {e}"));
        }
        for (k, (d, n)) in &s.known_hit {
            println!("KNOWN-FINDING: property={} {} ({}; seen {} times)", self.prop, d, k, n);
        }
        if !s.violations.is_empty() {
            let rdir = dir.join("replay");
            let _ = std::fs::create_dir_all(&rdir);
            let mut printed = HashSet::new();
            for (i, (sig, detail)) in s.violations.iter().enumerate() {
                let p = rdir.join(format!("{}-{}.json", self.prop, i));
                let _ = std::fs::write(&p, serde_json::to_string_pretty(&json!({
                    "property": self.prop, "seed": self.seed, "tier": if self.thorough {"thorough"} else {"quick"},
                    "signature": sig, "detail": detail,
                    "replay_cmd": format!("VERIF_SEED={} VERIF_TIER={} bash /verif/bin/check {}", self.seed, if self.thorough {"thorough"} else {"quick"}, self.prop),
                })).unwrap());
                if printed.insert(sig.clone()) {
                    println!("VIOLATION property={} replay={}", self.prop, p.display());
                    println!("  {}: {}", sig, trunc(detail, 600).replace('\n', " "));
                }
            }
            return 1;
        }
        if s.distinct.is_empty() {
            s.inconclusive.push("nothing was observed".into());
        }
        if !s.inconclusive.is_empty() {
            println!("INCONCLUSIVE property={}: {}", self.prop, s.inconclusive.join("; "));
            return 2;
        }
        println!("OK property={} evaluations={} distinct={} wall={:.1}s", self.prop, s.evaluations, s.distinct.len(), self.start.elapsed().as_secs_f64());
        0
    }
}

pub fn trunc(s: &str, n: usize) -> String {
    if s.len() <= n { s.to_string() } else {
        let mut i = n;
        while !s.is_char_boundary(i) { i -= 1; }
        format!("{}...[{} bytes]", &s[..i], s.len())
    }
}

pub fn panic_text(p: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = p.downcast_ref::<&str>() { s.to_string() }
    else if let Some(s) = p.downcast_ref::<String>() { s.clone() }
    else { "panic".into() }
}

/// panics seen in any thread since the start, and the text of the last one
pub static PANICS: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
pub static LAST_PANIC_ANY: Mutex<String> = Mutex::new(String::new());
pub fn panics() -> u64 {
    PANICS.load(std::sync::atomic::Ordering::SeqCst)
}
pub fn last_panic_any() -> String {
    LAST_PANIC_ANY.lock().map(|s| s.clone()).unwrap_or_default()
}

thread_local! { pub static LAST_PANIC: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) }; }

/// keep panics of code under test quiet, but remember them
pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = info.payload().downcast_ref::<&str>().map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        if std::env::var("SFV_SHOW_PANICS").is_ok() {
            eprintln!("[panic] {msg} at {loc}");
        }
        PANICS.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        if let Ok(mut l) = LAST_PANIC_ANY.lock() {
            *l = format!("{msg} at {loc}");
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("{msg} at {loc}")));
    }));
}
pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default()
}

/// catch a panic in synchronous code under test; Err holds message and place
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(p) => {
            let l = last_panic();
            Err(if l.is_empty() { panic_text(p) } else { l })
        }
    }
}

pub fn pick<'a, T, R: Rng>(r: &mut R, xs: &'a [T]) -> &'a T {
    &xs[r.gen_range(0..xs.len())]
}
pub fn chance<R: Rng>(r: &mut R, p: f64) -> bool {
    r.gen_bool(p)
}

pub struct ChildResult {
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub timed_out: bool,
    pub stdout: String,
    pub stderr: String,
}

/// run this executable again as a child with its own arguments and input on stdin
pub fn run_child(args: &[&str], input: &[u8], timeout: Duration) -> std::io::Result<ChildResult> {
    use std::io::{Read, Write};
    use std::os::unix::process::ExitStatusExt;
    use std::process::{Command, Stdio};
    let mut child = Command::new(std::env::current_exe()?).args(args)
        .stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn()?;
    let mut si = child.stdin.take().unwrap();
    let input = input.to_vec();
    let w = std::thread::spawn(move || { let _ = si.write_all(&input); });
    let mut so = child.stdout.take().unwrap();
    let mut se = child.stderr.take().unwrap();
    let ro = std::thread::spawn(move || { let mut b = vec![]; let _ = so.read_to_end(&mut b); b });
    let re = std::thread::spawn(move || { let mut b = vec![]; let _ = se.read_to_end(&mut b); b });
    let start = Instant::now();
    let mut timed_out = false;
    let status = loop {
        if let Some(st) = child.try_wait()? { break st; }
        if start.elapsed() > timeout {
            timed_out = true;
            let _ = child.kill();
            break child.wait()?;
        }
        std::thread::sleep(Duration::from_millis(5));
    };
    let _ = w.join();
    let stdout = String::from_utf8_lossy(&ro.join().unwrap_or_default()).into_owned();
    let stderr = String::from_utf8_lossy(&re.join().unwrap_or_default()).into_owned();
    Ok(ChildResult { code: status.code(), signal: status.signal(), timed_out, stdout, stderr })
}
