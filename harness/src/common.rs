//! Shared machinery of the monitors: case runner, recorder, verdicts, evidence.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub use fastrand::Rng;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub kind: String,
    pub detail: String,
    pub group: String,
    pub index: u64,
}

#[derive(Default)]
struct Totals {
    evaluations: u64,
    distinct: HashSet<u64>,
    samples: Vec<String>,
    counters: BTreeMap<String, u64>,
    violations: Vec<Violation>,
    n_violations: u64,
    known_hits: BTreeMap<String, u64>,
    harness_errors: Vec<String>,
}

pub struct Mon {
    pub prop: String,
    pub tier: Tier,
    pub seed: u64,
    pub verif: PathBuf,
    pub only: Option<(String, u64)>,
    start: Instant,
    deadline: Instant,
    totals: Mutex<Totals>,
    known: Vec<(String, String)>,
    pub rule: Mutex<String>,
    pub assumptions: Mutex<Vec<String>>,
    required: Mutex<Vec<(String, u64)>>,
    out_of_time: AtomicBool,
    running: Mutex<BTreeMap<String, Running>>,
    case_cpu_limit_s: AtomicU64,
}

/// What a worker thread is executing, for the watchdog.
struct Running {
    group: String,
    index: u64,
    since: Instant,
    cpu_at_start: Option<f64>,
}

/// CPU seconds used by a thread of this process (/proc/self/task/<tid>/stat).
fn thread_cpu_s(tid: &str) -> Option<f64> {
    let s = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).ok()?;
    let rest = s.rsplit_once(')')?.1;
    let f: Vec<&str> = rest.split_whitespace().collect();
    let u: f64 = f.get(11)?.parse().ok()?;
    let k: f64 = f.get(12)?.parse().ok()?;
    Some((u + k) / 100.0)
}

fn my_tid() -> String {
    std::fs::read_link("/proc/thread-self")
        .ok()
        .and_then(|p| p.file_name().map(|f| f.to_string_lossy().into_owned()))
        .unwrap_or_default()
}

/// One executed case. Everything random in it comes from `rng`.
pub struct Case<'a> {
    pub rng: Rng,
    pub group: &'a str,
    pub index: u64,
    pub tier: Tier,
    evaluations: u64,
    distinct: Vec<u64>,
    samples: Vec<String>,
    counters: BTreeMap<&'static str, u64>,
    violations: Vec<Violation>,
}

impl Case<'_> {
    pub fn eval(&mut self) {
        self.evaluations += 1;
    }
    pub fn evals(&mut self, n: u64) {
        self.evaluations += n;
    }
    pub fn count(&mut self, name: &'static str, n: u64) {
        *self.counters.entry(name).or_insert(0) += n;
    }
    /// Mark a non-trivial case by a hash of what identifies it.
    pub fn distinct(&mut self, h: u64) {
        self.distinct.push(h);
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.is_empty() && self.index < 6 {
            self.samples.push(f());
        }
    }
    pub fn fail(&mut self, kind: impl Into<String>, detail: impl Into<String>) {
        if self.violations.len() < 20 {
            self.violations.push(Violation {
                kind: kind.into(),
                detail: detail.into(),
                group: self.group.to_string(),
                index: self.index,
            });
        }
    }
    pub fn failed(&self) -> bool {
        !self.violations.is_empty()
    }
}

pub fn hash_of<T: std::hash::Hash>(t: &T) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e37_79b9_7f4a_7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

thread_local! {
    static MY_TID: String = my_tid();
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}
static ANY_PANIC: Mutex<Option<(String, String)>> = Mutex::new(None);
static INTENDED_PANICS: AtomicU64 = AtomicU64::new(0);

pub const INTENDED: &str = "srmon-injected-fault";

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_else(|| "?".into());
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "non-string panic".to_string()
        };
        if msg.contains(INTENDED) {
            INTENDED_PANICS.fetch_add(1, Ordering::Relaxed);
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((msg.clone(), loc.clone())));
        *ANY_PANIC.lock().unwrap_or_else(|e| e.into_inner()) = Some((msg, loc));
    }));
}

/// Runs `f`; a panic comes back as (message, location).
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, (String, String)> {
    LAST_PANIC.with(|p| *p.borrow_mut() = None);
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(payload) => {
            let local = LAST_PANIC.with(|p| p.borrow_mut().take());
            Err(local
                .or_else(|| ANY_PANIC.lock().unwrap_or_else(|e| e.into_inner()).clone())
                .unwrap_or_else(|| {
                    let m = payload
                        .downcast_ref::<&str>()
                        .map(|s| s.to_string())
                        .or_else(|| payload.downcast_ref::<String>().cloned())
                        .unwrap_or_default();
                    (m, "?".into())
                }))
        }
    }
}

fn is_harness_location(msg: &str, loc: &str) -> bool {
    // Operator-set macros expand in this crate: their panics belong to the code under test.
    (loc.starts_with("src/") || loc.contains("/harness/src/"))
        && !msg.contains("unknown op id")
        && !msg.contains("unsupported arity")
}

impl Mon {
    pub fn new(
        prop: &str,
        tier: Tier,
        seed: u64,
        verif: PathBuf,
        only: Option<(String, u64)>,
        limit_s: u64,
    ) -> Self {
        let mut known = Vec::new();
        if let Ok(s) = std::fs::read_to_string(verif.join("known_findings.txt")) {
            for line in s.lines() {
                // finding: property=<id> signature=<sig> :: <description>
                if let Some(rest) = line.strip_prefix("finding: property=") {
                    let mut it = rest.splitn(2, " signature=");
                    let p = it.next().unwrap_or("");
                    let rest = it.next().unwrap_or("");
                    let sig = rest.split(" :: ").next().unwrap_or("").trim();
                    if p == prop && !sig.is_empty() {
                        let desc = rest.split(" :: ").nth(1).unwrap_or(sig).trim();
                        known.push((sig.to_string(), desc.to_string()));
                    }
                }
            }
        }
        let now = Instant::now();
        Mon {
            prop: prop.to_string(),
            tier,
            seed,
            verif,
            only,
            start: now,
            deadline: now + Duration::from_secs(limit_s),
            totals: Mutex::new(Totals::default()),
            known,
            rule: Mutex::new(String::new()),
            assumptions: Mutex::new(Vec::new()),
            required: Mutex::new(Vec::new()),
            out_of_time: AtomicBool::new(false),
            running: Mutex::new(BTreeMap::new()),
            case_cpu_limit_s: AtomicU64::new(100),
        }
    }

    /// A case (normally milliseconds) that burns this much CPU counts as not terminating.
    pub fn case_cpu_limit(&self, s: u64) {
        self.case_cpu_limit_s.store(s, Ordering::Relaxed);
    }

    /// Reports a case that keeps burning CPU far beyond any legitimate need, and ends the process.
    fn watch(&self, done: &AtomicBool) {
        if cfg!(miri) {
            return;
        }
        while !done.load(Ordering::Relaxed) {
            std::thread::sleep(Duration::from_millis(50));
            let limit = self.case_cpu_limit_s.load(Ordering::Relaxed) as f64;
            let stuck = {
                let mut r = self.running.lock().unwrap();
                let mut found = None;
                for (tid, run) in r.iter_mut() {
                    if run.since.elapsed() < Duration::from_secs(2) {
                        continue;
                    }
                    let Some(now) = thread_cpu_s(tid) else { continue };
                    let used = now - *run.cpu_at_start.get_or_insert(now);
                    if used > limit {
                        found = Some((run.group.clone(), run.index, used));
                    }
                }
                found
            };
            if let Some((group, index, used)) = stuck {
                let kind = "does not terminate".to_string();
                println!("-- {kind} [{group}/{index}]: {used:.0} CPU seconds in one case");
                if self.known.iter().any(|(sig, _)| *sig == kind) {
                    println!("INCONCLUSIVE: known non-termination hit");
                    std::process::exit(4);
                }
                let dir = self.verif.join("replays");
                let _ = std::fs::create_dir_all(&dir);
                let path = dir.join(format!("{}-hang.txt", self.prop));
                let tier = if self.tier == Tier::Quick {
                    "quick"
                } else {
                    "thorough"
                };
                let _ = std::fs::write(
                    &path,
                    format!(
                        "property: {}\nwhat: case {group}/{index} used {used:.0} CPU seconds without finishing\nreplay: VERIF_SEED={} VERIF_TIER={tier} /verif/run.sh {} --case {group}/{index}\n",
                        self.prop, self.seed, self.prop
                    ),
                );
                println!("VIOLATION property={} replay={}", self.prop, path.display());
                std::process::exit(1);
            }
        }
    }

    pub fn rule(&self, s: &str) {
        *self.rule.lock().unwrap() = s.to_string();
    }
    pub fn assume(&self, s: &str) {
        self.assumptions.lock().unwrap().push(s.to_string());
    }
    /// The run is inconclusive unless counter `name` reached `n`.
    pub fn require(&self, name: &str, n: u64) {
        self.required.lock().unwrap().push((name.to_string(), n));
    }

    pub fn scale(&self, quick: u64, thorough: u64) -> u64 {
        match self.tier {
            Tier::Quick => quick * self.quick_factor(),
            Tier::Thorough => thorough.max(quick * self.quick_factor()),
        }
    }

    /// How many times the base number of cases a quick run affords within about fifteen seconds.
    fn quick_factor(&self) -> u64 {
        match self.prop.as_str() {
            "P05" | "P07" | "P08" | "P09" | "P14" | "P15" | "P16" | "P21" | "P22" | "P24" | "P27" | "P28" => 8,
            "P13" | "P17" => 6,
            "P01" | "P02" | "P03" | "P04" | "P06" | "P10" | "P12" | "P20" | "P26" => 4,
            "P11" | "P19" => 3,
            _ => 1,
        }
    }

    pub fn case_seed(&self, group: &str, index: u64) -> u64 {
        let mut h = 0xcbf2_9ce4_8422_2325u64;
        for b in self.prop.bytes().chain([b'/']).chain(group.bytes()) {
            h = (h ^ b as u64).wrapping_mul(0x1000_0000_01b3);
        }
        mix(mix(h ^ mix(self.seed)) ^ index)
    }

    pub fn cases(&self, group: &str, n: u64, f: impl Fn(&mut Case) + Sync) {
        let threads = std::thread::available_parallelism()
            .map(|v| v.get())
            .unwrap_or(4)
            .min(8);
        self.cases_on(threads, group, n, f)
    }

    /// Runs `n` independent cases of a group on `threads` threads.
    pub fn cases_on(&self, threads: usize, group: &str, n: u64, f: impl Fn(&mut Case) + Sync) {
        if let Some((g, i)) = &self.only {
            if g == group {
                self.run_case(group, *i, &f);
            }
            return;
        }
        let next = AtomicU64::new(0);
        let done = AtomicBool::new(false);
        std::thread::scope(|outer| {
            outer.spawn(|| self.watch(&done));
            std::thread::scope(|s| {
                for _ in 0..threads.max(1) {
                    std::thread::Builder::new()
                        .stack_size(64 << 20)
                        .spawn_scoped(s, || loop {
                            let i = next.fetch_add(1, Ordering::Relaxed);
                            if i >= n {
                                break;
                            }
                            if Instant::now() > self.deadline {
                                self.out_of_time.store(true, Ordering::Relaxed);
                                break;
                            }
                            if self.totals.lock().unwrap().n_violations > 200 {
                                break;
                            }
                            self.run_case(group, i, &f);
                        })
                        .expect("spawn");
                }
            });
            done.store(true, Ordering::Relaxed);
        });
    }

    fn run_case(&self, group: &str, index: u64, f: &(impl Fn(&mut Case) + Sync)) {
        let mut case = Case {
            rng: Rng::with_seed(self.case_seed(group, index)),
            group,
            index,
            tier: self.tier,
            evaluations: 0,
            distinct: Vec::new(),
            samples: Vec::new(),
            counters: BTreeMap::new(),
            violations: Vec::new(),
        };
        let mut harness_error = None;
        let tid = MY_TID.with(|t| t.clone());
        self.running.lock().unwrap().insert(
            tid.clone(),
            Running {
                group: group.to_string(),
                index,
                since: Instant::now(),
                cpu_at_start: None,
            },
        );
        if let Err((msg, loc)) = guarded(|| f(&mut case)) {
            if is_harness_location(&msg, &loc) {
                harness_error = Some(format!(
                    "case {group}/{index}: panic in the harness at {loc}: {msg}"
                ));
            } else {
                case.fail(
                    format!("panic at {}", strip_line(&loc)),
                    format!("the code under test panicked at {loc}: {msg}"),
                );
            }
        }
        self.running.lock().unwrap().remove(&tid);
        let mut t = self.totals.lock().unwrap();
        t.evaluations += case.evaluations;
        t.distinct.extend(case.distinct);
        if t.samples.len() < 8 {
            t.samples.extend(case.samples);
        }
        for (k, v) in case.counters {
            *t.counters.entry(k.to_string()).or_insert(0) += v;
        }
        t.harness_errors.extend(harness_error);
        for v in case.violations {
            let known = self
                .known
                .iter()
                .find(|(sig, _)| *sig == v.kind)
                .map(|(_, d)| d.clone());
            if let Some(d) = known {
                *t.known_hits.entry(d).or_insert(0) += 1;
                continue;
            }
            t.n_violations += 1;
            let same = t.violations.iter().filter(|o| o.kind == v.kind).count();
            if same < 2 && t.violations.len() < 24 {
                t.violations.push(v);
            }
        }
    }

    /// Writes evidence, prints the verdict and returns the exit code.
    pub fn finish(self) -> i32 {
        let wall = self.start.elapsed().as_secs_f64();
        let t = self.totals.into_inner().unwrap();
        let tier = match self.tier {
            Tier::Quick => "quick",
            Tier::Thorough => "thorough",
        };
        let mut j = String::new();
        let _ = write!(
            j,
            "{{\n \"property\": {},\n \"tier\": \"{tier}\",\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [",
            js(&self.prop),
            self.seed,
            t.evaluations,
            t.distinct.len(),
            js(&self.rule.lock().unwrap())
        );
        for (i, s) in t.samples.iter().take(8).enumerate() {
            let _ = write!(j, "{}\n   {}", if i == 0 { "" } else { "," }, js(s));
        }
        let _ = write!(j, "],\n  \"observed\": {{");
        for (i, (k, v)) in t.counters.iter().enumerate() {
            let _ = write!(j, "{}\n   {}: {}", if i == 0 { "" } else { "," }, js(k), v);
        }
        let _ = write!(
            j,
            "}},\n  \"stopped_by_time_limit\": {}\n }},\n \"assumptions\": [",
            self.out_of_time.load(Ordering::Relaxed)
        );
        for (i, a) in self.assumptions.lock().unwrap().iter().enumerate() {
            let _ = write!(j, "{}\n  {}", if i == 0 { "" } else { "," }, js(a));
        }
        let _ = write!(
            j,
            "],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
            wall, t.n_violations
        );
        // Sanitizer stages leave the evidence of the main run alone; run.sh collects their counts.
        let stage = std::env::var("SRMON_STAGE").is_ok();
        if self.only.is_none() && !stage {
            let dir = self.verif.join("evidence");
            let _ = std::fs::create_dir_all(&dir);
            if let Err(e) = std::fs::write(dir.join(format!("{}.json", self.prop)), j) {
                eprintln!("cannot write evidence: {e}");
                return 2;
            }
        }
        println!(
            "{}: tier={tier} seed={} evaluations={} distinct={} violations={} wall={:.1}s",
            self.prop,
            self.seed,
            t.evaluations,
            t.distinct.len(),
            t.n_violations,
            wall
        );
        for (k, v) in &t.counters {
            println!("  {k} = {v}");
        }
        for (d, n) in &t.known_hits {
            println!(
                "KNOWN-FINDING: property={} {} (seen {} times)",
                self.prop, d, n
            );
        }
        if !t.violations.is_empty() {
            let dir = self.verif.join("replays");
            let _ = std::fs::create_dir_all(&dir);
            for (i, v) in t.violations.iter().enumerate() {
                let path = dir.join(format!("{}-{}.txt", self.prop, i));
                let body = format!(
                    "property: {}\ntier: {tier}\nseed: {}\ncase: {}/{}\nwhat: {}\n\n{}\n\nreplay: VERIF_SEED={} VERIF_TIER={tier} /verif/run.sh {} --case {}/{}\n",
                    self.prop, self.seed, v.group, v.index, v.kind, v.detail, self.seed, self.prop, v.group, v.index
                );
                let _ = std::fs::write(&path, body);
                println!(
                    "-- {} [{}/{}]: {}",
                    v.kind,
                    v.group,
                    v.index,
                    first_chars(&v.detail, 900)
                );
                if i < 5 {
                    println!("VIOLATION property={} replay={}", self.prop, path.display());
                }
            }
            return 1;
        }
        if !t.harness_errors.is_empty() {
            for e in t.harness_errors.iter().take(5) {
                println!("HARNESS-ERROR {e}");
            }
            return 3;
        }
        if self.only.is_none() {
            for (name, n) in self.required.lock().unwrap().iter() {
                let got = t.counters.get(name).copied().unwrap_or(0);
                if got < *n {
                    println!("INCONCLUSIVE: {name} = {got} < {n}: too little was observed");
                    return 4;
                }
            }
            if t.evaluations == 0 {
                println!("INCONCLUSIVE: nothing was observed");
                return 4;
            }
        }
        0
    }
}

pub fn strip_line(loc: &str) -> String {
    let file = loc.rsplit_once(':').map(|(f, _)| f).unwrap_or(loc);
    file.rsplit_once("/repo/")
        .map(|(_, f)| f)
        .unwrap_or(file)
        .to_string()
}

fn first_chars(s: &str, n: usize) -> String {
    s.chars().take(n).collect()
}

pub fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
