//! P11: the parallel search terminates, does all its work and surfaces worker failures.
//! Scenarios run one after another on a thread of their own; a supervisor watches a heartbeat of
//! operator applications and the state of every thread of the process.
use crate::sgen::{operators_from};
use crate::common::*;
use crate::gen::*;
use ndarray::Array1;
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::*};
use std::sync::{Arc, Barrier};
use std::time::{Duration, Instant};
use symbolic_regression::{equation_search, Dataset, HallOfFame, Options, SearchEngine};

static BEATS: AtomicU64 = AtomicU64::new(0);
static COUNT: AtomicU64 = AtomicU64::new(0);
static FAULT_AT: AtomicI64 = AtomicI64::new(i64::MAX);
static FAULT_FOREVER: AtomicBool = AtomicBool::new(false);
static FIRED: AtomicU64 = AtomicU64::new(0);
static DELAY: AtomicU64 = AtomicU64::new(0);
static LAST: AtomicU64 = AtomicU64::new(0);
static SCHEDULE: AtomicU64 = AtomicU64::new(0);
static SWITCHES: AtomicU64 = AtomicU64::new(0);
static NEXT_THREAD: AtomicU64 = AtomicU64::new(1);

thread_local! {
    static THREAD: Cell<(u64, u64)> = const { Cell::new((0, 0)) };
}

fn observe(v: f64) -> f64 {
    BEATS.fetch_add(1, Relaxed);
    let n = COUNT.fetch_add(1, Relaxed) as i64;
    let (id, r) = THREAD.with(|t| {
        let (mut id, mut r) = t.get();
        if id == 0 {
            id = NEXT_THREAD.fetch_add(1, Relaxed);
            r = id;
        }
        r = mix(r);
        t.set((id, r));
        (id, r)
    });
    if LAST.swap(id, Relaxed) != id {
        SWITCHES.fetch_add(1, Relaxed);
        let h = SCHEDULE.load(Relaxed);
        SCHEDULE.store(mix(h ^ id), Relaxed);
    }
    let at = FAULT_AT.load(Relaxed);
    if n == at || (n > at && FAULT_FOREVER.load(Relaxed)) {
        FIRED.fetch_add(1, SeqCst);
        panic!("{INTENDED} at operator application {n}");
    }
    match DELAY.load(Relaxed) {
        0 => {}
        d => {
            if r % 4096 < d {
                std::thread::sleep(Duration::from_micros(r >> 32 & 511));
            } else if r % 4096 < 4 * d {
                std::thread::yield_now();
            }
        }
    }
    v
}

dynamic_expressions::custom_opset! {
    pub struct Beating<f64> {
        1 {
            sine { eval: |a: &[f64; 1]| observe(a[0].sin()), partial: |a: &[f64; 1], _i: usize| a[0].cos(), }
        }
        2 {
            add { infix: "+", commutative: true, associative: true, eval: |a: &[f64; 2]| observe(a[0] + a[1]), partial: |_a: &[f64; 2], _i: usize| 1.0, }
            mul { infix: "*", commutative: true, associative: true, eval: |a: &[f64; 2]| observe(a[0] * a[1]), partial: |a: &[f64; 2], i: usize| [a[1], a[0]][i], }
        }
    }
}

const D: usize = 2;
type Hall = HallOfFame<f64, Beating, D>;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Where {
    /// From an ordinary thread: the global pool does the work.
    Outside,
    /// `pool.install` on a pool of this size.
    Installed,
    /// Spawned in a scope of the pool.
    Scoped,
    /// Several searches joined inside one pool.
    Joined,
    /// Several searches as a parallel iterator inside one pool.
    Iterated,
    /// Every other worker of the pool is kept busy until the search is over.
    Crowded,
    /// Several ordinary threads use the global pool at once.
    Concurrent,
}

fn gen(rng: &mut Rng) -> (Dataset<f64>, Options<f64, D>) {
    let nf = 1 + rng.usize(..3);
    let n_rows = 1 + rng.usize(..6);
    let x = gen_matrix::<f64>(rng, nf, n_rows, Data::Tame);
    let y = Array1::from_vec((0..n_rows).map(|r| x[[0, r]] * 1.5 + 0.3).collect());
    let ops = all_ops::<Beating>(D);
    let mut o = Options::<f64, D> {
        operators: operators_from(&ops),
        progress: false,
        ..Default::default()
    };
    o.seed = rng.u64(..);
    o.populations = match rng.u8(..5) {
        0 => 1,
        1 => 9 + rng.usize(..16),
        _ => 1 + rng.usize(..8),
    };
    o.population_size = 2 + rng.usize(..6);
    o.niterations = match rng.u8(..8) {
        0 => 0,
        _ => 1 + rng.usize(..4),
    };
    o.ncycles_per_iteration = 1 + rng.usize(..4);
    o.tournament_selection_n = 1 + rng.usize(..4);
    o.maxsize = 5 + rng.usize(..8);
    o.crossover_probability = 0.1;
    o.optimizer_probability = [0.0, 0.3][rng.usize(..2)];
    o.optimizer_nrestarts = 0;
    o.optimizer_iterations = 2;
    o.batching = rng.u8(..4) == 0;
    o.batch_size = 1 + rng.usize(..4);
    (Dataset::new(x, y), o)
}

/// Makes every population's course independent of the schedule.
fn isolate(o: &mut Options<f64, D>) {
    o.migration = false;
    o.hof_migration = false;
    o.use_frequency = false;
    o.use_frequency_in_tournament = false;
    o.warmup_maxsize_by = 0.0;
}

type Losses = Vec<Option<f64>>;

fn losses(h: &Hall) -> Losses {
    h.best_by_complexity.iter().map(|m| m.as_ref().map(|m| m.loss)).collect()
}

/// Equal up to ties: equal costs, of which the first found stays, can hide losses an ulp apart.
fn alike(a: &Losses, b: &Losses) -> bool {
    a.len() == b.len()
        && a.iter().zip(b).all(|(x, y)| match (x, y) {
            (None, None) => true,
            (Some(x), Some(y)) => x == y || (x - y).abs() <= 1e-13 * x.abs().max(y.abs()),
            _ => false,
        })
}

/// Fraction of the samples in which some thread of this process was running or waiting for a CPU.
fn busy_fraction(samples: u32) -> f64 {
    let mut busy = 0;
    for _ in 0..samples {
        let me = std::fs::read_link("/proc/thread-self").ok().and_then(|p| p.file_name().map(|f| f.to_owned()));
        if let Ok(dir) = std::fs::read_dir("/proc/self/task") {
            let any = dir.flatten().any(|t| {
                Some(t.file_name()) != me
                    && std::fs::read_to_string(t.path().join("stat"))
                        .ok()
                        .and_then(|s| s.rsplit_once(')').map(|(_, r)| r.trim_start().starts_with('R')))
                        .unwrap_or(false)
            });
            busy += any as u32;
        }
        std::thread::sleep(Duration::from_millis(10));
    }
    busy as f64 / samples as f64
}

fn process_cpu_s() -> f64 {
    std::fs::read_to_string("/proc/self/stat")
        .ok()
        .and_then(|s| {
            let (_, r) = s.rsplit_once(')')?;
            let f: Vec<&str> = r.split_whitespace().collect();
            Some((f.get(11)?.parse::<f64>().ok()? + f.get(12)?.parse::<f64>().ok()?) / 100.0)
        })
        .unwrap_or(0.0)
}

/// Runs `f` on its own thread; Err if it comes to rest without finishing or spins without progress.
fn supervised<R: Send + 'static>(f: impl FnOnce() -> R + Send + 'static) -> Result<R, String> {
    let (tx, rx) = std::sync::mpsc::channel();
    let h = std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            let r = f();
            let _ = tx.send(());
            r
        })
        .expect("spawn");
    let mut last = (BEATS.load(Relaxed), Instant::now(), process_cpu_s());
    loop {
        match rx.recv_timeout(Duration::from_millis(50)) {
            Ok(()) | Err(std::sync::mpsc::RecvTimeoutError::Disconnected) => {
                return h.join().map_err(|_| "the scenario thread panicked".to_string());
            }
            Err(_) => {}
        }
        let now = BEATS.load(Relaxed);
        if now != last.0 {
            last = (now, Instant::now(), process_cpu_s());
            continue;
        }
        if last.1.elapsed() > Duration::from_secs(6) {
            // No operator was applied for seconds. Is anything running or waiting for a CPU?
            let busy = busy_fraction(400);
            if BEATS.load(Relaxed) != last.0 {
                continue;
            }
            let cpu = process_cpu_s() - last.2;
            if busy < 0.2 {
                return Err(format!("every thread is at rest ({:.0}% busy) and the search has not returned", busy * 100.0));
            }
            if cpu > 120.0 {
                return Err(format!("{cpu:.0} CPU seconds without applying an operator"));
            }
        }
    }
}

type Outcome = Result<(Losses, f64), (String, String)>;

fn one(data: &Dataset<f64>, o: &Options<f64, D>) -> Outcome {
    guarded(|| equation_search::<f64, Beating, D>(data, o)).map(|r| (losses(&r.hall_of_fame), r.best.loss))
}

struct Scenario {
    place: Where,
    threads: usize,
    jobs: Vec<(Dataset<f64>, Options<f64, D>)>,
}

fn run(s: Arc<Scenario>) -> Vec<Outcome> {
    let pool = |n: usize| rayon::ThreadPoolBuilder::new().num_threads(n).stack_size(16 << 20).build().expect("pool");
    match s.place {
        Where::Outside => s.jobs.iter().map(|(d, o)| one(d, o)).collect(),
        Where::Installed => {
            let p = pool(s.threads);
            s.jobs.iter().map(|(d, o)| p.install(|| one(d, o))).collect()
        }
        Where::Scoped => {
            let p = pool(s.threads);
            let out: Vec<std::sync::Mutex<Option<Outcome>>> = s.jobs.iter().map(|_| Default::default()).collect();
            p.scope(|sc| {
                for ((d, o), slot) in s.jobs.iter().zip(&out) {
                    sc.spawn(move |_| *slot.lock().unwrap() = Some(one(d, o)));
                }
            });
            out.into_iter().map(|m| m.into_inner().unwrap().expect("scope ran")).collect()
        }
        Where::Joined => {
            fn go(jobs: &[(Dataset<f64>, Options<f64, D>)]) -> Vec<Outcome> {
                match jobs {
                    [] => vec![],
                    [(d, o)] => vec![one(d, o)],
                    _ => {
                        let (a, b) = jobs.split_at(jobs.len() / 2);
                        let (mut x, y) = rayon::join(|| go(a), || go(b));
                        x.extend(y);
                        x
                    }
                }
            }
            pool(s.threads).install(|| go(&s.jobs))
        }
        Where::Iterated => {
            use rayon::prelude::*;
            pool(s.threads).install(|| s.jobs.par_iter().map(|(d, o)| one(d, o)).collect())
        }
        Where::Crowded => {
            let p = pool(s.threads);
            let done = AtomicBool::new(false);
            let arrived = Barrier::new(s.threads);
            let mut out = Vec::new();
            p.in_place_scope(|sc| {
                for _ in 1..s.threads {
                    sc.spawn(|_| {
                        arrived.wait();
                        while !done.load(Acquire) {
                            std::thread::sleep(Duration::from_micros(200));
                        }
                    });
                }
                out = p.install(|| {
                    arrived.wait();
                    let r = s.jobs.iter().map(|(d, o)| one(d, o)).collect();
                    done.store(true, Release);
                    r
                });
            });
            out
        }
        Where::Concurrent => std::thread::scope(|sc| {
            let hs: Vec<_> = s.jobs.iter().map(|(d, o)| sc.spawn(move || one(d, o))).collect();
            hs.into_iter().map(|h| h.join().expect("search thread")).collect()
        }),
    }
}

/// After one hang the process holds blocked threads: nothing further is judged.
static HUNG: AtomicBool = AtomicBool::new(false);

fn p11_case(c: &mut Case) {
    if HUNG.load(SeqCst) {
        return;
    }
    let place = [
        Where::Outside,
        Where::Installed,
        Where::Installed,
        Where::Scoped,
        Where::Joined,
        Where::Iterated,
        Where::Crowded,
        Where::Concurrent,
    ][c.rng.usize(..8)];
    let threads = [1, 1, 2, 2, 3, 4, 8][c.rng.usize(..7)];
    let n_jobs = match place {
        Where::Outside | Where::Installed | Where::Crowded => 1 + c.rng.usize(..2),
        _ => 1 + c.rng.usize(..5),
    };
    let same = c.rng.bool();
    let jobs: Vec<_> = (0..n_jobs)
        .map(|_| {
            let (d, mut o) = gen(&mut c.rng);
            if same {
                isolate(&mut o);
            }
            (d, o)
        })
        .collect();
    FAULT_AT.store(i64::MAX, SeqCst);
    FAULT_FOREVER.store(false, SeqCst);
    DELAY.store(0, SeqCst);

    // what must come out where the schedule has no say
    let mut want: Vec<(Losses, f64)> = Vec::new();
    COUNT.store(0, SeqCst);
    if same {
        for (d, o) in &jobs {
            let e = SearchEngine::<f64, Beating, D>::new(d.clone(), o.clone());
            let r = e.run_to_completion();
            want.push((losses(&r.hall_of_fame), r.best.loss));
        }
    }
    let serial_work = COUNT.load(SeqCst);
    // a plausible amount of work, to place a fault in it
    let work = if same {
        serial_work
    } else {
        jobs.iter()
            .map(|(d, o)| {
                let e = SearchEngine::<f64, Beating, D>::new(d.clone(), o.clone());
                let _ = e.run_to_completion();
            })
            .count();
        COUNT.load(SeqCst)
    };
    let fault = c.rng.u8(..3) == 0 && work > 0;
    let forever = c.rng.bool();
    let at = if c.rng.u8(..4) == 0 {
        // right at the end or beyond
        work as i64 - c.rng.i64(0..20)
    } else {
        c.rng.i64(0..work.max(1) as i64)
    };
    DELAY.store(if work > 400_000 { 0 } else { [0, 0, 2, 16, 64][c.rng.usize(..5)] }, SeqCst);
    FAULT_AT.store(if fault { at.max(0) } else { i64::MAX }, SeqCst);
    FAULT_FOREVER.store(forever, SeqCst);
    FIRED.store(0, SeqCst);
    COUNT.store(0, SeqCst);
    SWITCHES.store(0, SeqCst);
    SCHEDULE.store(c.index, SeqCst);
    let s = Arc::new(Scenario { place, threads, jobs });
    let shown: Vec<_> = s
        .jobs
        .iter()
        .map(|(d, o)| {
            format!(
                "{} pops x {} it {} cyc {} rows {} batching {} seed {}",
                o.populations, o.population_size, o.niterations, o.ncycles_per_iteration, d.n_rows, o.batching, o.seed
            )
        })
        .collect();
    let ctx = || format!("{place:?} on {threads} threads, fault {:?} forever {forever}, schedule-free {same}: {shown:?}", fault.then_some(at));
    let got = match supervised({
        let s = s.clone();
        move || run(s)
    }) {
        Ok(g) => g,
        Err(why) => {
            HUNG.store(true, SeqCst);
            c.fail("a parallel search does not return", format!("{why}: {}", ctx()));
            return;
        }
    };
    let done = COUNT.load(SeqCst);
    let fired = FIRED.load(SeqCst);
    FAULT_AT.store(i64::MAX, SeqCst);
    c.evals(s.jobs.len() as u64);
    c.count("searches returned", s.jobs.len() as u64);
    c.count("thread switches observed", SWITCHES.load(SeqCst));
    c.count(
        match place {
            Where::Outside => "searches outside a pool",
            Where::Installed => "searches installed in a pool",
            Where::Scoped => "searches spawned in a pool",
            Where::Joined => "searches joined in a pool",
            Where::Iterated => "searches iterated in a pool",
            Where::Crowded => "searches in a crowded pool",
            Where::Concurrent => "searches on concurrent threads",
        },
        s.jobs.len() as u64,
    );
    if threads == 1 && place != Where::Outside && place != Where::Concurrent {
        c.count("one-thread pools", 1);
    }
    c.distinct(SCHEDULE.load(SeqCst));
    let errs = got.iter().filter(|g| g.is_err()).count();
    for (i, g) in got.iter().enumerate() {
        match g {
            Err((msg, loc)) => {
                if !msg.contains(INTENDED) {
                    c.fail("a search fails by itself", format!("{msg} at {loc}: {}", ctx()));
                    return;
                }
                c.count("worker failures surfaced", 1);
            }
            Ok(r) => {
                if same && (!alike(&r.0, &want[i].0) || r.1.to_bits() != want[i].1.to_bits()) {
                    c.fail(
                        "a parallel search without exchange differs from the stepwise one",
                        format!("search {i}: best {} for {}, {} slots differ: {}", r.1, want[i].1, r.0.iter().zip(&want[i].0).filter(|(a, b)| a != b).count(), ctx()),
                    );
                }
            }
        }
    }
    if fired == 0 && errs > 0 {
        c.fail("a search fails without a fault", ctx());
    }
    if fired > 0 && errs == 0 {
        c.fail("a worker failure is swallowed", format!("{fired} faults fired: {}", ctx()));
    }
    if fired == 1 && !forever && errs != 1 {
        c.fail("one worker failure ends several searches", format!("{errs} failed: {}", ctx()));
    }
    if same && errs == 0 && done != serial_work {
        c.fail("a parallel search does a different amount of work", format!("{done} operator applications for {serial_work}: {}", ctx()));
    }
    if same && errs == 0 {
        c.count("searches with exact work", s.jobs.len() as u64);
    }
    c.sample(ctx);
}

/// A search works again in a pool in which another one failed.
fn p11_after_failure(c: &mut Case) {
    if HUNG.load(SeqCst) {
        return;
    }
    let threads = 1 + c.rng.usize(..4);
    let p = Arc::new(rayon::ThreadPoolBuilder::new().num_threads(threads).stack_size(16 << 20).build().expect("pool"));
    DELAY.store(0, SeqCst);
    FAULT_FOREVER.store(false, SeqCst);
    for round in 0..4 {
        let (d, mut o) = gen(&mut c.rng);
        isolate(&mut o);
        o.niterations = o.niterations.max(1);
        FAULT_AT.store(i64::MAX, SeqCst);
        COUNT.store(0, SeqCst);
        let r = SearchEngine::<f64, Beating, D>::new(d.clone(), o.clone()).run_to_completion();
        let want = losses(&r.hall_of_fame);
        let work = COUNT.load(SeqCst);
        let fault = round % 2 == 0 && work > 1;
        FIRED.store(0, SeqCst);
        COUNT.store(0, SeqCst);
        if fault {
            FAULT_AT.store(c.rng.i64(0..work as i64), SeqCst);
        }
        let ctx = format!("round {round} on {threads} threads, {} populations, fault {fault}", o.populations);
        let inside = c.rng.bool();
        let p2 = p.clone();
        let got = supervised(move || if inside { p2.install(|| one(&d, &o)) } else { one(&d, &o) });
        FAULT_AT.store(i64::MAX, SeqCst);
        c.eval();
        match got {
            Err(why) => {
                HUNG.store(true, SeqCst);
                c.fail("a parallel search does not return", format!("{why}: {ctx}"));
                return;
            }
            Ok(Err((m, _))) if fault && m.contains(INTENDED) => c.count("worker failures surfaced", 1),
            Ok(Err((m, l))) => c.fail("a search fails by itself", format!("{m} at {l}: {ctx}")),
            Ok(Ok(_)) if FIRED.load(SeqCst) > 0 => c.fail("a worker failure is swallowed", ctx),
            Ok(Ok((h, _))) => {
                if !alike(&h, &want) {
                    c.fail("a parallel search without exchange differs from the stepwise one", ctx);
                }
                if !fault && round > 0 {
                    c.count("searches after a failure", 1);
                }
            }
        }
    }
    c.distinct(c.index ^ 0xabcdef);
}

pub fn p11(m: &Mon) {
    m.rule("distinct sequences of threads applying operators (one hash per scenario); returned searches are judged against the stepwise search where populations do not interact");
    m.assume("a search that applied no operator for six seconds while all threads rest for four more does not return; resting is judged by thread states, not by time on a loaded machine");
    m.assume("rayon and the standard channel are trusted");
    m.require("searches returned", 300);
    m.require("searches with exact work", 80);
    m.require("worker failures surfaced", 40);
    m.require("one-thread pools", 10);
    m.case_cpu_limit(1_000_000);
    let n = m.scale(500, 12_000);
    m.cases_on(1, "schedules", n, p11_case);
    m.cases_on(1, "after-failure", n / 5, p11_after_failure);
}
