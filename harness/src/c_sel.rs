//! P18: tournament selection against its exact probabilities. P22: complexity statistics.
use crate::ast::Fl;
use crate::sgen::{gen_options};
use crate::c_search::{gen_search, Num};
use crate::common::*;
use crate::gen::*;
use dynamic_expressions::operator_enum::presets::{BuiltinOpsF32, BuiltinOpsF64};
use dynamic_expressions::{OperatorSet, PostfixExpr};
use symbolic_regression::verif::{Population, RunningSearchStatistics};
use symbolic_regression::{best_of_sample, MemberId, PopMember, SearchEngine};

/// Chance that the best of a tournament of `n` has 0-based overall rank `r` ... place `k`:
/// hypergeometric: rank r is drawn and exactly k of the better r are drawn with it.
fn place_probability(ln_fact: &[f64], len: usize, n: usize, r: usize, k: usize) -> f64 {
    // C(r,k) * C(len-1-r, n-1-k) / C(len, n)
    let ln_c = |a: usize, b: usize| -> f64 {
        if b > a {
            return f64::NEG_INFINITY;
        }
        ln_fact[a] - ln_fact[b] - ln_fact[a - b]
    };
    if k + 1 > n {
        return 0.0;
    }
    (ln_c(r, k) + ln_c(len - 1 - r, n - 1 - k) - ln_c(len, n)).exp()
}

fn p18_case<T: Fl, O: OperatorSet<T = T>, const D: usize>(c: &mut Case) {
    let ops = crate::sgen::gen_ops::<O>(&mut c.rng, D);
    let nf = 2;
    let (mut o, _) = gen_options::<T, O, D>(&mut c.rng, &ops, nf);
    let len = match c.rng.u8(..6) {
        0 => 1,
        1 => 2,
        2 => 40 + c.rng.usize(..60),
        3 if c.rng.u8(..8) == 0 => 100 + c.rng.usize(..1500),
        _ => 1 + c.rng.usize(..25),
    };
    o.tournament_selection_n = match c.rng.u8(..6) {
        4 if len >= 100 => 1 + c.rng.usize(..45),
        3 | 5 if len >= 100 => 1 + c.rng.usize(..len),
        0 => 1,
        1 => len,
        2 => len + 1 + c.rng.usize(..50),
        3 => 1 + c.rng.usize(..4),
        _ => 1 + c.rng.usize(..len + 3),
    };
    o.tournament_selection_p = [1.0, 0.982, 0.9, 0.5, 0.2, 0.05, 1e-3, 1e-6][c.rng.usize(..8)];
    o.use_frequency_in_tournament = c.rng.bool();
    o.adaptive_parsimony_scaling = [0.0, 1.0, 20.0, 1040.0, -3.0][c.rng.usize(..5)];
    let mut stats = RunningSearchStatistics::new(o.maxsize, 1000);
    if c.rng.u8(..4) > 0 {
        for v in stats.frequencies.iter_mut() {
            *v = 1.0 + (c.rng.f64() * 12.0).exp();
        }
        stats.normalize();
        if c.rng.u8(..6) == 0 {
            // a penalty that overflows for some sizes
            let i = c.rng.usize(..stats.normalized_frequencies.len());
            stats.normalized_frequencies[i] = 1.0;
        }
    }
    let g = GenCfg {
        ops,
        n_features: nf,
        n_consts: 2,
        p_const: 0.3,
    };
    let ties = c.rng.u8(..3) == 0;
    let special = c.rng.bool();
    let mut members = Vec::new();
    for i in 0..len {
        let budget = 1 + c.rng.usize(..8);
        let e: PostfixExpr<T, O, D> = gen_expr_canonical(&mut c.rng, &g, budget);
        let mut m = PopMember::from_expr(MemberId(1000 + i as u64), None, c.rng.u64(..1000), e, nf);
        let cost = match c.rng.u8(..10) {
            0 if special => f64::INFINITY,
            1 if special => 0.0,
            2 if special => 1e-30,
            _ if ties => c.rng.u32(1..5) as f64,
            _ => 0.01 + c.rng.f64() * 10.0,
        };
        m.cost = T::of(cost);
        m.loss = T::of(c.rng.f64());
        m.complexity = c.rng.usize(..o.maxsize + 3);
        members.push(m);
    }
    let print = |m: &PopMember<T, O, D>| {
        (m.id.0, m.parent.map(|p| p.0), m.birth, m.expr.nodes.clone(), m.expr.consts.iter().map(|v| v.key()).collect::<Vec<_>>(), m.loss.key(), m.cost.key(), m.complexity)
    };
    let before: Vec<_> = members.iter().map(print).collect();
    // reference score
    let score: Vec<f64> = members
        .iter()
        .map(|m| {
            let cost = m.cost.f();
            if !o.use_frequency_in_tournament || cost == 0.0 {
                return cost;
            }
            let f = if m.complexity >= 1 && m.complexity <= o.maxsize {
                stats.normalized_frequencies[m.complexity - 1]
            } else {
                0.0
            };
            cost * (o.adaptive_parsimony_scaling * f).exp()
        })
        .collect();
    // groups of members whose order is not determined
    let mut order: Vec<usize> = (0..len).collect();
    order.sort_by(|a, b| score[*a].total_cmp(&score[*b]));
    let near = |a: f64, b: f64| a == b || (a - b).abs() <= 1e-9 * a.abs().max(b.abs());
    let mut group = vec![0usize; len];
    let mut g_of = 0;
    for i in 1..len {
        if !near(score[order[i - 1]], score[order[i]]) {
            g_of += 1;
        }
        group[order[i]] = g_of;
    }
    let n = o.tournament_selection_n.min(len);
    let p = o.tournament_selection_p as f64;
    let mut place: Vec<f64> = (0..n).map(|k| p * (1.0 - p).powi(k as i32)).collect();
    let total: f64 = place.iter().sum();
    place.iter_mut().for_each(|v| *v /= total);
    let mut want = vec![0.0; g_of + 1];
    let mut by_block = [0.0; 8];
    let mut ln_fact = vec![0.0; len + 1];
    for i in 1..=len {
        ln_fact[i] = ln_fact[i - 1] + (i as f64).ln();
    }
    for (r, i) in order.iter().enumerate() {
        for (k, w) in place.iter().enumerate() {
            if k <= r && *w > 1e-15 {
                let p = w * place_probability(&ln_fact, len, n, r, k);
                want[group[*i]] += p;
                by_block[*i * 8 / len] += p;
            }
        }
    }
    let draws = if c.index % 8 == 0 || len > 200 { 20_000 } else { 3000 };
    let pop = Population::<T, O, D>::new(members);
    let mut rng = Rng::with_seed(c.rng.u64(..));
    let mut got = vec![0u64; g_of + 1];
    let mut each = vec![0u64; len];
    let ctx = || {
        format!(
            "{len} members, tournament {} p {}, frequency penalty {} x {}, maxsize {}, costs {:?}, sizes {:?}",
            o.tournament_selection_n, o.tournament_selection_p, o.use_frequency_in_tournament, o.adaptive_parsimony_scaling, o.maxsize,
            pop.members.iter().take(8).map(|m| m.cost).collect::<Vec<_>>(),
            pop.members.iter().take(8).map(|m| m.complexity).collect::<Vec<_>>(),
        )
    };
    for _ in 0..draws {
        let m = best_of_sample(&mut rng, &pop, &stats, &o);
        let i = (m.id.0 as usize).wrapping_sub(1000);
        if i >= len || print(&m) != before[i] {
            c.fail("the selected parent is not a copy of a member", format!("{:?}: {}", m.id, ctx()));
            return;
        }
        got[group[i]] += 1;
        each[i] += 1;
    }
    c.evals(draws);
    c.count("selections observed", draws);
    if pop.members.iter().map(print).collect::<Vec<_>>() != before {
        c.fail("selection modifies the population", ctx());
    }
    // ranks next to each other are pooled until they are frequent enough
    let (mut chi, mut dof, mut rest_e, mut rest_k) = (0.0, -1.0, 0.0, 0u64);
    for (k, w) in got.iter().zip(&want) {
        let e = w * draws as f64;
        // an event of expectation below 1e-7 is impossible
        if e < 1e-7 && *k > 0 {
            c.fail("a parent of impossible rank is selected", format!("{got:?}, expected shares {want:?}: {}", ctx()));
            return;
        }
        rest_e += e;
        rest_k += k;
        if rest_e >= 10.0 {
            chi += (rest_k as f64 - rest_e).powi(2) / rest_e;
            dof += 1.0;
            (rest_e, rest_k) = (0.0, 0);
        }
    }
    // where a member stands in the population has no influence
    if g_of + 1 == len && len >= 8 {
        let (mut chi_b, mut dof_b) = (0.0, -1.0);
        for (b, w) in by_block.iter().enumerate() {
            let e = w * draws as f64;
            let k: u64 = (0..len).filter(|i| i * 8 / len == b).map(|i| each[i]).sum();
            if e >= 10.0 {
                chi_b += (k as f64 - e).powi(2) / e;
                dof_b += 1.0;
            }
        }
        c.count("populations judged by position", 1);
        if dof_b > 0.0 && chi_b > dof_b + 8.0 * (2.0f64 * dof_b).sqrt() + 40.0 {
            c.fail("selection depends on a member's position", format!("chi2 {chi_b:.1} for {dof_b}, {each:?}: {}", ctx()));
        }
    }
    let rest_bad = rest_k as f64 > rest_e + 10.0 * rest_e.sqrt() + 25.0;
    c.count("rank frequencies judged", got.len() as u64);
    if rest_bad || dof > 0.0 && chi > dof + 8.0 * (2.0f64 * dof).sqrt() + 40.0 {
        c.fail(
            "selection frequencies differ from the tournament rule",
            format!("ranks {got:?} of {draws}, expected shares {want:?}, chi2 {chi:.1} for {dof}: {}", ctx()),
        );
    }
    c.distinct(hash_of(&(got, len)));
    c.sample(ctx);
}

pub fn p18(m: &Mon) {
    m.rule("distinct (population, rank histogram) pairs; members of equal score are pooled, observed rank frequencies are compared with the exact hypergeometric-geometric law by chi-square at eight standard deviations");
    m.assume("costs are not NaN and the selection probability is positive, as everywhere in the search");
    m.require("selections observed", 500_000);
    m.require("populations judged by position", 100);
    let n = m.scale(1600, 16_000);
    m.cases("select64", n, p18_case::<f64, BuiltinOpsF64, 3>);
    m.cases("select32", n / 2, p18_case::<f32, BuiltinOpsF32, 2>);
    m.cases("select-mixed", n / 4, p18_case::<f64, Mix4, 4>);
}

// ------------------------------------------------------------------------------------------ P22

fn check_norm(c: &mut Case, s: &RunningSearchStatistics, ctx: &dyn Fn() -> String) {
    let sum: f64 = s.frequencies.iter().sum();
    let norm: f64 = s.normalized_frequencies.iter().sum();
    c.eval();
    if s.normalized_frequencies.len() != s.frequencies.len() || (norm - 1.0).abs() > 1e-9 {
        c.fail("normalised frequencies do not sum to one", format!("{norm}: {}", ctx()));
    }
    for (i, (f, p)) in s.frequencies.iter().zip(&s.normalized_frequencies).enumerate() {
        if !(*p > 0.0) || (p * sum - f).abs() > 1e-9 * f {
            c.fail("a normalised frequency is not the share of its size", format!("size {}: {p} for {f} of {sum}: {}", i + 1, ctx()));
        }
        // floor of the reported frequency
        let r = s.freq(i + 1);
        if r != p.max(1e-6) {
            c.fail("the reported frequency is not the share of its size", format!("size {}: {r} for {p}: {}", i + 1, ctx()));
        }
    }
    for out in [0, s.frequencies.len() + 1, s.frequencies.len() + 100] {
        let r = s.freq(out);
        if !(r > 0.0 && r <= 1e-5) {
            c.fail("an impossible size has a frequency", format!("size {out}: {r}"));
        }
    }
}

fn check_window(c: &mut Case, before: &[f64], s: &RunningSearchStatistics, ctx: &dyn Fn() -> String) {
    let a = &s.frequencies;
    let window = s.window_size;
    let total: f64 = before.iter().sum();
    let now: f64 = a.iter().sum();
    c.eval();
    if a.len() != before.len() {
        c.fail("moving the window changes the number of sizes", ctx());
        return;
    }
    let show = || format!("{before:?} -> {a:?}, window {window}: {}", ctx());
    if total <= window {
        if a.iter().zip(before).any(|(x, y)| x != y) {
            c.fail("moving the window changes counts within the window", show());
        }
        return;
    }
    c.count("windows that shrank", 1);
    let slack = 1e-5 + 1e-9 * total;
    let least = before.len() as f64;
    // possible: everything down to one
    let target = window.max(least);
    if now > target + slack || now < window - slack {
        c.fail("moving the window misses the window size", format!("{now} for {target}: {}", show()));
    }
    for i in 0..a.len() {
        if a[i] < 1.0 - 1e-9 || a[i] > before[i] {
            c.fail("moving the window drops a count below one or raises it", format!("size {}: {}", i + 1, show()));
        }
    }
    let mut idx: Vec<usize> = (0..a.len()).collect();
    idx.sort_by(|x, y| before[*x].total_cmp(&before[*y]));
    for w in idx.windows(2) {
        if a[w[0]] > a[w[1]] + 1e-9 * total {
            c.fail("moving the window changes the order of two sizes", format!("sizes {} and {}: {}", w[0] + 1, w[1] + 1, show()));
        }
    }
}

fn p22_history(c: &mut Case) {
    let maxsize = sized(&mut c.rng, 1..41, 16, 60..400);
    let window = match c.rng.u8(..5) {
        0 => 1 + c.rng.usize(..maxsize),
        1 => maxsize,
        2 => 100_000,
        _ => maxsize + c.rng.usize(..400),
    };
    let mut s = RunningSearchStatistics::new(maxsize, window);
    let mut log = String::new();
    {
        let ctx = || format!("fresh, maxsize {maxsize} window {window}");
        check_norm(c, &s, &ctx);
        if s.frequencies.iter().any(|v| *v != 1.0) || s.window_size != window as f64 {
            c.fail("fresh statistics are not uniform", ctx());
        }
    }
    let hot = 1 + c.rng.usize(..maxsize);
    for step in 0..30 {
        let before = s.frequencies.clone();
        let ctx = |what: &str| format!("step {step} {what}, maxsize {maxsize} window {window}");
        match c.rng.u8(..4) {
            0 => {
                s.move_window();
                check_window(c, &before, &s, &|| ctx("move"));
                log.push('m');
            }
            1 => {
                s.normalize();
                check_norm(c, &s, &|| ctx("normalize"));
                if s.frequencies != before {
                    c.fail("normalising changes the counts", ctx("normalize"));
                }
                log.push('n');
            }
            _ => {
                let n = c.rng.usize(..200);
                let peaked = c.rng.bool();
                let sizes: Vec<usize> = (0..n)
                    .map(|_| if peaked && c.rng.u8(..5) > 0 { hot } else { c.rng.usize(..maxsize + 4) })
                    .collect();
                let mut want = before.clone();
                for k in &sizes {
                    if *k >= 1 && *k <= maxsize {
                        want[*k - 1] += 1.0;
                    }
                }
                if c.rng.bool() {
                    s.update_from_population(sizes.iter().copied());
                } else {
                    for k in &sizes {
                        s.update_frequencies(*k);
                    }
                }
                c.eval();
                c.count("observations counted", n as u64);
                if s.frequencies.iter().zip(&want).any(|(a, b)| (a - b).abs() > 1e-9 * b) {
                    c.fail("observed sizes are miscounted", format!("{sizes:?}: {before:?} -> {:?}: {}", s.frequencies, ctx("update")));
                }
                log.push('u');
            }
        }
        if c.failed() {
            return;
        }
    }
    c.distinct(hash_of(&(log, maxsize, window, s.frequencies.iter().map(|v| v.to_bits()).collect::<Vec<_>>())));
    c.sample(|| format!("maxsize {maxsize} window {window}: {:?}", &s.frequencies[..maxsize.min(6)]));
}

/// The statistics of a search count the members of every finished cycle.
fn p22_search<T: Num, O: OperatorSet<T = T> + Send + Sync, const D: usize>(c: &mut Case) {
    let s = gen_search::<T, O, D>(&mut c.rng);
    counted_search::<T, O, D>(c, s);
}

/// Populations so large that the counts outgrow the window within a few cycles.
fn p22_overflow<T: Num, O: OperatorSet<T = T> + Send + Sync, const D: usize>(c: &mut Case) {
    let mut s = gen_search::<T, O, D>(&mut c.rng);
    let o = &mut s.options;
    o.population_size = 9_000 + c.rng.usize(..16_000);
    o.populations = 1 + c.rng.usize(..3);
    o.niterations = 12 / o.populations;
    o.ncycles_per_iteration = 1 + c.rng.usize(..2);
    o.tournament_selection_n = o.population_size / (1 + c.rng.usize(..6));
    o.should_optimize_constants = false;
    o.warmup_maxsize_by = 0.0;
    o.maxsize = 6 + c.rng.usize(..30);
    counted_search::<T, O, D>(c, s);
}

fn counted_search<T: Num, O: OperatorSet<T = T> + Send + Sync, const D: usize>(c: &mut Case, mut s: crate::c_search::Setup<T, D>) {
    // without migration the population seen after a cycle is the one that was counted
    s.options.migration = false;
    s.options.hof_migration = false;
    let mut e = SearchEngine::<T, O, D>::new(s.data.clone(), s.options.clone());
    let maxsize = s.options.maxsize;
    let mut counts: Vec<f64> = e.verif_stats().frequencies.clone();
    if counts.len() != maxsize {
        c.fail("statistics of a search do not cover its sizes", format!("{} for {maxsize}", counts.len()));
        return;
    }
    let print = |e: &SearchEngine<T, O, D>, i: usize| -> Vec<(u64, u64)> {
        e.verif_population(i).unwrap().members.iter().map(|m| (m.id.0, m.birth)).collect()
    };
    let np = e.verif_n_populations();
    loop {
        let before: Vec<_> = (0..np).map(|i| print(&e, i)).collect();
        let counters: Vec<_> = (0..np).map(|i| e.verif_counters(i)).collect();
        if e.step(1) == 0 {
            break;
        }
        // which population ran: with failures skipped nothing may move, then the counters do
        let ran: Vec<usize> = (0..np).filter(|i| print(&e, *i) != before[*i] || e.verif_counters(*i) != counters[*i]).collect();
        c.eval();
        if np == 1 || ran.len() == 1 {
            let i = if np == 1 { 0 } else { ran[0] };
            for m in &e.verif_population(i).unwrap().members {
                if m.complexity >= 1 && m.complexity <= maxsize {
                    counts[m.complexity - 1] += 1.0;
                }
            }
            c.count("search cycles counted", 1);
            let window = e.verif_stats().window_size;
            if counts.iter().sum::<f64>() > window {
                let st = e.verif_stats().clone();
                check_window(c, &counts, &st, &|| format!("after cycle {} of a search", e.cycles_completed()));
                c.count("search cycles that moved the window", 1);
                counts = st.frequencies;
            } else if e.verif_stats().frequencies.iter().zip(&counts).any(|(a, b)| (a - b).abs() > 1e-9 * b) {
                c.fail(
                    "a search miscounts the sizes of its population",
                    format!("population {i}: {:?}, expected {counts:?}", e.verif_stats().frequencies),
                );
                return;
            }
        } else {
            counts = e.verif_stats().frequencies.clone();
        }
    }
    c.distinct(hash_of(&counts.iter().map(|v| *v as u64).collect::<Vec<_>>()));
}

pub fn p22(m: &Mon) {
    m.rule("distinct histories of observations, window moves and normalisations (with their resulting counts), and distinct final statistics of searches");
    m.assume("window moves are judged with an absolute slack of 1e-5 on the total, the code's own termination threshold");
    m.require("windows that shrank", 1000);
    m.require("observations counted", 100_000);
    m.require("search cycles counted", 200);
    m.cases("history", m.scale(20_000, 600_000), p22_history);
    let n = m.scale(300, 8000);
    m.cases("search64", n, p22_search::<f64, BuiltinOpsF64, 3>);
    m.cases("search-mixed", n / 2, p22_search::<f64, Mix4, 4>);
    m.require("search cycles that moved the window", 20);
    m.cases("search-overflow", n / 25, p22_overflow::<f64, BuiltinOpsF64, 3>);
}
