//! P28: progress and evaluation counts of a search.
use crate::ast::show_expr;
use crate::c_search::{gen_search, show_setup, Num};
use crate::common::*;
use crate::gen::*;
use crate::sgen::{operators_from, weights_zero};
use dynamic_expressions::operator_enum::presets::{BuiltinOpsF32, BuiltinOpsF64};
use dynamic_expressions::{Metadata, OperatorSet, PNode, PostfixExpr};
use ndarray::Array1;
use std::cell::Cell;
use std::collections::HashSet;
use std::marker::PhantomData;
use symbolic_regression::verif::{crossover_generation, reg_evol_cycle, CrossoverCtx, Population, RegEvolCtx};
use symbolic_regression::{
    next_generation, Dataset, Evaluator, MemberId, NextGenerationCtx, Options, PopMember, RunningSearchStatistics, SearchEngine,
    TaggedDataset,
};

thread_local! {
    static APPLIED: Cell<u64> = const { Cell::new(0) };
}

fn tick(v: f64) -> f64 {
    APPLIED.with(|a| a.set(a.get() + 1));
    v
}

fn applied() -> u64 {
    APPLIED.with(|a| a.get())
}

// One operator: every expression grown by it keeps its operator count under the mutations used here,
// so the number of operator applications tells how many expressions were scored.
dynamic_expressions::custom_opset! {
    struct Ticking<f64> {
        2 {
            blend { eval: |a: &[f64; 2]| tick(0.5 * a[0] - 0.25 * a[1]), partial: |_a: &[f64; 2], i: usize| [0.5, -0.25][i], }
        }
    }
}

dynamic_expressions::custom_opset! {
    struct Failing<f64> {
        2 {
            root { eval: |a: &[f64; 2]| tick((a[0] - a[1]).sqrt()), partial: |_a: &[f64; 2], _i: usize| 0.0, }
        }
    }
}

/// Everything the engine reports, bit for bit.
fn report<T: Num, O: OperatorSet<T = T>, const D: usize>(e: &SearchEngine<T, O, D>) -> u64 {
    let hall: Vec<_> = e.hall_of_fame().members().map(|m| (m.id.0, m.birth, m.loss.key(), m.cost.key(), m.complexity, format!("{:?}", m.expr.nodes))).collect();
    let b = e.best();
    hash_of(&(hall, b.id.0, b.loss.key(), b.complexity, e.total_evals(), e.cycles_completed()))
}

/// What tells one population's state from the next.
fn state<T: Num, O: OperatorSet<T = T>, const D: usize>(e: &SearchEngine<T, O, D>, i: usize) -> Option<(u64, u64, u64)> {
    let p = e.verif_population(i)?;
    let (a, b) = e.verif_counters(i)?;
    Some((a, b, hash_of(&p.members.iter().map(|m| (m.id.0, m.birth, m.loss.key())).collect::<Vec<_>>())))
}

fn p28_steps<T: Num, O: OperatorSet<T = T>, const D: usize>(c: &mut Case) {
    let mut s = gen_search::<T, O, D>(&mut c.rng);
    let long = c.rng.u8(..60) == 0;
    s.options.niterations = if long { 50 + c.rng.usize(..300) } else { c.rng.usize(..6) };
    s.options.populations = 1 + c.rng.usize(..7);
    s.options.population_size = 2 + c.rng.usize(..6);
    s.options.ncycles_per_iteration = 1 + c.rng.usize(..3);
    if long {
        s.options.populations = 1 + c.rng.usize(..3);
        s.options.population_size = 2;
        s.options.ncycles_per_iteration = 1;
        s.options.optimizer_probability = 0.05;
    }
    s.options.optimizer_iterations = 1 + c.rng.usize(..2);
    // every cycle replaces members, so the population worked on can be told
    s.options.skip_mutation_failures = false;
    s.options.crossover_probability = 0.0;
    let show = show_setup::<T, O, D>(&s);
    let (pops, its) = (s.options.populations, s.options.niterations);
    let total = pops * its;
    let initial = (pops * s.options.population_size) as u64;
    let mut e = SearchEngine::<T, O, D>::new(s.data, s.options);
    c.eval();
    if e.total_cycles() != total || e.cycles_completed() != 0 || e.is_finished() != (total == 0) {
        c.fail("a fresh search reports wrong progress", format!("{}/{} finished {}: {show}", e.cycles_completed(), e.total_cycles(), e.is_finished()));
        return;
    }
    if e.total_evals() != initial {
        c.fail("a fresh search has not counted each initial member once", format!("{} for {initial}: {show}", e.total_evals()));
        return;
    }
    let mut done = 0;
    let mut round: HashSet<usize> = HashSet::new();
    let mut orders: Vec<Vec<usize>> = vec![vec![]];
    let mut idle = 0;
    for _ in 0..4 * total + 20 {
        let k = match c.rng.u8(..24) {
            0..3 => 0,
            3..5 => 2 + c.rng.usize(..if long { 12 } else { total + 2 }),
            5 if !long || done + 20 > total => usize::MAX,
            _ => 1,
        };
        let before: Vec<_> = (0..pops).map(|i| state(&e, i)).collect();
        let (evals, told) = (e.total_evals(), report(&e));
        let got = e.step(k);
        c.eval();
        let want = k.min(total - done);
        done += want;
        let ctx = || format!("step({k}) gave {got}, now {}/{} evals {}: {show}", e.cycles_completed(), e.total_cycles(), e.total_evals());
        if got != want {
            c.fail("a step does not report the cycles it was asked for", ctx());
            return;
        }
        if e.cycles_completed() != done || e.total_cycles() != total || e.is_finished() != (done == total) {
            c.fail("the progress of a search does not match its steps", ctx());
            return;
        }
        let after: Vec<_> = (0..pops).map(|i| state(&e, i)).collect();
        let changed: Vec<usize> = (0..pops).filter(|i| before[*i] != after[*i]).collect();
        if after.iter().any(Option::is_none) {
            c.fail("a population is missing between steps", ctx());
            return;
        }
        if want == 0 {
            idle += 1;
            if !changed.is_empty() || report(&e) != told {
                c.fail("a step without cycles changes the search", ctx());
                return;
            }
            if done == total && idle > 3 {
                break;
            }
            continue;
        }
        // each cycle rescores its whole population
        let least = (want * before_len(&e)) as u64;
        if e.total_evals() < evals + least {
            c.fail("a cycle counts fewer evaluations than it has members to score", format!("{evals} before: {}", ctx()));
            return;
        }
        if want == 1 {
            c.count("single cycles observed", 1);
            if changed.len() != 1 {
                c.fail("a cycle does not work on exactly one population", format!("{changed:?}: {}", ctx()));
                return;
            }
        }
        if want < pops && changed.len() > want || want >= pops && changed.is_empty() {
            c.fail("cycles work on the wrong number of populations", format!("{changed:?}: {}", ctx()));
            return;
        }
        if want == 1 {
            if !round.insert(changed[0]) {
                c.fail("a population gets two cycles in one iteration", format!("{changed:?} after {round:?}: {}", ctx()));
                return;
            }
            orders.last_mut().unwrap().push(changed[0]);
            if round.len() == pops {
                c.count("iterations observed cycle by cycle", 1);
                round.clear();
                orders.push(vec![]);
            }
        } else {
            // several cycles: what of them falls into the current iteration must be new to it
            let rest = pops - round.len();
            let here = want.min(rest);
            if want <= rest {
                if changed.iter().any(|i| round.contains(i)) || changed.len() != here {
                    c.fail("a population gets two cycles in one iteration", format!("{changed:?} after {round:?}: {}", ctx()));
                    return;
                }
                round.extend(changed);
                if round.len() == pops {
                    round.clear();
                    orders.push(vec![]);
                }
            } else if done % pops == 0 {
                if want >= pops && changed.len() != pops {
                    c.fail("an iteration leaves out a population", format!("{changed:?}: {}", ctx()));
                    return;
                }
                round.clear();
            } else {
                // somewhere inside a later iteration: single out who is left to work by finishing it
                let left = pops - done % pops;
                let before: Vec<_> = (0..pops).map(|i| state(&e, i)).collect();
                let got = e.step(left);
                done += left;
                let changed = (0..pops).filter(|i| before[*i] != state(&e, *i)).count();
                if got != left || changed != left || e.cycles_completed() != done {
                    c.fail("a population gets two cycles in one iteration", format!("the last {left} of an iteration worked on {changed}: {show}"));
                    return;
                }
                round.clear();
            }
            orders.push(vec![]);
        }
    }
    if done != total || !e.is_finished() {
        let left = e.step(usize::MAX);
        if left != total - done || !e.is_finished() || e.step(1) != 0 {
            c.fail("a search does not run to its end", format!("{left} more after {done} of {total}: {show}"));
        }
    }
    c.count("searches stepped to their end", 1);
    c.distinct(hash_of(&(orders, total, report(&e))));
    c.sample(|| show);
}

fn before_len<T: Num, O: OperatorSet<T = T>, const D: usize>(e: &SearchEngine<T, O, D>) -> usize {
    e.options().population_size
}

fn tame(rng: &mut Rng) -> Dataset<f64> {
    let nf = 1 + rng.usize(..3);
    // an operator over constants is applied once, not once per row
    let n = 1;
    let x = gen_matrix::<f64>(rng, nf, n, Data::Tame);
    let y = Array1::from_vec((0..n).map(|r| x[[0, r]] * 0.7 + rng.f64()).collect());
    Dataset::new(x, y)
}

/// A search whose expressions all have three operators: applications tell evaluations.
fn p28_evals(c: &mut Case) {
    const D: usize = 2;
    let data = tame(&mut c.rng);
    let rows = data.n_rows as u64;
    let ops = all_ops::<Ticking>(D);
    let mut o = Options::<f64, D> {
        operators: operators_from(&ops),
        progress: false,
        ..Default::default()
    };
    o.seed = c.rng.u64(..);
    o.populations = 1 + c.rng.usize(..4);
    o.population_size = 2 + c.rng.usize(..12);
    o.niterations = 1 + c.rng.usize(..4);
    o.ncycles_per_iteration = 1 + c.rng.usize(..12);
    o.tournament_selection_n = 1 + c.rng.usize(..6);
    o.crossover_probability = 0.0;
    o.should_simplify = false;
    o.should_optimize_constants = false;
    o.optimizer_probability = 0.0;
    o.use_baseline = c.rng.bool();
    o.annealing = c.rng.bool();
    o.use_frequency = c.rng.bool();
    o.use_frequency_in_tournament = c.rng.bool();
    o.skip_mutation_failures = c.rng.bool();
    o.migration = c.rng.bool();
    o.hof_migration = c.rng.bool();
    o.fraction_replaced = 0.3;
    o.batching = c.rng.bool();
    o.batch_size = data.n_rows;
    if c.rng.bool() {
        o.warmup_maxsize_by = c.rng.f32();
    }
    if c.rng.bool() {
        o.maxdepth = 2 + c.rng.usize(..3);
    }
    let mut w = weights_zero();
    w.swap_operands = c.rng.f64();
    w.rotate_tree = c.rng.f64();
    w.mutate_feature = c.rng.f64();
    w.mutate_constant = c.rng.f64();
    w.do_nothing = 0.5 * c.rng.f64() + 0.01;
    o.mutation_weights = w;
    let show = format!(
        "seed {} {} pops x {} it {} cyc {} rows {rows} batching {} skip {} anneal {} freq {} maxdepth {} warmup {}",
        o.seed, o.populations, o.population_size, o.niterations, o.ncycles_per_iteration, o.batching, o.skip_mutation_failures, o.annealing, o.use_frequency, o.maxdepth, o.warmup_maxsize_by
    );
    let a0 = applied();
    let mut e = SearchEngine::<f64, Ticking, D>::new(data, o);
    let start = e.total_evals();
    let judge = |c: &mut Case, what: &str, ops: u64, evals: u64| {
        c.eval();
        c.count("evaluations judged", evals);
        if ops != evals * 3 * rows {
            c.fail(format!("{what} are counted wrongly"), format!("{evals} counted, {ops} operator applications = {} evaluations: {show}", ops as f64 / (3 * rows) as f64));
        }
    };
    judge(c, "initial evaluations", applied() - a0, start);
    loop {
        let (a, n) = (applied(), e.total_evals());
        if e.step(1) == 0 {
            break;
        }
        judge(c, "the evaluations of a cycle", applied() - a, e.total_evals() - n);
        if c.failed() {
            return;
        }
    }
    c.distinct(hash_of(&(report(&e), applied())));
    c.sample(|| show.clone());
}

/// Batches of another size than the data: expressions without constants apply each operator once per row.
fn p28_batches(c: &mut Case) {
    const D: usize = 2;
    let nf = 1 + c.rng.usize(..2);
    let rows = 1 + c.rng.usize(..6);
    let x = gen_matrix::<f64>(&mut c.rng, nf, rows, Data::Tame);
    let y = Array1::from_vec((0..rows).map(|r| x[[0, r]] * 0.7 + c.rng.f64()).collect());
    let ops = all_ops::<Ticking>(D);
    let mut o = Options::<f64, D> {
        operators: operators_from(&ops),
        progress: false,
        populations: 1,
        population_size: 2,
        niterations: 1 + c.rng.usize(..3),
        ncycles_per_iteration: 1 + c.rng.usize(..8),
        tournament_selection_n: 1 + c.rng.usize(..2),
        crossover_probability: 0.0,
        should_simplify: false,
        should_optimize_constants: false,
        optimizer_probability: 0.0,
        use_baseline: c.rng.bool(),
        annealing: c.rng.bool(),
        use_frequency: c.rng.bool(),
        skip_mutation_failures: c.rng.bool(),
        hof_migration: c.rng.bool(),
        batching: c.rng.u8(..4) != 0,
        batch_size: 1 + c.rng.usize(..9),
        ..Default::default()
    };
    let mut w = weights_zero();
    w.swap_operands = c.rng.f64();
    w.rotate_tree = c.rng.f64();
    w.mutate_feature = c.rng.f64();
    w.do_nothing = 0.5 * c.rng.f64() + 0.01;
    o.mutation_weights = w;
    let mut tries = 0;
    let mut e = loop {
        o.seed = c.rng.u64(..);
        let e = SearchEngine::<f64, Ticking, D>::new(Dataset::new(x.clone(), y.clone()), o.clone());
        let p = e.verif_population(0).expect("population");
        if p.members.iter().all(|m| m.expr.consts.is_empty() && m.expr.nodes.len() == 7) {
            break e;
        }
        tries += 1;
        if tries > 4000 {
            return;
        }
    };
    let (full, part) = (3 * rows as u64, 3 * if o.batching { o.batch_size } else { rows } as u64);
    loop {
        let (a, n) = (applied(), e.total_evals());
        if e.step(1) == 0 {
            break;
        }
        let (used, told) = (applied() - a, e.total_evals() - n);
        c.eval();
        // two members rescored, and the one size seen in batches
        let fits = (2..=2 + o.batching as u64).any(|f| told >= f && f * full + (told - f) * part == used);
        if !fits {
            c.fail(
                "the evaluations of a cycle are counted wrongly",
                format!("{told} counted, {used} operator applications, rows {rows} batching {} of {} seed {} cyc {}", o.batching, o.batch_size, o.seed, o.ncycles_per_iteration),
            );
            return;
        }
        c.count("cycles on batches judged", o.batching as u64);
    }
    c.distinct(hash_of(&(report(&e), applied())));
}

fn member<O: OperatorSet<T = f64>>(rng: &mut Rng, nf: usize, budget: usize, op: u16) -> PostfixExpr<f64, O, 2> {
    let mut consts = vec![];
    fn go(rng: &mut Rng, nf: usize, ops: usize, op: u16, nodes: &mut Vec<PNode>, consts: &mut Vec<f64>) {
        if ops == 0 {
            if rng.u8(..3) == 0 {
                nodes.push(PNode::Const { idx: consts.len() as u16 });
                consts.push(rng.f64() * 4.0 - 2.0);
            } else {
                nodes.push(PNode::Var { feature: rng.usize(..nf) as u16 });
            }
            return;
        }
        let left = rng.usize(..ops);
        go(rng, nf, left, op, nodes, consts);
        go(rng, nf, ops - 1 - left, op, nodes, consts);
        nodes.push(PNode::Op { arity: 2, op });
    }
    let mut nodes = vec![];
    go(rng, nf, budget, op, &mut nodes, &mut consts);
    PostfixExpr::new(nodes, consts, Metadata::default())
}

/// Single offspring: one evaluation when the offspring was scored, whether it succeeded or not.
fn p28_offspring<O: OperatorSet<T = f64>>(c: &mut Case) {
    const D: usize = 2;
    let data = tame(&mut c.rng);
    let nf = data.n_features;
    let rows = data.n_rows;
    let ops = all_ops::<O>(D);
    let mut o = Options::<f64, D> {
        operators: operators_from(&ops),
        progress: false,
        maxsize: 5 + c.rng.usize(..25),
        maxdepth: if c.rng.bool() { 2 + c.rng.usize(..4) } else { 30 },
        annealing: c.rng.bool(),
        use_frequency: c.rng.bool(),
        use_baseline: false,
        crossover_probability: c.rng.f64(),
        skip_mutation_failures: c.rng.bool(),
        tournament_selection_n: 1 + c.rng.usize(..4),
        ..Default::default()
    };
    let mut w = weights_zero();
    w.swap_operands = c.rng.f64();
    w.rotate_tree = c.rng.f64();
    w.mutate_feature = c.rng.f64();
    w.mutate_constant = c.rng.f64();
    w.do_nothing = 0.3 * c.rng.f64();
    w.add_node = c.rng.f64();
    w.insert_node = c.rng.f64();
    w.delete_node = c.rng.f64();
    w.randomize = 0.3 * c.rng.f64();
    o.mutation_weights = w;
    let tagged = TaggedDataset::new(&data, None);
    let mut ev = Evaluator::<f64, D>::new(rows);
    let len = 2 + c.rng.usize(..10);
    let members: Vec<_> = (0..len)
        .map(|i| {
            let size = c.rng.usize(..6);
            let e = member::<O>(&mut c.rng, nf, size, ops[0].id);
            let mut m = PopMember::from_expr(MemberId(i as u64), None, i as u64, e, nf);
            m.evaluate(&tagged, &o, &mut ev);
            m
        })
        .collect();
    let mut rng = Rng::with_seed(c.rng.u64(..));
    let mut stats = RunningSearchStatistics::new(o.maxsize, 1000);
    stats.normalize();
    let (mut next_id, mut next_birth) = (1000u64, 1000u64);
    let curmaxsize = if c.rng.bool() { o.maxsize } else { 3 + c.rng.usize(..o.maxsize - 2) };
    let n_ops = |e: &PostfixExpr<f64, O, D>| e.nodes.iter().filter(|n| matches!(n, PNode::Op { .. })).count() as u64;
    for i in 0..12 {
        let p = &members[c.rng.usize(..len)];
        let (a, id0) = (applied(), next_id);
        let (baby, accepted, evals) = next_generation(
            p,
            NextGenerationCtx {
                rng: &mut rng,
                dataset: tagged,
                temperature: 1.0,
                curmaxsize,
                stats: &stats,
                options: &o,
                evaluator: &mut ev,
                next_id: &mut next_id,
                next_birth: &mut next_birth,
                _ops: PhantomData::<O>,
            },
        );
        let used = applied() - a;
        c.eval();
        let ctx = || format!("{} -> {} accepted {accepted}, {used} applications, {evals} counted", show_expr(&p.expr), show_expr(&baby.expr));
        if evals != 0.0 && evals != 1.0 || used > 0 && evals != 1.0 {
            c.fail("the evaluation of an offspring is not counted once", ctx());
            return;
        }
        if used > 0 {
            c.count(if accepted { "accepted offspring" } else if baby.loss.is_finite() || n_ops(&baby.expr) == 0 { "rejected offspring" } else { "offspring of failing parents" }, 1);
        }
        if accepted && evals == 1.0 && n_ops(&baby.expr) * rows as u64 != used && baby.loss.is_finite() {
            c.fail("an offspring is scored more than once", ctx());
            return;
        }
        let q = &members[c.rng.usize(..len)];
        let a = applied();
        let (x, y, ok, evals) = crossover_generation(
            p,
            q,
            CrossoverCtx {
                rng: &mut rng,
                dataset: tagged,
                curmaxsize,
                options: &o,
                evaluator: &mut ev,
                next_id: &mut next_id,
                next_birth: &mut next_birth,
                _ops: PhantomData::<O>,
            },
        );
        let used = applied() - a;
        let ctx = || format!("{} x {} -> {} , {} ok {ok}, {used} applications, {evals} counted", show_expr(&p.expr), show_expr(&q.expr), show_expr(&x.expr), show_expr(&y.expr));
        c.eval();
        if evals != if ok { 2.0 } else { 0.0 } || !ok && used > 0 {
            c.fail("the evaluations of a crossover are counted wrongly", ctx());
            return;
        }
        if ok && x.loss.is_finite() && y.loss.is_finite() && used != (n_ops(&x.expr) + n_ops(&y.expr)) * rows as u64 {
            c.fail("offspring of a crossover are not scored once each", ctx());
            return;
        }
        c.count(if ok { "successful crossovers" } else { "failed crossovers" }, 1);
        c.distinct(hash_of(&(i, used, next_id - id0, show_expr(&x.expr), show_expr(&baby.expr))));
    }
    // a whole generation: between one evaluation and two per step
    let mut pop = Population::<f64, O, D>::new(members);
    let steps = len.div_ceil(o.tournament_selection_n) as f64;
    let a = applied();
    let got = reg_evol_cycle(
        &mut pop,
        RegEvolCtx {
            rng: &mut rng,
            dataset: tagged,
            temperature: 1.0,
            curmaxsize,
            stats: &stats,
            options: &o,
            evaluator: &mut ev,
            next_id: &mut next_id,
            next_birth: &mut next_birth,
            _ops: PhantomData::<O>,
        },
    );
    let used = applied() - a;
    c.eval();
    if got < 0.0 || got > 2.0 * steps || got == 0.0 && used > 0 || got.fract() != 0.0 {
        c.fail("the evaluations of a generation are counted wrongly", format!("{got} for {steps} steps, {used} applications"));
    }
}

pub fn p28(m: &Mon) {
    m.rule("distinct histories: order of the populations, reports and operator applications of whole searches; parent, offspring and applications of single offspring");
    m.assume("evaluations spent inside constant optimisation are only bounded from below");
    m.require("single cycles observed", 5_000);
    m.require("iterations observed cycle by cycle", 500);
    m.require("searches stepped to their end", 300);
    m.require("evaluations judged", 100_000);
    m.require("cycles on batches judged", 1000);
    m.require("rejected offspring", 1000);
    m.require("accepted offspring", 5000);
    m.require("successful crossovers", 5000);
    m.require("failed crossovers", 100);
    let n = m.scale(400, 12_000);
    m.cases("steps64", n, p28_steps::<f64, BuiltinOpsF64, 3>);
    m.cases("steps32", n / 2, p28_steps::<f32, BuiltinOpsF32, 2>);
    m.cases("steps-mixed", n / 2, p28_steps::<f64, Mix4, 4>);
    m.cases("evals", n * 2, p28_evals);
    m.cases("batches", n, p28_batches);
    m.cases("offspring", n * 4, p28_offspring::<Ticking>);
    m.cases("offspring-failing", n * 4, p28_offspring::<Failing>);
}
