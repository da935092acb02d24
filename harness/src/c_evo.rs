//! P12: populations through evolution, optimisation and migration. P27: crossover.
use crate::ast::*;
use crate::c_mut::{crossed, subtrees, vtree, V};
use crate::sgen::{weights_zero, gen_dataset, gen_options, gen_ops, operators_from, plan_fits, same_code};
use crate::c_search::{gen_search, show_setup, Num};
use crate::common::*;
use crate::gen::*;
use crate::spec;
use dynamic_expressions::operator_enum::presets::{BuiltinOpsF32, BuiltinOpsF64};
use dynamic_expressions::{EvalOptions, GradContext, Metadata, OperatorSet, PostfixExpr};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::marker::PhantomData;
use symbolic_regression::verif::{
    best_sub_pop, crossover_generation, crossover_trees, migrate_into, optimize_and_simplify_population, reg_evol_cycle, s_r_cycle,
    CrossoverCtx, IterationCtx, Population, RegEvolCtx,
};
use symbolic_regression::{
    check_constraints, Dataset, Evaluator, LossKind, MemberId, Options, PopMember, RunningSearchStatistics, SearchEngine,
    TaggedDataset,
};

/// Everything of a member, bit for bit.
#[derive(Clone, PartialEq, Debug, Hash, Eq)]
struct Print {
    id: u64,
    parent: Option<u64>,
    birth: u64,
    code: u64,
    loss: u64,
    cost: u64,
    complexity: usize,
}

fn code<T: Fl, O, const D: usize>(e: &PostfixExpr<T, O, D>) -> u64 {
    hash_of(&(format!("{:?}", e.nodes), e.consts.iter().map(|v| v.key()).collect::<Vec<_>>()))
}

fn print<T: Fl, O, const D: usize>(m: &PopMember<T, O, D>) -> Print {
    Print {
        id: m.id.0,
        parent: m.parent.map(|p| p.0),
        birth: m.birth,
        code: code(&m.expr),
        loss: m.loss.key(),
        cost: m.cost.key(),
        complexity: m.complexity,
    }
}

fn prints<T: Fl, O, const D: usize>(p: &Population<T, O, D>) -> Vec<Print> {
    p.members.iter().map(print).collect()
}

/// Plan, complexity and scores belong to the member's own expression.
fn check_member<T: Num, O: OperatorSet<T = T>, const D: usize>(
    c: &mut Case,
    m: &PopMember<T, O, D>,
    o: &Options<T, D>,
    data: &Dataset<T>,
    kind: LossKind,
    scores: bool,
    ctx: &dyn Fn() -> String,
) {
    c.eval();
    let a = match well_formed::<T, O, D>(&m.expr, data.n_features, &|_| true) {
        Ok(a) => a,
        Err(e) => {
            c.fail("a member holds a malformed expression", format!("{e}: {}", ctx()));
            return;
        }
    };
    if let Err(e) = plan_fits(m, &data.x) {
        c.fail("a member's plan does not belong to its expression", format!("{e}: {} {}", show_expr(&m.expr), ctx()));
    }
    let size = spec::complexity(&a, o);
    if m.complexity != size {
        c.fail("a member's complexity is not that of its expression", format!("{} for {size}: {} {}", m.complexity, show_expr(&m.expr), ctx()));
    }
    if scores {
        if let Some(Err(want)) = spec::loss_agrees(&m.expr, data, kind, m.loss) {
            c.fail("a member's loss is not that of its expression", format!("{:?} for {want}: {} {}", m.loss, show_expr(&m.expr), ctx()));
        }
        c.count("members scored", 1);
    }
}

// ------------------------------------------------------------------------------------------ histories of whole searches

fn p12_search<T: Num, O: OperatorSet<T = T> + Send + Sync, const D: usize>(c: &mut Case) {
    let mut s = gen_search::<T, O, D>(&mut c.rng);
    s.options.migration = c.rng.u8(..3) > 0;
    s.options.hof_migration = c.rng.u8(..3) > 0;
    if c.rng.u8(..4) == 0 {
        s.options.population_size = 2 + c.rng.usize(..3);
    }
    if c.rng.u8(..25) == 0 {
        // hardly any cycle each, but many populations
        s.options.populations = 60 + c.rng.usize(..90);
        s.options.population_size = 2 + c.rng.usize(..2);
        s.options.niterations = 1;
        s.options.ncycles_per_iteration = 1;
        c.count("searches of many populations", 1);
    }
    let size = s.options.population_size;
    let mut e = SearchEngine::<T, O, D>::new(s.data.clone(), s.options.clone());
    let np = e.verif_n_populations();
    let mut by_id: HashMap<u64, (u64, String)> = HashMap::new();
    let mut before: Vec<Vec<Print>> = vec![Vec::new(); np];
    let mut counters: Vec<(u64, u64)> = vec![(0, 0); np];
    let mut step = 0;
    if np != s.options.populations {
        c.fail("the number of populations is not the configured one", show_setup::<T, O, D>(&s));
        return;
    }
    loop {
        let ctx = || format!("after cycle {step}; {}", show_setup::<T, O, D>(&s));
        // one expression per id, over all populations, the hall of fame, the best and all time
        {
            let hall = e.hall_of_fame().members().chain(std::iter::once(e.best()));
            let all = (0..np).flat_map(|i| e.verif_population(i).unwrap().members.iter()).chain(hall);
            let mut bad = None;
            for m in all {
                let k = code(&m.expr);
                let known = by_id.entry(m.id.0).or_insert_with(|| (k, show_expr(&m.expr)));
                if known.0 != k {
                    bad = Some(format!("id {}: {} and {}", m.id.0, known.1, show_expr(&m.expr)));
                }
                let pop = (m.id.0 >> 32) as usize;
                let ok = pop < np && m.id.0 < e.verif_counters(pop).unwrap().0;
                let pok = m.parent.is_none_or(|p| (p.0 >> 32) < np as u64 && p.0 < e.verif_counters((p.0 >> 32) as usize).unwrap().0);
                if !ok || !pok {
                    bad = Some(format!("id {} parent {:?} was never issued", m.id.0, m.parent));
                }
            }
            c.eval();
            if let Some(b) = bad {
                c.fail("a member id does not identify one expression", format!("{b} {}", ctx()));
                return;
            }
        }
        let mut moved = 0;
        let front: HashSet<u64> = e.hall_of_fame().pareto_front().iter().map(|m| m.id.0).collect();
        for i in 0..np {
            let p = e.verif_population(i).unwrap();
            let now = prints(p);
            let cnt = e.verif_counters(i).unwrap();
            c.eval();
            if now.len() != size {
                c.fail("a population changes its size", format!("{} for {size} {}", now.len(), ctx()));
                return;
            }
            if cnt.0 < counters[i].0 || cnt.1 < counters[i].1 || (cnt.0 >> 32) as usize != i {
                c.fail("id or birth counters go back", format!("{cnt:?} after {:?} {}", counters[i], ctx()));
            }
            if step > 0 && now != before[i] {
                moved += 1;
            }
            let old: HashMap<u64, &Print> = before[i].iter().map(|p| (p.id, p)).collect();
            for (m, pm) in p.members.iter().zip(&now) {
                if pm.birth >= cnt.1 {
                    c.fail("a birth stamp was never issued", format!("{pm:?} {cnt:?} {}", ctx()));
                }
                match old.get(&pm.id) {
                    Some(o) => {
                        if o.birth != pm.birth && o.code == pm.code {
                            // the same member: nothing about it may change but its scores
                            c.fail("a member changes its birth stamp", format!("{o:?} -> {pm:?} {}", ctx()));
                        }
                    }
                    None if step > 0 => {
                        c.count("newcomers observed", 1);
                        if pm.id >> 32 != i as u64 || pm.id < counters[i].0 {
                            c.fail("a newcomer does not get a fresh id", format!("{pm:?} {:?} {}", counters[i], ctx()));
                        }
                        if pm.birth < counters[i].1 {
                            // only a member simplified in place keeps its age
                            let same = pm.parent.and_then(|q| old.get(&q)).is_some_and(|q| q.birth == pm.birth);
                            if !(same && s.options.should_simplify) {
                                c.fail("a newcomer does not get a fresh birth stamp", format!("{pm:?} {:?} {}", counters[i], ctx()));
                            }
                        }
                        if pm.parent.is_none() {
                            c.fail("a newcomer has no parent", format!("{pm:?} {}", ctx()));
                        }
                        let source = pm.parent.unwrap_or(pm.id);
                        if pm.id >> 32 != source >> 32 {
                            c.count("migrants observed", 1);
                            if !s.options.migration && !s.options.hof_migration {
                                c.fail("a member migrates although migration is off", format!("{pm:?} {}", ctx()));
                            }
                            if !s.options.migration && s.options.hof_migration {
                                c.count("hall migrants observed", 1);
                                if !front.contains(&source) {
                                    c.fail("a migrant from the hall is not on its Pareto front", format!("{pm:?}, front {front:?} {}", ctx()));
                                }
                            }
                        }
                    }
                    None => {}
                }
                if step % 4 == 0 || c.index % 4 == 0 {
                    let s = &s;
                    check_member(c, m, &s.options, &s.data, s.kind, true, &|| format!("population {i} after cycle {step}; {}", show_setup::<T, O, D>(s)));
                }
            }
            before[i] = now;
            counters[i] = cnt;
        }
        if moved > 1 {
            c.fail("one cycle touches several populations", ctx());
        }
        if c.failed() {
            return;
        }
        step += 1;
        if e.step(1) == 0 {
            break;
        }
    }
    c.count("cycles observed", step);
    c.distinct(hash_of(&before));
    c.sample(|| show_setup::<T, O, D>(&s));
}

/// Migration within a search: the sources are among the best of the other populations, as they stand.
fn p12_sources<T: Num, O: OperatorSet<T = T> + Send + Sync, const D: usize>(c: &mut Case) {
    let mut s = gen_search::<T, O, D>(&mut c.rng);
    let o = &mut s.options;
    o.migration = true;
    o.hof_migration = false;
    o.populations = 2 + c.rng.usize(..5);
    o.population_size = 4 + c.rng.usize(..20);
    o.fraction_replaced = [0.1, 0.5, 1.0][c.rng.usize(..3)];
    o.topn = [0, 1, 1, 2, 3, 12][c.rng.usize(..6)];
    o.niterations = 3 + c.rng.usize(..12);
    o.ncycles_per_iteration = c.rng.usize(..6);
    o.optimizer_probability = o.optimizer_probability.min(0.1);
    o.optimizer_iterations = o.optimizer_iterations.min(3);
    let topn = o.topn;
    let mut e = SearchEngine::<T, O, D>::new(s.data.clone(), s.options.clone());
    let np = e.verif_n_populations();
    let costs = |e: &SearchEngine<T, O, D>, i: usize| -> Vec<(Print, f64)> {
        e.verif_population(i).unwrap().members.iter().map(|m| (print(m), m.cost.f())).collect()
    };
    let mut state: Vec<Vec<(Print, f64)>> = (0..np).map(|i| costs(&e, i)).collect();
    let mut arrived: Vec<HashSet<u64>> = vec![HashSet::new(); np];
    let (mut later, mut expected, mut var) = (0u64, 0.0, 0.0);
    let mut step = 0;
    while e.step(1) == 1 {
        step += 1;
        let ctx = || format!("in cycle {step}; {}", show_setup::<T, O, D>(&s));
        for i in 0..np {
            let now = costs(&e, i);
            let old: HashSet<u64> = state[i].iter().map(|m| m.0.id).collect();
            if now.iter().map(|m| &m.0).eq(state[i].iter().map(|m| &m.0)) {
                continue;
            }
            arrived[i].clear();
            for (m, cost) in &now {
                let Some(source) = m.parent else { continue };
                let j = (source >> 32) as usize;
                if old.contains(&m.id) || j == i || j >= np {
                    continue;
                }
                arrived[i].insert(m.id);
                c.eval();
                c.count("sources judged", 1);
                if topn == 0 {
                    c.fail("a member migrates that is not among the best of its population", format!("none may: {m:?} {}", ctx()));
                }
                let better = state[j].iter().filter(|(b, v)| !arrived[j].contains(&b.id) && v < cost).count();
                if better >= topn {
                    c.fail("a member migrates that is not among the best of its population", format!("{better} are better and {topn} may migrate: {m:?} of cost {cost} {}", ctx()));
                }
                if let Some((q, _)) = state[j].iter().find(|q| q.0.id == source) {
                    c.count("sources found", 1);
                    if (q.code, q.loss, q.cost, q.complexity) != (m.code, m.loss, m.cost, m.complexity) {
                        c.fail("a migrant is no copy of its source", format!("{m:?} of {q:?} {}", ctx()));
                    }
                }
                let p = (np - 1 - i) as f64 / (np - 1) as f64;
                later += (j > i) as u64;
                expected += p;
                var += p * (1.0 - p);
            }
            state[i] = now;
            break; // one population per cycle: p12_search
        }
    }
    if var > 20.0 {
        c.count("origins judged", 1);
        if (later as f64 - expected).abs() > 7.0 * var.sqrt() + 3.0 {
            c.fail("some populations send more migrants than others", format!("{later} from later ones, expected {expected}; {}", show_setup::<T, O, D>(&s)));
        }
    }
    c.distinct(hash_of(&(later, step)));
}

// ------------------------------------------------------------------------------------------ single phases

struct World<T: num_traits::Float, O, const D: usize> {
    data: Dataset<T>,
    o: Options<T, D>,
    kind: LossKind,
    pop: Population<T, O, D>,
    next_id: u64,
    next_birth: u64,
}

fn gen_world<T: Num, O: OperatorSet<T = T>, const D: usize>(c: &mut Case) -> World<T, O, D> {
    let ops = gen_ops::<O>(&mut c.rng, D);
    let nf = 1 + c.rng.usize(..3);
    let n_rows = 1 + c.rng.usize(..12);
    let data = gen_dataset::<T>(&mut c.rng, nf, n_rows);
    let (mut o, kind) = gen_options::<T, O, D>(&mut c.rng, &ops, nf);
    o.tournament_selection_n = 1 + c.rng.usize(..8);
    o.crossover_probability = [0.0, 0.0, 1.0, 0.4][c.rng.usize(..4)];
    o.skip_mutation_failures = c.rng.bool();
    o.annealing = c.rng.bool();
    o.mutation_weights.simplify = 0.1;
    o.mutation_weights.optimize = 0.1;
    o.optimizer_nrestarts = c.rng.usize(..2);
    o.ncycles_per_iteration = sized(&mut c.rng, 0..8, 24, 60..260);
    let g = GenCfg {
        ops,
        n_features: nf,
        n_consts: 2,
        p_const: 0.4,
    };
    let len = 2 + c.rng.usize(..if o.ncycles_per_iteration > 8 { 8 } else { 30 });
    let tagged = TaggedDataset::new(&data, o.use_baseline.then(|| T::of(spec::baseline_of(&data, kind))));
    let mut ev = Evaluator::<T, D>::new(n_rows);
    // an old search: stamps and ids of any magnitude
    let from = [0, 0, 0, 65_530, (1 << 32) - 40, 1 << 40, (1 << 63) - 20][c.rng.usize(..7)];
    let mut births: Vec<u64> = (0..len as u64).map(|i| from + i * 3).collect();
    c.rng.shuffle(&mut births);
    let big = c.rng.u8(..4) == 0;
    let members = births
        .into_iter()
        .enumerate()
        .map(|(i, b)| {
            let budget = 1 + c.rng.usize(..if big { 20 } else { 6 });
            let e: PostfixExpr<T, O, D> = gen_expr_canonical(&mut c.rng, &g, budget);
            let mut m = PopMember::from_expr(MemberId(500 + i as u64), None, b, e, nf);
            m.evaluate(&tagged, &o, &mut ev);
            m
        })
        .collect();
    World {
        data,
        o,
        kind,
        pop: Population::new(members),
        next_id: [10_000, 65_534, (1 << 32) - 3, 7 << 32][c.rng.usize(..4)],
        next_birth: from + 3 * len as u64 + c.rng.u64(..5),
    }
}

fn baseline<T: Num, O, const D: usize>(w: &World<T, O, D>) -> Option<T> {
    w.o.use_baseline.then(|| T::of(spec::baseline_of(&w.data, w.kind)))
}

/// What survives an evolution step is younger than what left; survivors stay in place, untouched.
fn check_replacement(c: &mut Case, before: &[Print], after: &[Print], next: (u64, u64), no_copies: bool, ctx: &dyn Fn() -> String) -> usize {
    c.eval();
    if before.len() != after.len() {
        c.fail("evolution changes the population size", format!("{} -> {}: {}", before.len(), after.len(), ctx()));
        return 0;
    }
    let mut left = Vec::new();
    let mut stayed = Vec::new();
    let mut fresh = 0;
    for (b, a) in before.iter().zip(after) {
        if a == b {
            stayed.push(b.birth);
            continue;
        }
        left.push(b.birth);
        if a.id >= next.0 {
            fresh += 1;
            if a.birth < next.1 {
                c.fail("an offspring does not get a fresh birth stamp", format!("{a:?}: {}", ctx()));
            }
            if a.parent.is_none() {
                c.fail("an offspring has no parent", format!("{a:?}: {}", ctx()));
            }
        } else if !before.iter().any(|p| p == a) {
            c.fail("a member of the population was edited in place", format!("{b:?} -> {a:?}: {}", ctx()));
        }
    }
    let oldest_left = left.iter().max();
    let youngest_kept = stayed.iter().min();
    if let (Some(l), Some(s)) = (oldest_left, youngest_kept) {
        // copies put in place by a failed crossover cannot be told from members that stayed
        if l > s && no_copies {
            c.fail("an offspring replaced a member that was not the oldest", format!("births replaced {left:?}, kept {stayed:?}: {}", ctx()));
        }
    }
    let new: Vec<&Print> = after.iter().filter(|a| a.id >= next.0).collect();
    for (i, p) in new.iter().enumerate() {
        for q in &new[..i] {
            if (p.id == q.id || p.birth == q.birth) && (p != q || no_copies) {
                c.fail("two offspring share an id or birth stamp", format!("{p:?} {q:?}: {}", ctx()));
            }
        }
    }
    c.count("replacements observed", left.len() as u64);
    fresh
}

fn p12_phases<T: Num, O: OperatorSet<T = T>, const D: usize>(c: &mut Case) {
    let mut w = gen_world::<T, O, D>(c);
    let base = baseline(&w);
    let World { data, o, kind, pop, next_id, next_birth } = &mut w;
    let tagged = TaggedDataset::new(data, base);
    let batch = c.rng.u8(..4) == 0;
    let small = gen_dataset::<T>(&mut c.rng, data.n_features, 1 + c.index as usize % 7);
    let small = TaggedDataset::new(&small, base);
    let eval_data = if batch { small } else { tagged };
    let mut ev = Evaluator::<T, D>::new(data.n_rows);
    let mut gc = GradContext::<T, D>::new(data.n_rows);
    let mut rng = Rng::with_seed(c.rng.u64(..));
    let mut stats = RunningSearchStatistics::new(o.maxsize, 1000);
    stats.normalize();
    let curmaxsize = if c.rng.bool() { o.maxsize } else { 3 + c.rng.usize(..o.maxsize) };
    let no_copies = o.crossover_probability == 0.0 || o.skip_mutation_failures;
    for round in 0..3 {
        // one evolution cycle
        let before = prints(pop);
        let next = (*next_id, *next_birth);
        ev.ensure_n_rows(eval_data.n_rows);
        let temperature = c.rng.f64();
        let _ = reg_evol_cycle(
            pop,
            RegEvolCtx {
                rng: &mut rng,
                dataset: eval_data,
                temperature,
                curmaxsize,
                stats: &stats,
                options: o,
                evaluator: &mut ev,
                next_id,
                next_birth,
                _ops: PhantomData::<O>,
            },
        );
        let after = prints(pop);
        let (n, t) = (before.len(), o.tournament_selection_n);
        let ctx = || {
            format!(
                "evolution cycle {round} of {n} members, tournament {t}, crossover {}, skip failures {}, limit {curmaxsize} of {}",
                o.crossover_probability, o.skip_mutation_failures, o.maxsize
            )
        };
        let fresh = check_replacement(c, &before, &after, next, no_copies, &ctx);
        let steps = n.div_ceil(t);
        if o.crossover_probability == 0.0 && !o.skip_mutation_failures && fresh != steps {
            c.fail("an evolution cycle does not make one offspring per tournament", format!("{fresh} offspring, {steps} tournaments: {}", ctx()));
        }
        if o.crossover_probability == 0.0 && fresh > steps || fresh > 2 * steps {
            c.fail("an evolution cycle makes too many offspring", format!("{fresh} offspring, {steps} tournaments: {}", ctx()));
        }
        for m in &pop.members {
            check_member(c, m, o, data, *kind, false, &ctx);
        }
        c.distinct(hash_of(&after));
        if c.failed() {
            return;
        }

        // a whole iteration
        let before = prints(pop);
        let next = (*next_id, *next_birth);
        // the same iteration, cycle by cycle
        let mut replay = Population::<T, O, D>::new(pop.members.clone());
        let mut offered: Vec<PopMember<T, O, D>> = replay.members.clone();
        {
            let (mut rng, mut ids, mut births) = (rng.clone(), *next_id, *next_birth);
            let mut ev = Evaluator::<T, D>::new(eval_data.n_rows);
            let cycles = o.ncycles_per_iteration.max(1);
            for i in 0..cycles {
                let t = if cycles > 1 && o.annealing { 1.0 - i as f64 / (cycles - 1) as f64 } else { 1.0 };
                let _ = reg_evol_cycle(
                    &mut replay,
                    RegEvolCtx {
                        rng: &mut rng,
                        dataset: eval_data,
                        temperature: t,
                        curmaxsize,
                        stats: &stats,
                        options: o,
                        evaluator: &mut ev,
                        next_id: &mut ids,
                        next_birth: &mut births,
                        _ops: PhantomData::<O>,
                    },
                );
                offered.extend(replay.members.iter().cloned());
            }
        }
        let (_, seen) = {
            let mut ic = IterationCtx {
                rng: &mut rng,
                full_dataset: tagged,
                curmaxsize,
                stats: &stats,
                options: o,
                evaluator: &mut ev,
                grad_ctx: &mut gc,
                next_id,
                next_birth,
                _ops: PhantomData::<O>,
            };
            s_r_cycle(pop, &mut ic, eval_data)
        };
        let after = prints(pop);
        let ctx = || {
            format!(
                "iteration {round} of {} cycles, {n} members, tournament {t}, crossover {}, skip failures {}, limit {curmaxsize} of {}",
                o.ncycles_per_iteration, o.crossover_probability, o.skip_mutation_failures, o.maxsize
            )
        };
        check_replacement(c, &before, &after, next, no_copies, &ctx);
        c.count("iterations observed", 1);
        // everything in the population before and after was seen
        for p in before.iter().map(|_| ()).zip(&pop.members).map(|(_, m)| m) {
            if p.complexity < 1 || p.complexity > o.maxsize || !check_constraints(&p.expr, o, curmaxsize) {
                continue;
            }
            let slot = seen.best_by_complexity[p.complexity].as_ref();
            if !slot.is_some_and(|s| s.cost <= p.cost) {
                c.fail(
                    "the best equations of an iteration miss a member",
                    format!("{} cost {:?}, kept {:?}: {}", show_expr(&p.expr), p.cost, slot.map(|s| s.cost), ctx()),
                );
            }
        }
        if prints(&replay) == after {
            c.count("iterations replayed cycle by cycle", 1);
            for p in &offered {
                if p.complexity < 1 || p.complexity > o.maxsize || !check_constraints(&p.expr, o, curmaxsize) {
                    continue;
                }
                let slot = seen.best_by_complexity[p.complexity].as_ref();
                if !slot.is_some_and(|s| s.cost <= p.cost) {
                    c.fail(
                        "the best equations of an iteration miss a member of one of its cycles",
                        format!("{} cost {:?}, kept {:?}: {}", show_expr(&p.expr), p.cost, slot.map(|s| s.cost), ctx()),
                    );
                }
            }
        }
        let known: HashSet<u64> = before.iter().map(|p| p.id).collect();
        for m in seen.members() {
            if !(known.contains(&m.id.0) || (m.id.0 >= next.0 && m.id.0 < *next_id)) {
                c.fail("the best equations of an iteration hold an unknown member", format!("{:?}: {}", m.id, ctx()));
            }
            check_member(c, m, o, data, *kind, false, &ctx);
        }
        if c.failed() {
            return;
        }

        // simplification, optimisation and scoring
        let prior: Vec<PopMember<T, O, D>> = pop.members.to_vec();
        let next = (*next_id, *next_birth);
        o.optimizer_probability = [0.0, 1.0, 0.4][c.rng.usize(..3)];
        let opt_enabled = o.should_optimize_constants && o.optimizer_probability > 0.0;
        {
            let mut ic = IterationCtx {
                rng: &mut rng,
                full_dataset: tagged,
                curmaxsize,
                stats: &stats,
                options: o,
                evaluator: &mut ev,
                grad_ctx: &mut gc,
                next_id,
                next_birth,
                _ops: PhantomData::<O>,
            };
            let _ = optimize_and_simplify_population(pop, &mut ic, eval_data);
        }
        c.eval();
        let ctx = || {
            format!(
                "optimisation pass {round}: simplify {}, optimise {} with probability {}, batch {batch}",
                o.should_simplify, o.should_optimize_constants, o.optimizer_probability
            )
        };
        if pop.members.len() != prior.len() {
            c.fail("an optimisation pass changes the population size", ctx());
            return;
        }
        let eo = EvalOptions {
            check_finite: true,
            early_exit: true,
        };
        let mut new_ids = HashSet::new();
        for (b, a) in prior.iter().zip(&pop.members) {
            let mut want = b.expr.clone();
            let simplified = o.should_simplify && dynamic_expressions::simplify_in_place(&mut want, &eo);
            let show = || format!("{} -> {}: {}", show_expr(&b.expr), show_expr(&a.expr), ctx());
            if a.expr.nodes != want.nodes {
                c.fail("an optimisation pass does more than simplify and tune constants", show());
                return;
            }
            let tuned = !same_code(&a.expr, &want);
            if tuned && !opt_enabled {
                c.fail("an optimisation pass tunes constants though it is disabled", show());
            }
            let edited = !same_code(&a.expr, &b.expr);
            if a.id == b.id {
                if edited {
                    c.fail("an edited member keeps its id", show());
                }
                if a.birth != b.birth || a.parent != b.parent {
                    c.fail("an unedited member changes its stamps", show());
                }
            } else {
                c.count("members edited by a pass", 1);
                if a.id.0 < next.0 || a.id.0 >= *next_id || !new_ids.insert(a.id) {
                    c.fail("an edited member does not get a fresh id", show());
                }
                let parent_ok = a.parent == Some(b.id) || (simplified && tuned && a.parent.is_some_and(|p| p.0 >= next.0 && p.0 < a.id.0));
                if !parent_ok {
                    c.fail("an edited member does not name its source as parent", format!("{:?} for {:?}: {}", a.parent, b.id, show()));
                }
            }
            if tuned && !(a.birth >= next.1 && a.birth < *next_birth) {
                c.fail("a tuned member does not get a fresh birth stamp", show());
            }
            if tuned && !batch {
                // tuned on the data it is scored on
                let l0 = spec::loss_of(&want, data, *kind, &mut None);
                let l1 = a.loss.f();
                if l1 > l0 * (1.0 + T::eps() * 4096.0) + T::eps() {
                    if let Some(Err(_)) = spec::loss_agrees(&want, data, *kind, a.loss) {
                        c.fail("an optimisation pass makes a member worse", format!("{l0} -> {l1}: {}", show()));
                    }
                }
            }
            check_member(c, a, o, data, *kind, true, &ctx);
        }
        if c.failed() {
            return;
        }
    }
}

/// Population bookkeeping with any births, including equal ones.
fn p12_oldest(c: &mut Case) {
    type T = f64;
    type O = BuiltinOpsF64;
    const D: usize = 2;
    let len = 1 + c.rng.usize(..12);
    let span = 1 + if c.rng.u8(..3) == 0 { c.rng.u64(..u64::MAX) } else { c.rng.u64(..30) };
    let leaf = |id: u64, birth: u64| {
        let e = PostfixExpr::<T, O, D>::new(vec![dynamic_expressions::PNode::Var { feature: 0 }], vec![], Metadata::default());
        PopMember::from_expr(MemberId(id), None, birth, e, 1)
    };
    let births: Vec<u64> = (0..len).map(|_| c.rng.u64(..span)).collect();
    let mut p = Population::<T, O, D>::new(births.iter().enumerate().map(|(i, b)| leaf(i as u64, *b)).collect());
    let mut sorted = births.clone();
    sorted.sort();
    c.evals(2);
    if p.len() != len || p.is_empty() || births[p.oldest_index()] != sorted[0] {
        c.fail("the oldest member is not the one born first", format!("{births:?}: {}", p.oldest_index()));
    }
    if len >= 2 {
        let (i, j) = p.two_oldest_indices();
        if i == j || births[i] != sorted[0] || births[j] != sorted[1] {
            c.fail("the two oldest members are not those born first", format!("{births:?}: {i} {j}"));
        }
        let two = c.rng.bool();
        if two {
            p.replace_two_oldest(leaf(100, 1000), leaf(101, 1001));
        } else {
            p.replace_oldest(leaf(100, 1000));
        }
        let k = if two { 2 } else { 1 };
        let mut rest: Vec<u64> = p.members.iter().filter(|m| m.id.0 < 100).map(|m| m.birth).collect();
        rest.sort();
        let fresh: Vec<u64> = p.members.iter().filter(|m| m.id.0 >= 100).map(|m| m.id.0).collect();
        let placed = p.members.iter().enumerate().all(|(i, m)| m.id.0 >= 100 || m.id.0 == i as u64);
        if p.len() != len || rest != sorted[k..] || fresh.len() != k || !placed {
            c.fail("replacing the oldest replaces something else", format!("{births:?} -> {:?}", p.members.iter().map(|m| (m.id.0, m.birth)).collect::<Vec<_>>()));
        }
        c.distinct(hash_of(&(births, two)));
    }
}

// ------------------------------------------------------------------------------------------ migration

fn p12_migration<T: Num, O: OperatorSet<T = T>, const D: usize>(c: &mut Case) {
    let mut w = gen_world::<T, O, D>(c);
    let mut other = gen_world::<T, O, D>(c);
    for (i, m) in other.pop.members.iter_mut().enumerate() {
        m.id = MemberId((7 << 32) + i as u64);
        m.parent = c.rng.bool().then_some(MemberId(3));
    }
    let topn = c.rng.usize(..other.pop.len() + 3);
    let migrants = best_sub_pop(&other.pop, topn);
    // the cheapest members, cheapest first
    c.eval();
    let costs: Vec<f64> = migrants.iter().map(|m| m.cost.f()).collect();
    let mut want: Vec<f64> = other.pop.members.iter().map(|m| m.cost.f()).collect();
    want.sort_by(f64::total_cmp);
    want.truncate(topn);
    let src = prints(&other.pop);
    let copies = migrants.iter().all(|m| src.contains(&print(m)));
    let distinct: HashSet<u64> = migrants.iter().map(|m| m.id.0).collect();
    if costs != want || !copies || distinct.len() != migrants.len() {
        c.fail("the best of a population are not its cheapest members", format!("{costs:?} for {want:?}"));
        return;
    }
    let n = w.pop.len();
    let frac = match c.rng.u8(..8) {
        0 => 0.0,
        1 => -0.5,
        2 => 5.0,
        3 => 1.0,
        4 => 0.00036,
        _ => c.rng.f64() * 0.6,
    };
    let rounds = 400;
    let mut rng = Rng::with_seed(c.rng.u64(..));
    let mut totals = 0u64;
    let mut at = vec![0u64; n];
    let mut from = vec![0u64; migrants.len()];
    let mut squares = 0.0;
    let mut histogram: BTreeMap<u64, u64> = BTreeMap::new();
    let sources: Vec<Print> = migrants.iter().map(print).collect();
    for _ in 0..rounds {
        let mut dst = Population::<T, O, D>::new(w.pop.members.clone());
        let before = prints(&dst);
        let (id0, b0) = (w.next_id, w.next_birth);
        migrate_into(&mut dst, &migrants, frac, &mut rng, &mut w.next_id, &mut w.next_birth);
        c.eval();
        let after = prints(&dst);
        let (k, kb) = (w.next_id - id0, w.next_birth - b0);
        let ctx = || format!("fraction {frac} of {n}, {} migrants, {k} replaced", migrants.len());
        if k != kb || k as usize > n.min(migrants.len()) || after.len() != n {
            c.fail("migration issues more stamps than members replaced", format!("{k} ids, {kb} births: {}", ctx()));
            return;
        }
        let mut used = HashSet::new();
        for (i, (b, a)) in before.iter().zip(&after).enumerate() {
            if a == b {
                continue;
            }
            at[i] += 1;
            let Some(si) = sources.iter().position(|s| Some(s.id) == a.parent) else {
                c.fail("a migrant does not name its source as parent", format!("{a:?}: {}", ctx()));
                return;
            };
            from[si] += 1;
            let s = &sources[si];
            if a.code != s.code || a.loss != s.loss || a.cost != s.cost || a.complexity != s.complexity {
                c.fail("a migrant is not a copy of its source", format!("{s:?} -> {a:?}: {}", ctx()));
            }
            if a.id < id0 || a.id >= w.next_id || a.birth < b0 || a.birth >= w.next_birth || !used.insert(a.id) || a.id - id0 != a.birth - b0 {
                c.fail("a migrant does not get a fresh id and birth stamp", format!("{a:?}: {}", ctx()));
            }
            if let Err(e) = plan_fits(&dst.members[i], &other.data.x) {
                c.fail("a migrant's plan does not belong to its expression", format!("{e}: {}", ctx()));
            }
        }
        if k > 0 && used.is_empty() || used.len() > k as usize {
            c.fail("migration replaces a different number of members than it reports", ctx());
        }
        if (frac <= 0.0 || migrants.is_empty()) && k > 0 {
            c.fail("members migrate although there is nothing to migrate", ctx());
        }
        totals += k;
        squares += (k * k) as f64;
        *histogram.entry(k).or_insert(0) += 1;
        if c.failed() {
            return;
        }
    }
    c.count("migrations observed", rounds);
    if prints(&w.pop).len() != n || sources != migrants.iter().map(print).collect::<Vec<_>>() {
        c.fail("migration changes its source", String::new());
    }
    // capped Poisson number, uniform places and sources
    let cap = n.min(migrants.len());
    if frac > 0.0 && cap > 0 {
        let mean = n as f64 * frac;
        let (mut e1, mut e2, mut left, mut p) = (0.0, 0.0, 1.0, (-mean).exp());
        for k in 0..cap {
            e1 += k as f64 * p;
            e2 += (k * k) as f64 * p;
            left -= p;
            p *= mean / (k + 1) as f64;
        }
        e1 += cap as f64 * left;
        e2 += (cap * cap) as f64 * left;
        let var = (e2 - e1 * e1).max(1e-12);
        let got = totals as f64 / rounds as f64;
        c.count("migration rates judged", 1);
        if (got - e1).abs() > 7.0 * (var / rounds as f64).sqrt() + 0.02 * cap as f64 * (5.0 / rounds as f64).min(1.0) + 10.0 / rounds as f64 {
            c.fail("the number of migrants does not follow the fraction", format!("mean {got} for {e1} (Poisson {mean} capped at {cap}), {histogram:?}"));
        }
        let _ = squares;
        for (what, cells) in [("place", &at), ("source", &from)] {
            let total: u64 = cells.iter().sum();
            let e = total as f64 / cells.len() as f64;
            if e < 20.0 {
                continue;
            }
            // the same place hit twice counts once, which only narrows the spread
            if cells.iter().any(|k| (*k as f64 - e).abs() > 8.0 * e.sqrt() + 4.0) {
                c.fail(format!("migration prefers some {what}s"), format!("{cells:?}, expected {e:.1} each"));
            }
        }
    }
    c.distinct(hash_of(&(at, from, histogram.len())));
}

/// Without any evolution of its own, a population changes by migration alone, and only from the others.
fn p12_alone<T: Num, O: OperatorSet<T = T> + Send + Sync, const D: usize>(c: &mut Case) {
    let mut s = gen_search::<T, O, D>(&mut c.rng);
    let o = &mut s.options;
    o.migration = true;
    o.hof_migration = false;
    o.populations = [1, 1, 1, 2, 3, 6][c.rng.usize(..6)];
    o.population_size = 2 + c.rng.usize(..12);
    o.fraction_replaced = [0.3, 1.0, 3.0][c.rng.usize(..3)];
    o.topn = 1 + c.rng.usize(..8);
    o.niterations = 2 + c.rng.usize(..6);
    // every attempt at an offspring is too deep
    o.ncycles_per_iteration = 1;
    o.maxdepth = 1;
    o.skip_mutation_failures = true;
    o.crossover_probability = 0.0;
    o.mutation_weights = weights_zero();
    o.mutation_weights.add_node = 1.0;
    o.should_simplify = false;
    o.should_optimize_constants = false;
    let mut e = SearchEngine::<T, O, D>::new(s.data.clone(), s.options.clone());
    let np = e.verif_n_populations();
    let of = |e: &SearchEngine<T, O, D>, i: usize| prints(e.verif_population(i).unwrap());
    let mut state: Vec<Vec<Print>> = (0..np).map(|i| of(&e, i)).collect();
    let mut arrivals = 0u64;
    while e.step(1) == 1 {
        c.eval();
        for i in 0..np {
            let now = of(&e, i);
            for (a, b) in now.iter().zip(&state[i]) {
                if a == b || a.id == b.id && (a.code, a.birth, a.parent) == (b.code, b.birth, b.parent) {
                    continue;
                }
                arrivals += 1;
                if a.parent.is_none_or(|p| (p >> 32) as usize == i || (p >> 32) as usize >= np) {
                    c.fail("a population takes migrants that are not from another one", format!("{b:?} -> {a:?} in {i} of {np}; {}", show_setup::<T, O, D>(&s)));
                    return;
                }
            }
            state[i] = now;
        }
    }
    c.count("arrivals without evolution", arrivals);
    if np == 1 {
        c.count("single populations left alone", 1);
    }
    c.distinct(hash_of(&state.iter().map(|p| p.iter().map(|m| m.code).collect::<Vec<_>>()).collect::<Vec<_>>()));
}

/// Migration between large populations: many migrants at once, from many candidates.
fn p12_crowd(c: &mut Case) {
    type T = f64;
    type O = BuiltinOpsF64;
    const D: usize = 2;
    let mut leaf = |id: u64, birth: u64| {
        let e = PostfixExpr::<T, O, D>::new(vec![dynamic_expressions::PNode::Var { feature: 0 }], vec![], Metadata::default());
        let mut m = PopMember::from_expr(MemberId(id), None, birth, e, 1);
        m.cost = c.rng.f64();
        m.loss = m.cost;
        m
    };
    let huge = c.index % 3 == 0;
    let (n, k) = if huge { (2000, 2000) } else { (150 + (c.index as usize * 131) % 900, 150 + (c.index as usize * 197) % 900) };
    let home = Population::<T, O, D>::new((0..n as u64).map(|i| leaf(i, i)).collect());
    let away = Population::<T, O, D>::new((0..k as u64).map(|i| leaf((7 << 32) + i, i)).collect());
    let migrants = best_sub_pop(&away, k);
    let cap = n.min(k);
    let flood = c.rng.u8(..6) == 0;
    let mean = if flood {
        3.0 * cap as f64
    } else if huge {
        700.0 + 500.0 * c.rng.f64()
    } else {
        cap as f64 * 0.6 * c.rng.f64()
    };
    let frac = mean / n as f64;
    let rounds = 120u64;
    let mut rng = Rng::with_seed(c.rng.u64(..));
    let (mut next_id, mut next_birth) = (1u64 << 40, 1u64 << 40);
    let (mut at, mut from) = (vec![0u64; 8], vec![0u64; 8]);
    let (mut sum, mut squares, mut landed) = (0.0, 0.0, 0u64);
    let place: std::collections::HashMap<u64, usize> = migrants.iter().enumerate().map(|(i, m)| (m.id.0, i)).collect();
    for _ in 0..rounds {
        let mut dst = Population::<T, O, D>::new(home.members.clone());
        let id0 = next_id;
        migrate_into(&mut dst, &migrants, frac, &mut rng, &mut next_id, &mut next_birth);
        c.eval();
        let moved = next_id - id0;
        sum += moved as f64;
        squares += (moved * moved) as f64;
        if dst.members.len() != n || moved as usize > cap {
            c.fail("migration between large populations exceeds its bounds", format!("{moved} of {n}, {k} candidates"));
            return;
        }
        for (i, m) in dst.members.iter().enumerate() {
            if m.id.0 < id0 {
                if m.id.0 != i as u64 {
                    c.fail("migration disturbs other members", format!("{:?} at {i}", m.id));
                    return;
                }
                continue;
            }
            match m.parent.and_then(|p| place.get(&p.0)) {
                Some(&s) => from[s * 8 / k] += 1,
                None => {
                    c.fail("a migrant does not name its source as parent", format!("{:?}", m.parent));
                    return;
                }
            }
            at[i * 8 / n] += 1;
            landed += 1;
        }
    }
    c.count("migrants of large populations", landed);
    c.distinct(hash_of(&(&at, &from)));
    let r = rounds as f64;
    let ctx = || format!("mean {} for {mean} of {n}, {k} candidates", sum / r);
    if flood {
        if sum != r * cap as f64 {
            c.fail("the number of migrants is not capped at the population or the candidates", ctx());
        }
    } else if mean > 3.0 {
        if (sum - r * mean).abs() > 7.0 * (r * mean).sqrt() + 2.0 {
            c.fail("the number of migrants between large populations does not follow the fraction", ctx());
        }
        let var = (squares - sum * sum / r) / (r - 1.0);
        if (var / mean - 1.0).abs() > 7.0 * (2.0 / r + 1.0 / (r * mean)).sqrt() {
            c.fail("the number of migrants between large populations does not spread like a Poisson number", format!("variance {var}, {}", ctx()));
        }
    }
    for (what, cells, len) in [("place", &at, n), ("source", &from, k)] {
        let cover = |b: usize| (0..len).filter(|i| i * 8 / len == b).count() as f64 / len as f64;
        for (b, got) in cells.iter().enumerate() {
            let e = landed as f64 * cover(b);
            if (*got as f64 - e).abs() > 8.0 * e.sqrt() + 8.0 {
                c.fail(format!("migration between large populations prefers some {what}s"), format!("{cells:?}: {}", ctx()));
                return;
            }
        }
    }
}

/// Attempts that must fail: with `skip_mutation_failures` nothing happens, without it copies take the oldest places.
fn p12_failures(c: &mut Case) {
    type T = f64;
    type O = BuiltinOpsF64;
    const D: usize = 2;
    use dynamic_expressions::PNode;
    let ops = [op_named::<O>("add", 2), op_named::<O>("sin", 1)];
    let data = gen_dataset::<T>(&mut c.rng, 2, 4);
    let recombine = c.rng.bool();
    let mut o = Options::<T, D> {
        operators: operators_from(&ops),
        progress: false,
        maxsize: 12,
        maxdepth: if recombine { 10 } else { 1 },
        tournament_selection_n: 1 + c.rng.usize(..4),
        crossover_probability: if recombine { 1.0 } else { 0.0 },
        skip_mutation_failures: c.rng.bool(),
        ncycles_per_iteration: 1 + c.rng.usize(..4),
        use_baseline: false,
        ..Default::default()
    };
    o.mutation_weights = weights_zero();
    match c.rng.u8(..3) {
        0 => o.mutation_weights.add_node = 1.0,
        1 => o.mutation_weights.insert_node = 1.0,
        _ => {
            o.mutation_weights.add_node = 0.3;
            o.mutation_weights.insert_node = 0.6;
        }
    }
    // too small for one of two recombined sums of three nodes each; too shallow for anything but a leaf
    let limit = if recombine { 2 } else { 12 };
    let tagged = TaggedDataset::new(&data, None);
    let mut ev = Evaluator::<T, D>::new(4);
    let mut gc = GradContext::<T, D>::new(4);
    let len = 2 + c.rng.usize(..8);
    let members: Vec<_> = (0..len)
        .map(|i| {
            let (a, b) = (c.rng.u16(..2), c.rng.u16(..2));
            let nodes = if recombine {
                vec![PNode::Var { feature: a }, PNode::Var { feature: b }, PNode::Op { arity: 2, op: ops[0].id }]
            } else {
                vec![PNode::Var { feature: a }]
            };
            let e = PostfixExpr::<T, O, D>::new(nodes, vec![], Metadata::default());
            let mut m = PopMember::from_expr(MemberId(i as u64), None, i as u64, e, 2);
            m.evaluate(&tagged, &o, &mut ev);
            m
        })
        .collect();
    let codes: HashSet<u64> = members.iter().map(|m| code(&m.expr)).collect();
    let mut pop = Population::<T, O, D>::new(members);
    let before = prints(&pop);
    let mut rng = Rng::with_seed(c.rng.u64(..));
    let mut stats = RunningSearchStatistics::new(o.maxsize, 1000);
    stats.normalize();
    let (mut next_id, mut next_birth) = (1000u64, 1000u64);
    let steps = len.div_ceil(o.tournament_selection_n) * o.ncycles_per_iteration;
    {
        let mut ic = IterationCtx {
            rng: &mut rng,
            full_dataset: tagged,
            curmaxsize: limit,
            stats: &stats,
            options: &o,
            evaluator: &mut ev,
            grad_ctx: &mut gc,
            next_id: &mut next_id,
            next_birth: &mut next_birth,
            _ops: PhantomData::<O>,
        };
        let _ = s_r_cycle(&mut pop, &mut ic, tagged);
    }
    let after = prints(&pop);
    c.evals(steps as u64);
    c.count("failed attempts observed", steps as u64);
    let ctx = || {
        format!(
            "{steps} attempts on {len} members, tournament {}, crossover {recombine}, skip failures {}: {before:?} -> {after:?}",
            o.tournament_selection_n, o.skip_mutation_failures
        )
    };
    c.distinct(hash_of(&(&before, &after, steps)));
    if after.len() != len {
        c.fail("evolution changes the population size", ctx());
        return;
    }
    if after.iter().any(|p| !codes.contains(&p.code)) {
        c.fail("a failed attempt changes an equation", ctx());
    }
    if o.skip_mutation_failures {
        if before != after {
            c.fail("a failed attempt changes the population although failures are skipped", ctx());
        }
    } else if !recombine {
        // every attempt puts a copy of its parent, with stamps of its own, in place of the oldest
        let fresh = after.iter().filter(|p| p.id >= 1000).count();
        let kept: Vec<u64> = before.iter().filter(|b| after.contains(b)).map(|b| b.birth).collect();
        let want = steps.min(len);
        let kept_right = kept.len() == len - want && kept.iter().all(|b| *b >= want as u64);
        if fresh != want || !kept_right {
            c.fail("a failed attempt does not replace the oldest by a copy of its parent", ctx());
        }
    }
}

/// The number of offspring of an iteration: one per tournament and cycle.
fn p12_steps(c: &mut Case) {
    type T = f64;
    type O = BuiltinOpsF64;
    const D: usize = 2;
    let ops = [op_named::<O>("add", 2), op_named::<O>("sin", 1)];
    let data = gen_dataset::<T>(&mut c.rng, 2, 4);
    let mut o = Options::<T, D> {
        operators: operators_from(&ops),
        progress: false,
        maxsize: 12,
        tournament_selection_n: 1 + c.rng.usize(..12),
        crossover_probability: 0.0,
        annealing: false,
        use_frequency: false,
        skip_mutation_failures: c.rng.bool(),
        ncycles_per_iteration: 1 + c.rng.usize(..30),
        use_baseline: false,
        ..Default::default()
    };
    o.mutation_weights = weights_zero();
    o.mutation_weights.do_nothing = 1.0;
    let tagged = TaggedDataset::new(&data, None);
    let mut ev = Evaluator::<T, D>::new(4);
    let mut gc = GradContext::<T, D>::new(4);
    let len = 1 + c.rng.usize(..40);
    let members: Vec<_> = (0..len)
        .map(|i| {
            let n = vec![dynamic_expressions::PNode::Var { feature: c.rng.u16(..2) }];
            let e = PostfixExpr::<T, O, D>::new(n, vec![], Metadata::default());
            let mut m = PopMember::from_expr(MemberId(i as u64), None, i as u64, e, 2);
            m.evaluate(&tagged, &o, &mut ev);
            m
        })
        .collect();
    let mut pop = Population::<T, O, D>::new(members);
    let before = prints(&pop);
    let mut rng = Rng::with_seed(c.rng.u64(..));
    let mut stats = RunningSearchStatistics::new(o.maxsize, 1000);
    stats.normalize();
    let (mut next_id, mut next_birth) = (1000u64, 1000u64);
    let steps = len.div_ceil(o.tournament_selection_n) * o.ncycles_per_iteration;
    {
        let mut ic = IterationCtx {
            rng: &mut rng,
            full_dataset: tagged,
            curmaxsize: 12,
            stats: &stats,
            options: &o,
            evaluator: &mut ev,
            grad_ctx: &mut gc,
            next_id: &mut next_id,
            next_birth: &mut next_birth,
            _ops: PhantomData::<O>,
        };
        let _ = s_r_cycle(&mut pop, &mut ic, tagged);
    }
    let after = prints(&pop);
    c.evals(steps as u64);
    let ctx = || format!("{len} members, tournament {}, {} cycles: {before:?} -> {after:?}", o.tournament_selection_n, o.ncycles_per_iteration);
    c.distinct(hash_of(&(&after, steps)));
    let kept = before.iter().filter(|b| after.contains(b)).count();
    if after.len() != len || kept != len.saturating_sub(steps) {
        c.fail("an iteration does not make one offspring per tournament and cycle", ctx());
    }
}

/// Each member of a population is tuned with the configured probability, wherever it stands.
fn p12_tuning_rate(c: &mut Case) {
    type T = f64;
    type O = BuiltinOpsF64;
    const D: usize = 2;
    use dynamic_expressions::PNode;
    let add = op_named::<O>("add", 2);
    let rows = 3;
    let x = ndarray::Array2::from_shape_fn((1, rows), |(_, j)| j as f64);
    let y = ndarray::Array1::from_shape_fn(rows, |j| j as f64 + 3.0);
    let data = Dataset::with_weights_and_names(x, y, None, Vec::new());
    let p = match c.rng.u8(..4) {
        0 => 0.14,
        1 => 0.02 + 0.08 * c.rng.f64(),
        2 => 0.9 + 0.09 * c.rng.f64(),
        _ => c.rng.f64(),
    };
    let o = Options::<T, D> {
        operators: operators_from(&[add]),
        progress: false,
        maxsize: 12,
        should_simplify: c.rng.bool(),
        should_optimize_constants: true,
        optimizer_probability: p,
        optimizer_nrestarts: 0,
        optimizer_iterations: 4,
        use_baseline: false,
        ..Default::default()
    };
    let tagged = TaggedDataset::new(&data, None);
    let mut ev = Evaluator::<T, D>::new(rows);
    let mut gc = GradContext::<T, D>::new(rows);
    let mut stats = RunningSearchStatistics::new(o.maxsize, 1000);
    stats.normalize();
    let len = 30 + c.rng.usize(..60);
    let rounds = 24_000 / len;
    let members: Vec<_> = (0..len)
        .map(|i| {
            let e = PostfixExpr::<T, O, D>::new(
                vec![PNode::Var { feature: 0 }, PNode::Const { idx: 0 }, PNode::Op { arity: 2, op: add.id }],
                vec![0.25 + i as f64 / 64.0],
                Metadata::default(),
            );
            let mut m = PopMember::from_expr(MemberId(i as u64), None, i as u64, e, 1);
            m.evaluate(&tagged, &o, &mut ev);
            m
        })
        .collect();
    let mut rng = Rng::with_seed(c.rng.u64(..));
    let mut at = vec![0u32; len];
    for _ in 0..rounds {
        let mut pop = Population::<T, O, D>::new(members.clone());
        let (mut next_id, mut next_birth) = (1000u64, 1000u64);
        let mut ic = IterationCtx {
            rng: &mut rng,
            full_dataset: tagged,
            curmaxsize: 12,
            stats: &stats,
            options: &o,
            evaluator: &mut ev,
            grad_ctx: &mut gc,
            next_id: &mut next_id,
            next_birth: &mut next_birth,
            _ops: PhantomData::<O>,
        };
        let _ = optimize_and_simplify_population(&mut pop, &mut ic, tagged);
        for (k, (a, b)) in pop.members.iter().zip(&members).enumerate() {
            at[k] += u32::from(a.expr.consts != b.expr.consts);
        }
    }
    let n = (rounds * len) as f64;
    c.evals(n as u64);
    c.count("chances to be tuned", n as u64);
    let got: u32 = at.iter().sum();
    let ctx = format!("{got} of {n} tuned, probability {p}, {len} members: {at:?}");
    c.distinct(hash_of(&ctx));
    if (got as f64 - n * p).abs() > 6.5 * (n * p * (1.0 - p)).sqrt() + 3.0 {
        c.fail("members are not tuned with the configured probability", ctx);
        return;
    }
    let r = rounds as f64;
    if let Some(k) = (0..len).find(|&k| (at[k] as f64 - r * p).abs() > 7.5 * (r * p * (1.0 - p)).sqrt() + 3.0) {
        c.fail("the place of a member decides whether it is tuned", format!("place {k}: {ctx}"));
    }
}

/// Metropolis steps of one member over an iteration: where it ends depends on every temperature on the way.
fn p20_temperature(c: &mut Case) {
    type T = f64;
    type O = BuiltinOpsF64;
    const D: usize = 2;
    let ops = [op_named::<O>("add", 2)];
    let nf = 2 + c.rng.usize(..4);
    let rows = 3;
    let alpha = 0.3 + 3.0 * c.rng.f64();
    // feature k misses the target by levels[k] on every row; cost = loss / 0.01
    let mut levels: Vec<f64> = (0..nf).map(|_| 0.01 * alpha * 2.5 * c.rng.f64()).collect();
    levels[0] = 0.0;
    let start = c.rng.usize(..nf);
    let x = ndarray::Array2::from_shape_fn((nf, rows), |(i, j)| j as f64 + levels[i]);
    let y = ndarray::Array1::from_shape_fn(rows, |j| j as f64);
    let data = Dataset::with_weights_and_names(x, y, None, Vec::new());
    let annealing = c.rng.u8(..5) > 0;
    let n = 2 + c.rng.usize(..6);
    let mut o = Options::<T, D> {
        operators: operators_from(&ops),
        progress: false,
        maxsize: 12,
        tournament_selection_n: 1,
        crossover_probability: 0.0,
        annealing,
        alpha,
        parsimony: 0.0,
        use_frequency: false,
        use_frequency_in_tournament: false,
        skip_mutation_failures: c.rng.bool(),
        ncycles_per_iteration: n,
        use_baseline: false,
        loss: symbolic_regression::make_loss::<T>(LossKind::Mae),
        ..Default::default()
    };
    o.mutation_weights = weights_zero();
    o.mutation_weights.mutate_feature = 1.0;
    let tagged = TaggedDataset::new(&data, None);
    let mut ev = Evaluator::<T, D>::new(rows);
    let mut gc = GradContext::<T, D>::new(rows);
    let mut stats = RunningSearchStatistics::new(o.maxsize, 1000);
    stats.normalize();
    let e = PostfixExpr::<T, O, D>::new(vec![dynamic_expressions::PNode::Var { feature: start as u16 }], vec![], Metadata::default());
    let mut m0 = PopMember::from_expr(MemberId(0), None, 0, e, nf);
    m0.evaluate(&tagged, &o, &mut ev);
    let cost: Vec<f64> = levels.iter().map(|l| l / 0.01).collect();
    // exact distribution of the final state
    let mut p = vec![0.0; nf];
    p[start] = 1.0;
    for i in 0..n {
        let t = 1.0 - i as f64 / (n - 1) as f64;
        let mut q = vec![0.0; nf];
        for a in 0..nf {
            for b in 0..nf {
                if a == b {
                    continue;
                }
                let d = cost[b] - cost[a];
                let acc = if !annealing || d <= 0.0 {
                    1.0
                } else if t == 0.0 {
                    0.0
                } else {
                    (-d / (t * alpha)).exp()
                };
                let pick = p[a] / (nf - 1) as f64;
                q[b] += pick * acc;
                q[a] += pick * (1.0 - acc);
            }
        }
        p = q;
    }
    let draws = 1500;
    let mut got = vec![0u32; nf];
    let mut rng = Rng::with_seed(c.rng.u64(..));
    for _ in 0..draws {
        let mut pop = Population::<T, O, D>::new(vec![m0.clone()]);
        let (mut next_id, mut next_birth) = (1000u64, 1000u64);
        let mut ic = IterationCtx {
            rng: &mut rng,
            full_dataset: tagged,
            curmaxsize: 12,
            stats: &stats,
            options: &o,
            evaluator: &mut ev,
            grad_ctx: &mut gc,
            next_id: &mut next_id,
            next_birth: &mut next_birth,
            _ops: PhantomData::<O>,
        };
        let _ = s_r_cycle(&mut pop, &mut ic, tagged);
        match pop.members[0].expr.nodes[..] {
            [dynamic_expressions::PNode::Var { feature }] if usize::from(feature) < nf => got[usize::from(feature)] += 1,
            _ => {
                c.fail("a feature mutation of a variable yields something else", show_expr(&pop.members[0].expr));
                return;
            }
        }
    }
    c.evals(draws as u64);
    c.count("annealing runs observed", draws as u64);
    let ctx = format!("costs {cost:?}, start {start}, {n} steps, alpha {alpha}, annealing {annealing}: ended {got:?}, expected {:?}", p.iter().map(|v| v * draws as f64).collect::<Vec<_>>());
    c.distinct(hash_of(&ctx));
    for k in 0..nf {
        let sd = (draws as f64 * p[k] * (1.0 - p[k])).max(0.0).sqrt();
        if (got[k] as f64 - p[k] * draws as f64).abs() > 6.5 * sd + if p[k] < 1e-12 { 0.0 } else { 4.0 } {
            c.fail("the temperature does not fall linearly from one to zero over an iteration", ctx);
            return;
        }
    }
}

/// The part of P20 that concerns whole iterations.
pub fn p20_iterations(m: &Mon) {
    m.require("annealing runs observed", 50_000);
    m.cases("temperature", m.scale(100, 3000), p20_temperature);
}

pub fn p12(m: &Mon) {
    m.rule("distinct final populations of searches and phases, distinct migration histograms; every population is compared member by member (id, parent, birth, code, scores) before and after each cycle, phase or migration");
    m.assume("a member that is simplified in place keeps its birth stamp; a failed crossover puts copies of its parents, ids included, in place of the two oldest");
    m.require("newcomers observed", 2000);
    m.require("migrants observed", 100);
    m.require("hall migrants observed", 100);
    m.require("replacements observed", 5000);
    m.require("members edited by a pass", 300);
    m.require("migrations observed", 10_000);
    m.require("members scored", 5000);
    m.require("failed attempts observed", 5000);
    let n = m.scale(400, 10_000);
    m.cases("search64", n, p12_search::<f64, BuiltinOpsF64, 3>);
    m.cases("search32", n / 2, p12_search::<f32, BuiltinOpsF32, 2>);
    m.cases("search-mixed", n / 2, p12_search::<f64, Mix4, 4>);
    m.require("sources judged", 5000);
    m.require("sources found", 2000);
    m.require("origins judged", 50);
    m.cases("sources64", n, p12_sources::<f64, BuiltinOpsF64, 3>);
    m.cases("sources32", n / 2, p12_sources::<f32, BuiltinOpsF32, 2>);
    m.cases("phases64", n * 2, p12_phases::<f64, BuiltinOpsF64, 3>);
    m.cases("phases32", n, p12_phases::<f32, BuiltinOpsF32, 2>);
    m.cases("phases-mixed", n, p12_phases::<f64, Mix4, 4>);
    m.cases("oldest", n * 50, p12_oldest);
    m.cases("failures", n * 20, p12_failures);
    m.cases("steps", n * 20, p12_steps);
    m.require("chances to be tuned", 300_000);
    m.cases("tuning-rate", m.scale(32, 800), p12_tuning_rate);
    m.cases("migration", n, p12_migration::<f64, BuiltinOpsF64, 3>);
    m.require("migrants of large populations", 20_000);
    m.cases("crowd", m.scale(36, 1000), p12_crowd);
    m.require("arrivals without evolution", 500);
    m.require("single populations left alone", 50);
    m.cases("alone64", n, p12_alone::<f64, BuiltinOpsF64, 3>);
    m.cases("alone32", n / 2, p12_alone::<f32, BuiltinOpsF32, 2>);
    m.require("searches of many populations", 5);
}

// ------------------------------------------------------------------------------------------ P27

fn tree_of<T: Fl, O, const D: usize>(e: &PostfixExpr<T, O, D>) -> Option<V> {
    Some(vtree(&Ast::from_postfix(&e.nodes).ok()?, &e.consts))
}

fn replace_nth(v: &V, n: &mut usize, x: &V) -> V {
    if *n == 0 {
        *n = usize::MAX;
        return x.clone();
    }
    *n -= 1;
    match v {
        V::Op(o, k) => V::Op(
            *o,
            k.iter()
                .map(|c| if *n == usize::MAX { c.clone() } else { replace_nth(c, n, x) })
                .collect(),
        ),
        _ => v.clone(),
    }
}

/// All exchanges of one subtree each.
fn exchanges(a: &V, b: &V) -> Vec<(V, V)> {
    let (mut sa, mut sb) = (Vec::new(), Vec::new());
    subtrees(a, &mut sa);
    subtrees(b, &mut sb);
    let mut out = Vec::new();
    for (i, x) in sa.iter().enumerate() {
        for (j, y) in sb.iter().enumerate() {
            let (mut i, mut j) = (i, j);
            out.push((replace_nth(a, &mut i, y), replace_nth(b, &mut j, x)));
        }
    }
    out
}

fn p27_case<T: Num, O: OperatorSet<T = T>, const D: usize>(c: &mut Case) {
    let ops = gen_ops::<O>(&mut c.rng, D);
    let nf = sized(&mut c.rng, 1..5, 12, 5..40);
    let n_rows = 1 + c.rng.usize(..6);
    let data = gen_dataset::<T>(&mut c.rng, nf, n_rows);
    let (mut o, kind) = gen_options::<T, O, D>(&mut c.rng, &ops, nf);
    o.operators = operators_from(&ops);
    let g = GenCfg {
        ops,
        n_features: nf,
        n_consts: sized(&mut c.rng, 4..5, 12, 5..80),
        p_const: c.rng.f64(),
    };
    let shared = c.rng.u8(..3) == 0;
    let small = c.rng.bool();
    let cap = if small { 6 } else { sized(&mut c.rng, 24..25, 12, 60..200) };
    let gen = |c: &mut Case| -> PostfixExpr<T, O, D> {
        let budget = 1 + c.rng.usize(..cap);
        if shared {
            let mut e = gen_expr(&mut c.rng, &g, budget);
            dynamic_expressions::compress_constants(&mut e);
            e
        } else {
            gen_expr_canonical(&mut c.rng, &g, budget)
        }
    };
    let (ea, eb) = (gen(c), gen(c));
    let (va, vb) = (tree_of(&ea).unwrap(), tree_of(&eb).unwrap());
    let (ka, kb) = (code(&ea), code(&eb));
    let mut rng = Rng::with_seed(c.rng.u64(..));

    // the exchange itself
    let all = if small { exchanges(&va, &vb) } else { Vec::new() };
    let mut seen: HashMap<usize, u64> = HashMap::new();
    let distinct: Vec<&(V, V)> = {
        let mut d: Vec<&(V, V)> = Vec::new();
        for x in &all {
            if !d.contains(&x) {
                d.push(x);
            }
        }
        d
    };
    let tries = if small { 60 * all.len() } else { 12 };
    for _ in 0..tries {
        let (x, y) = crossover_trees(&mut rng, &ea, &eb);
        c.eval();
        let ctx = || format!("{} and {} => {} and {}", show_expr(&ea), show_expr(&eb), show_expr(&x), show_expr(&y));
        for e in [&x, &y] {
            if let Err(m) = well_formed::<T, O, D>(e, nf, &|_| true) {
                c.fail("crossover yields a malformed expression", format!("{m}: {}", ctx()));
                return;
            }
        }
        let (vx, vy) = (tree_of(&x).unwrap(), tree_of(&y).unwrap());
        if small {
            match distinct.iter().position(|d| d.0 == vx && d.1 == vy) {
                Some(i) => *seen.entry(i).or_insert(0) += 1,
                None => {
                    c.fail("crossover is not an exchange of one subtree each", ctx());
                    return;
                }
            }
        } else if !crossed(&va, &vb, &vx, &vy) {
            c.fail("crossover is not an exchange of one subtree each", ctx());
            return;
        }
        c.count("exchanges checked", 1);
    }
    if small && seen.len() != distinct.len() {
        c.fail(
            "some subtrees are never exchanged",
            format!("{} and {}: {} of {} exchanges seen in {tries} draws", show_expr(&ea), show_expr(&eb), seen.len(), distinct.len()),
        );
    }
    if small {
        c.count("pairs with every exchange seen", 1);
    }

    // with constraints and scores
    let tagged = TaggedDataset::new(&data, o.use_baseline.then(|| T::of(spec::baseline_of(&data, kind))));
    let mut ev = Evaluator::<T, D>::new(n_rows);
    let mut p1 = PopMember::from_expr(MemberId(11), Some(MemberId(2)), 1, ea, nf);
    let mut p2 = PopMember::from_expr(MemberId(12), None, 2, eb, nf);
    p1.evaluate(&tagged, &o, &mut ev);
    p2.evaluate(&tagged, &o, &mut ev);
    let limit = match c.rng.u8(..3) {
        0 => o.maxsize,
        1 => (p1.complexity.max(p2.complexity)).max(1),
        _ => 1 + c.rng.usize(..o.maxsize),
    };
    let (k1, k2) = (print(&p1), print(&p2));
    let (mut next_id, mut next_birth) = (100u64, 50u64);
    let (mut yes, mut no) = (0, 0);
    for _ in 0..10 {
        let (id0, b0) = (next_id, next_birth);
        let (x, y, ok, evals) = crossover_generation(
            &p1,
            &p2,
            CrossoverCtx {
                rng: &mut rng,
                dataset: tagged,
                curmaxsize: limit,
                options: &o,
                evaluator: &mut ev,
                next_id: &mut next_id,
                next_birth: &mut next_birth,
                _ops: PhantomData::<O>,
            },
        );
        c.eval();
        let ctx = || {
            format!(
                "{} and {} => {} and {} (success {ok}, limit {limit}, depth {})",
                show_expr(&p1.expr), show_expr(&p2.expr), show_expr(&x.expr), show_expr(&y.expr), o.maxdepth
            )
        };
        if print(&p1) != k1 || print(&p2) != k2 || k1.code != ka || k2.code != kb {
            c.fail("crossover changes a parent", ctx());
        }
        if !ok {
            no += 1;
            if print(&x) != k1 || print(&y) != k2 || evals != 0.0 {
                c.fail("a failed crossover returns something else than its parents", ctx());
            }
            if next_id != id0 || next_birth != b0 {
                c.count("stamps used by failures", 1);
            }
            for (m, p) in [(&x, &p1), (&y, &p2)] {
                if !same_code(&m.expr, &p.expr) {
                    c.fail("a failed crossover returns something else than its parents", ctx());
                }
            }
            continue;
        }
        yes += 1;
        c.count("successful crossovers", 1);
        for (m, parent) in [(&x, &p1), (&y, &p2)] {
            let Ok(a) = well_formed::<T, O, D>(&m.expr, nf, &|_| true) else {
                c.fail("crossover yields a malformed expression", ctx());
                return;
            };
            if let Some(why) = spec::broken_constraint(&a, &o, limit) {
                c.fail("a successful crossover violates a constraint", format!("{why}: {}", ctx()));
            }
            if m.parent != Some(parent.id) {
                c.fail("a crossover offspring does not name its parent", format!("{:?}: {}", m.parent, ctx()));
            }
            if m.id.0 < id0 || m.id.0 >= next_id || m.birth < b0 || m.birth >= next_birth {
                c.fail("a crossover offspring lacks fresh stamps", format!("{:?} {}: {}", m.id, m.birth, ctx()));
            }
            check_member(c, m, &o, &data, kind, true, &ctx);
            if m.loss.is_finite() {
                let base = tagged.baseline_loss.map(|b| b.f());
                let want = spec::cost_of(m.loss.f(), spec::complexity(&a, &o), &o, base);
                let near = base.is_some_and(|b| (b - 0.01).abs() < 1e-6);
                if !near && (m.cost.f() - want).abs() > 64.0 * T::eps() * want.abs() + T::min_positive_value().f() && T::of(want * 1.001).is_finite() {
                    c.fail("a crossover offspring's cost is not that of its loss", format!("{:?} for {want}: {}", m.cost, ctx()));
                }
            }
        }
        if x.id == y.id || x.birth == y.birth {
            c.fail("two crossover offspring share a stamp", ctx());
        }
        if evals != 2.0 {
            c.fail("a crossover miscounts its evaluations", format!("{evals}: {}", ctx()));
        }
        if !crossed(&va, &vb, &tree_of(&x.expr).unwrap(), &tree_of(&y.expr).unwrap()) {
            c.fail("crossover is not an exchange of one subtree each", ctx());
        }
        if c.failed() {
            return;
        }
    }
    c.count("failed crossovers", no);
    // certain outcomes
    if small {
        let feasible = {
            let (mut sa, mut sb) = (Vec::new(), Vec::new());
            subtrees(&va, &mut sa);
            subtrees(&vb, &mut sb);
            let ok = |v: &V| spec::broken_constraint(&untree(v), &o, limit).is_none();
            all.iter().filter(|(x, y)| ok(x) && ok(y)).count()
        };
        if feasible == 0 && yes > 0 {
            c.fail("crossover succeeds although no exchange satisfies the constraints", show_expr(&p1.expr));
        }
        if feasible == all.len() && no > 0 {
            c.fail("crossover fails although every exchange satisfies the constraints", format!("{} and {} limit {limit}", show_expr(&p1.expr), show_expr(&p2.expr)));
        }
        // ten tries each
        let miss = 1.0 - feasible as f64 / all.len() as f64;
        if miss.powi(10) * 10.0 < 1e-9 && no > 0 {
            c.fail("crossover gives up too early", format!("{feasible} of {} exchanges are legal", all.len()));
        }
        if miss.powi(10) < 0.05 && no == 10 {
            c.fail("crossover gives up too early", format!("{feasible} of {} exchanges are legal, all 10 calls failed", all.len()));
        }
    }
    c.distinct(hash_of(&(ka, kb, yes)));
    c.sample(|| format!("{} x {}: {yes} successes", show_expr(&p1.expr), show_expr(&p2.expr)));
}

/// Every subtree of a large parent is chosen: the other parent is one leaf, so the second offspring
/// shows which one.
fn p27_large<O: OperatorSet<T = f64>, const D: usize>(c: &mut Case) {
    let ops = gen_ops::<O>(&mut c.rng, D);
    let nf = sized(&mut c.rng, 1..5, 4, 5..300);
    let g = GenCfg { ops, n_features: nf, n_consts: 4, p_const: 0.3 + 0.6 * c.rng.f64() };
    let most = if c.rng.bool() { 60 } else { 400 };
    let budget = 10 + c.rng.usize(..most);
    let mut big: PostfixExpr<f64, O, D> = gen_expr_canonical(&mut c.rng, &g, budget);
    for (i, k) in big.consts.iter_mut().enumerate() {
        *k = 1.0 + i as f64;
    }
    let leaf = PostfixExpr::<f64, O, D>::new(vec![dynamic_expressions::PNode::Const { idx: 0 }], vec![-0.5], Default::default());
    let v = tree_of(&big).unwrap();
    let mut all = Vec::new();
    subtrees(&v, &mut all);
    let mut missing: HashSet<u64> = all.iter().map(|x| hash_of(&format!("{x:?}"))).collect();
    let distinct = missing.len();
    let mut rng = Rng::with_seed(c.rng.u64(..));
    let first = c.rng.bool();
    let tries = 36 * all.len();
    for _ in 0..tries {
        let (x, y) = if first { crossover_trees(&mut rng, &big, &leaf) } else { crossover_trees(&mut rng, &leaf, &big) };
        c.eval();
        let out = if first { y } else { x };
        let Some(t) = tree_of(&out) else {
            c.fail("crossover yields a malformed expression", format!("{:?}", out.nodes));
            return;
        };
        missing.remove(&hash_of(&format!("{t:?}")));
        if missing.is_empty() {
            break;
        }
    }
    if !missing.is_empty() {
        let which: Vec<usize> = (0..all.len()).filter(|&i| missing.contains(&hash_of(&format!("{:?}", all[i])))).collect();
        c.fail(
            "some subtrees of a large parent are never exchanged",
            format!("{} of {distinct} missing after {tries} draws ({} nodes), at (prefix order) {:?}: {}", missing.len(), all.len(), &which[..which.len().min(8)], show_expr(&big)),
        );
    }
    c.count("subtrees of large parents seen", distinct as u64);
    c.distinct(hash_of(&code(&big)));
}

/// The shape of a value tree; constants become anonymous.
fn untree(v: &V) -> Ast {
    match v {
        V::Var(f) => Ast::Var(*f),
        V::C(_) => Ast::Const(0),
        V::Op(o, k) => Ast::Op(*o, k.iter().map(untree).collect()),
    }
}

/// A tournament is a crossover with the configured probability: it brings two newcomers, a mutation brings one.
fn p27_rate(c: &mut Case) {
    type T = f64;
    type O = BuiltinOpsF64;
    const D: usize = 2;
    let data = gen_dataset::<T>(&mut c.rng, 2, 3);
    let p = match c.rng.u8(..4) {
        0 => 0.0259,
        1 => 0.01 + 0.15 * c.rng.f64(),
        2 => 0.85 + 0.14 * c.rng.f64(),
        _ => 0.05 + 0.9 * c.rng.f64(),
    };
    let len = 3 + c.rng.usize(..8);
    let mut o = Options::<T, D> {
        operators: operators_from(&[op_named::<O>("add", 2), op_named::<O>("sin", 1)]),
        progress: false,
        maxsize: 12,
        tournament_selection_n: len + c.rng.usize(..3),
        crossover_probability: p,
        annealing: c.rng.bool(),
        use_frequency: false,
        skip_mutation_failures: c.rng.bool(),
        use_baseline: false,
        ..Default::default()
    };
    o.mutation_weights = weights_zero();
    o.mutation_weights.do_nothing = 1.0;
    let tagged = TaggedDataset::new(&data, None);
    let mut ev = Evaluator::<T, D>::new(3);
    let members: Vec<_> = (0..len)
        .map(|i| {
            let n = vec![dynamic_expressions::PNode::Var { feature: c.rng.u16(..2) }];
            let e = PostfixExpr::<T, O, D>::new(n, vec![], Metadata::default());
            let mut m = PopMember::from_expr(MemberId(i as u64), None, i as u64, e, 2);
            m.evaluate(&tagged, &o, &mut ev);
            m
        })
        .collect();
    let mut stats = RunningSearchStatistics::new(o.maxsize, 1000);
    stats.normalize();
    let mut rng = Rng::with_seed(c.rng.u64(..));
    let temperature = c.rng.f64();
    let rounds = 20_000;
    let mut got = [0u32; 3];
    for _ in 0..rounds {
        let mut pop = Population::<T, O, D>::new(members.clone());
        let (mut next_id, mut next_birth) = (1000u64, 1000u64);
        let _ = reg_evol_cycle(
            &mut pop,
            RegEvolCtx {
                rng: &mut rng,
                dataset: tagged,
                temperature,
                curmaxsize: 12,
                stats: &stats,
                options: &o,
                evaluator: &mut ev,
                next_id: &mut next_id,
                next_birth: &mut next_birth,
                _ops: PhantomData::<O>,
            },
        );
        let fresh = pop.members.iter().filter(|m| m.birth >= 1000).count();
        got[fresh.min(2)] += 1;
    }
    c.evals(rounds as u64);
    c.count("tournaments observed", rounds as u64);
    let n = rounds as f64;
    let ctx = format!("{got:?} tournaments with 0, 1 and 2 newcomers, probability {p}, {len} members");
    c.distinct(hash_of(&ctx));
    if (got[2] as f64 - n * p).abs() > 6.5 * (n * p * (1.0 - p)).sqrt() + 3.0 {
        c.fail("crossover does not happen with the configured probability", ctx);
    }
}

/// Parents of hundreds to thousands of constants, every value its own: the exchange is read off the
/// two token sequences.
fn p27_vast<O: OperatorSet<T = f64>, const D: usize>(c: &mut Case) {
    use dynamic_expressions::PNode;
    let ops = all_ops::<O>(D);
    let mut serial = 0.0f64;
    let mut parent = |c: &mut Case| {
        let leaves = match c.rng.u8(..4) {
            0 => 20 + c.rng.usize(..200),
            1 => 2000 + c.rng.usize(..12_000),
            _ => 200 + c.rng.usize(..1500),
        };
        let p_const = 1.0 - 0.6 * c.rng.f64() * f64::from(c.rng.u8(..2));
        let mut consts = Vec::new();
        let mut parts: Vec<Vec<PNode>> = (0..leaves)
            .map(|_| {
                vec![if c.rng.f64() < p_const {
                    serial += 1.0;
                    consts.push(serial);
                    PNode::Const { idx: (consts.len() - 1) as u16 }
                } else {
                    PNode::Var { feature: c.rng.u16(..7) }
                }]
            })
            .collect();
        c.rng.shuffle(&mut parts);
        let wide: Vec<dynamic_expressions::OpId> = ops.iter().copied().filter(|o| o.arity > 1).collect();
        while parts.len() > 1 {
            let op = if c.rng.u8(..6) == 0 { ops[c.rng.usize(..ops.len())] } else { wide[c.rng.usize(..wide.len())] };
            if op.arity as usize > parts.len() {
                continue;
            }
            let mut whole = Vec::new();
            for _ in 0..op.arity {
                let i = c.rng.usize(..parts.len());
                whole.extend(parts.swap_remove(i));
            }
            whole.push(PNode::Op { arity: op.arity, op: op.id });
            parts.push(whole);
        }
        PostfixExpr::<f64, O, D>::new(parts.pop().unwrap(), consts, Metadata::default())
    };
    let (a, b) = (parent(c), parent(c));
    let tokens = |e: &PostfixExpr<f64, O, D>| -> Option<Vec<(u8, u64)>> {
        e.nodes
            .iter()
            .map(|n| match *n {
                PNode::Const { idx } => e.consts.get(idx as usize).map(|v| (254, v.to_bits())),
                PNode::Var { feature } => Some((255, u64::from(feature))),
                PNode::Op { arity, op } => Some((arity, u64::from(op))),
            })
            .collect()
    };
    // (start, end) of every subtree, None where the sequence is not one tree
    let ranges = |t: &[(u8, u64)]| -> Option<Vec<(usize, usize)>> {
        let mut open: Vec<usize> = Vec::new();
        let mut out = Vec::with_capacity(t.len());
        for (i, (k, _)) in t.iter().enumerate() {
            let start = if *k >= 254 { i } else { open.drain(open.len().checked_sub(*k as usize)?..).next()? };
            open.push(start);
            out.push((start, i + 1));
        }
        (open.len() == 1).then_some(out)
    };
    let (ta, tb) = (tokens(&a).unwrap(), tokens(&b).unwrap());
    let (ra, rb) = (ranges(&ta).unwrap(), ranges(&tb).unwrap());
    let mut rng = Rng::with_seed(c.rng.u64(..));
    let mut moved = 0;
    for _ in 0..12 {
        let (x, y) = crossover_trees(&mut rng, &a, &b);
        c.eval();
        let ctx = || {
            format!(
                "{} nodes and {} constants with {} and {} => {} and {} with {} and {}",
                a.nodes.len(), a.consts.len(), b.nodes.len(), b.consts.len(), x.nodes.len(), x.consts.len(), y.nodes.len(), y.consts.len()
            )
        };
        let (Some(tx), Some(ty)) = (tokens(&x), tokens(&y)) else {
            c.fail("crossover yields a reference to a constant that is not there", ctx());
            return;
        };
        if ranges(&tx).is_none() || ranges(&ty).is_none() {
            c.fail("crossover yields a malformed expression", ctx());
            return;
        }
        // what stands before and after the exchanged subtree is untouched
        let fore = |p: &[(u8, u64)], q: &[(u8, u64)]| p.iter().zip(q).take_while(|(u, v)| u == v).count();
        let aft = |p: &[(u8, u64)], q: &[(u8, u64)]| p.iter().rev().zip(q.iter().rev()).take_while(|(u, v)| u == v).count();
        let (fx, lx, fy, ly) = (fore(&ta, &tx), aft(&ta, &tx), fore(&tb, &ty), aft(&tb, &ty));
        let sa: Vec<_> = ra.iter().filter(|(s, e)| *s <= fx && ta.len() - e <= lx).collect();
        let sb: Vec<_> = rb.iter().filter(|(s, e)| *s <= fy && tb.len() - e <= ly).collect();
        let explained = sa.iter().any(|(s, e)| {
            sb.iter().any(|(u, v)| {
                tx.len() + (e - s) == ta.len() + (v - u)
                    && ty.len() + (v - u) == tb.len() + (e - s)
                    && tx[*s..s + (v - u)] == tb[*u..*v]
                    && ty[*u..u + (e - s)] == ta[*s..*e]
            })
        });
        if !explained {
            c.fail("crossover of large parents is not an exchange of one subtree each", ctx());
            return;
        }
        let consts = |e: &PostfixExpr<f64, O, D>| e.nodes.iter().filter(|n| matches!(n, PNode::Const { .. })).count();
        moved = moved.max(consts(&x).abs_diff(a.consts.len())).max(consts(&y).abs_diff(b.consts.len()));
    }
    c.count("exchanges between large parents", 12);
    c.count("exchanges of hundreds of constants", u64::from(moved > 256));
    c.distinct(hash_of(&(ta, tb)));
}

/// The two parents of a crossover are drawn by tournaments of their own: in tournaments of one they
/// are the same member as often as chance has it, and every pair occurs.
fn p27_partners(c: &mut Case) {
    type T = f64;
    type O = BuiltinOpsF64;
    const D: usize = 2;
    let data = gen_dataset::<T>(&mut c.rng, 2, 3);
    let len = match c.rng.u8(..3) {
        0 => 2 + c.rng.usize(..5),
        1 => 7 + c.rng.usize(..40),
        _ => 47 + c.rng.usize(..80),
    };
    let o = Options::<T, D> {
        operators: operators_from(&[op_named::<O>("add", 2), op_named::<O>("sin", 1)]),
        progress: false,
        maxsize: 12,
        tournament_selection_n: 1,
        crossover_probability: 1.0,
        annealing: c.rng.bool(),
        use_frequency: false,
        skip_mutation_failures: c.rng.bool(),
        use_baseline: false,
        ..Default::default()
    };
    let tagged = TaggedDataset::new(&data, None);
    let mut ev = Evaluator::<T, D>::new(3);
    let members: Vec<_> = (0..len)
        .map(|i| {
            let n = vec![dynamic_expressions::PNode::Var { feature: c.rng.u16(..2) }];
            let e = PostfixExpr::<T, O, D>::new(n, vec![], Metadata::default());
            let mut m = PopMember::from_expr(MemberId(i as u64), None, i as u64, e, 2);
            m.evaluate(&tagged, &o, &mut ev);
            m
        })
        .collect();
    let mut pop = Population::<T, O, D>::new(members);
    let mut stats = RunningSearchStatistics::new(o.maxsize, 1000);
    stats.normalize();
    let mut rng = Rng::with_seed(c.rng.u64(..));
    let (mut next_id, mut next_birth) = (1000u64, 1000u64);
    let (mut pairs, mut same) = (0u64, 0u64);
    while pairs < 15_000 {
        let _ = reg_evol_cycle(
            &mut pop,
            RegEvolCtx {
                rng: &mut rng,
                dataset: tagged,
                temperature: 1.0,
                curmaxsize: 12,
                stats: &stats,
                options: &o,
                evaluator: &mut ev,
                next_id: &mut next_id,
                next_birth: &mut next_birth,
                _ops: PhantomData::<O>,
            },
        );
        let mut kids: Vec<_> = pop.members.iter().filter(|m| m.birth >= 1000).map(|m| (m.birth, m.parent.map(|p| p.0))).collect();
        kids.sort();
        // offspring of one crossover have consecutive stamps, the first of them an even one
        for k in kids.windows(2) {
            if k[0].0 % 2 == 0 && k[1].0 == k[0].0 + 1 {
                pairs += 1;
                same += u64::from(k[0].1 == k[1].1);
            }
        }
        if kids.len() < 2 {
            c.fail("crossover leaves no two offspring", format!("{len} members: {kids:?}"));
            return;
        }
    }
    c.evals(pairs);
    c.count("pairs of parents observed", pairs);
    let (n, p) = (pairs as f64, 1.0 / len as f64);
    let ctx = format!("{same} of {pairs} crossovers in a population of {len} were of one member with itself");
    c.distinct(hash_of(&ctx));
    if (same as f64 - n * p).abs() > 6.5 * (n * p * (1.0 - p)).sqrt() + 3.0 {
        c.fail("the parents of a crossover are not drawn independently", ctx);
    }
}

pub fn p27(m: &Mon) {
    m.rule("distinct parent pairs; for small parents all exchanges are enumerated and each must occur, for large ones each result must be one of them");
    m.assume("exchanges are compared by value: two exchanges with equal results are not told apart; 60 draws per possible exchange");
    m.require("exchanges checked", 50_000);
    m.require("pairs with every exchange seen", 300);
    m.require("successful crossovers", 2000);
    m.require("failed crossovers", 500);
    let n = m.scale(800, 24_000);
    m.cases("pairs64", n, p27_case::<f64, BuiltinOpsF64, 3>);
    m.cases("pairs32", n / 2, p27_case::<f32, BuiltinOpsF32, 2>);
    m.cases("pairs-mixed", n, p27_case::<f64, Mix4, 4>);
    m.require("subtrees of large parents seen", 5000);
    m.cases("large64", n / 8, p27_large::<BuiltinOpsF64, 3>);
    m.cases("large-mixed", n / 8, p27_large::<Mix4, 4>);
    m.require("exchanges between large parents", 500);
    m.require("exchanges of hundreds of constants", 10);
    m.cases("vast64", n / 8, p27_vast::<BuiltinOpsF64, 3>);
    m.cases("vast-mixed", n / 8, p27_vast::<Mix4, 4>);
    m.require("tournaments observed", 400_000);
    m.cases("rate", m.scale(40, 1000), p27_rate);
    m.require("pairs of parents observed", 200_000);
    m.cases("partners", m.scale(40, 1000), p27_partners);
}
