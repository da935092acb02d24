//! P23: hostile and edge workloads over everything public. The verdict is the process outcome: no panic,
//! no overflow (checked arithmetic is on), no sanitizer report, no case that does not come to an end.
use crate::ast::*;
use crate::sgen::{gen_dataset, gen_loss_kind, gen_ops, operators_from};
use crate::c_search::Num;
use crate::common::*;
use crate::gen::*;
use dynamic_expressions::operator_enum::presets::{BuiltinOpsF32, BuiltinOpsF64};
use dynamic_expressions::strings::{string_tree, StringTreeOptions};
use dynamic_expressions::*;
use ndarray::{s, Array1};
use std::marker::PhantomData;
use symbolic_regression::verif::crossover_trees;
use symbolic_regression::{
    check_constraints, compute_complexity, equation_search, make_loss, next_generation, optimize_constants, random_expr,
    random_expr_append_ops, Dataset, Evaluator, LossKind, MemberId, NextGenerationCtx, OptimizeConstantsCtx, Options,
    OutputStyle, PopMember, RunningSearchStatistics, SearchEngine, TaggedDataset,
};

fn any_data(rng: &mut Rng) -> Data {
    [Data::Tame, Data::Positive, Data::Wide, Data::Hostile, Data::Hostile][rng.usize(..5)]
}

fn hostile_consts<T: Fl>(rng: &mut Rng, e: &mut [T]) {
    if rng.u8(..3) == 0 {
        for v in e {
            if rng.bool() {
                *v = gen_value(rng, Data::Hostile);
            }
        }
    }
}

fn any_opts(rng: &mut Rng) -> EvalOptions {
    EvalOptions {
        check_finite: rng.bool(),
        early_exit: rng.bool(),
    }
}

fn rows(rng: &mut Rng) -> usize {
    match rng.u8(..8) {
        0 => 1,
        1 => 2,
        2 => [63, 64, 65, 127, 128, 129, 255, 256, 257, 1023, 1024, 1025][rng.usize(..12)],
        _ => 1 + rng.usize(..20),
    }
}

/// Evaluation, derivatives, tree utilities, simplification and printing of arbitrary well-formed expressions.
fn expressions<T: Num, O: OperatorSet<T = T>, const D: usize>(c: &mut Case) {
    let small = small_stage();
    let n_features = match c.rng.u8(..6) {
        0 => 1,
        1 if !small => 1 + c.rng.usize(..300),
        _ => 1 + c.rng.usize(..5),
    };
    let budget = match c.rng.u8(..10) {
        0 if !small => 200 + c.rng.usize(..1500),
        1 | 2 => 1,
        _ => 1 + c.rng.usize(..25),
    };
    let g = GenCfg {
        ops: all_ops::<O>(D),
        n_features,
        n_consts: c.rng.usize(..5),
        p_const: c.rng.f64(),
    };
    let mut e: PostfixExpr<T, O, D> = if g.n_consts > 0 && c.rng.bool() {
        gen_expr(&mut c.rng, &g, budget)
    } else {
        gen_expr_canonical(&mut c.rng, &g, budget)
    };
    hostile_consts(&mut c.rng, &mut e.consts);
    let n_rows = if budget > 100 || small { 1 + c.rng.usize(..3) } else { rows(&mut c.rng) };
    let kind = any_data(&mut c.rng);
    let owned = gen_matrix::<T>(&mut c.rng, n_features, n_rows, kind);
    // a contiguous part of a larger table is data too
    let taller = gen_matrix::<T>(&mut c.rng, n_features + 2, n_rows, kind);
    let x = match c.rng.u8(..6) {
        0 => taller.slice(s![1..n_features + 1, ..]),
        _ => owned.view(),
    };
    let opts = any_opts(&mut c.rng);
    let (_, ok) = eval_tree_array::<T, O, D>(&e, x, &opts);
    c.count(if ok { "complete_evaluations" } else { "incomplete_evaluations" }, 1);
    let mut ctx = EvalContext::<T, D>::new(n_rows);
    let mut out = vec![T::nan(); n_rows];
    eval_tree_array_into::<T, O, D>(&mut out, &e, x, &mut ctx, &opts);
    let dirn = c.rng.usize(..n_features);
    let _ = eval_diff_tree_array::<T, O, D>(&e, x, dirn, &mut DiffContext::new(n_rows), &opts);
    if n_features < 20 || budget < 30 {
        let _ = eval_grad_tree_array::<T, O, D>(&e, x, true, &mut GradContext::new(n_rows), &opts);
    }
    let _ = eval_grad_tree_array::<T, O, D>(&e, x, false, &mut GradContext::new(n_rows), &opts);

    let _ = (
        count_depth(&e.nodes),
        count_nodes(&e.nodes),
        count_constant_nodes(&e.nodes),
        has_constants(&e.nodes),
        has_operators(&e.nodes),
    );
    let sizes = subtree_sizes(&e.nodes);
    for root in [0, e.nodes.len() - 1, c.rng.usize(..e.nodes.len())] {
        let r = subtree_range(&sizes, root);
        let _ = &e.nodes[r.0..=r.1];
    }
    if budget < 300 {
        let names: Vec<String> = (0..n_features).map(|i| ["x", "größe", "", "a b"][i % 4].to_string() + &i.to_string()).collect();
        for o in [
            StringTreeOptions::default(),
            StringTreeOptions {
                variable_names: Some(&names),
                pretty: true,
            },
            StringTreeOptions {
                // too few names
                variable_names: Some(&names[..n_features / 2]),
                pretty: c.rng.bool(),
            },
        ] {
            let _ = string_tree(&e, o);
        }
    }
    let (vals, refs) = get_scalar_constants(&e);
    set_scalar_constants(&mut e, &vals, &refs);
    let mut e1 = e.clone();
    let _ = simplify_in_place::<T, O, D>(&mut e1, &opts);
    let mut e2 = e.clone();
    let _ = combine_operators_in_place::<T, O, D>(&mut e2);
    let _ = compress_constants(&mut e2);
    for r in [&e1, &e2] {
        let _ = eval_tree_array::<T, O, D>(r, owned.view(), &opts);
    }
    c.evals(8);
    c.distinct(hash_of(&(format!("{:?}", e.nodes), n_rows)));
    c.count("expressions", 1);
}

fn edge_usize(rng: &mut Rng, v: &[usize]) -> usize {
    v[rng.usize(..v.len())]
}

/// Options anywhere within their ranges, edges preferred. Sizes stay small enough to run thousands of searches.
fn edge_options<T: Num, O: OperatorSet<T = T>, const D: usize>(rng: &mut Rng, n_features: usize) -> (Options<T, D>, LossKind) {
    let ops = match rng.u8(..4) {
        0 => {
            let all = all_ops::<O>(D);
            vec![all[rng.usize(..all.len())]]
        }
        1 => all_ops::<O>(D),
        _ => gen_ops::<O>(rng, D),
    };
    let kind = match rng.u8(..4) {
        0 => [
            LossKind::Huber { delta: 1e-300 },
            LossKind::Huber { delta: 1e300 },
            LossKind::Lp { p: 1.0 },
            LossKind::Lp { p: 0.5 },
            LossKind::Lp { p: 7.5 },
            LossKind::Quantile { tau: 0.0 },
            LossKind::Quantile { tau: 1.0 },
            LossKind::EpsilonInsensitive { eps: 0.0 },
        ][rng.usize(..8)],
        _ => gen_loss_kind(rng),
    };
    let p = |rng: &mut Rng| [0.0, 1.0, 0.5, rng.f64(), 1e-300][rng.usize(..5)];
    let mut o = Options::<T, D> {
        operators: operators_from(&ops),
        loss: make_loss::<T>(kind),
        ..Default::default()
    };
    o.seed = [0, 1, u64::MAX, rng.u64(..)][rng.usize(..4)];
    o.niterations = edge_usize(rng, &[0, 1, 1, 2, 3]);
    o.populations = edge_usize(rng, &[1, 1, 2, 3, 9]);
    o.crossover_probability = [0.0, 0.0259, 1.0, rng.f64()][rng.usize(..4)];
    // recombination needs two parents
    o.population_size = edge_usize(rng, if o.crossover_probability > 0.0 { &[2, 3, 8, 17] } else { &[1, 1, 2, 3, 8, 17] });
    o.ncycles_per_iteration = edge_usize(rng, &[0, 1, 2, 12]);
    o.batching = rng.bool();
    o.batch_size = edge_usize(rng, &[1, 2, 50, 10_000]);
    o.complexity_of_constants = [0, 1, 1, 2, 40, u16::MAX][rng.usize(..6)];
    o.complexity_of_variables = [0, 1, 1, 2, 40, u16::MAX][rng.usize(..6)];
    o.maxsize = edge_usize(rng, &[3, 4, 5, 7, 30, 100, 1, 2]);
    o.maxdepth = edge_usize(rng, &[1, 2, 3, 10, 30, usize::MAX]);
    o.warmup_maxsize_by = [0.0, 0.0, 1e-6, 0.5, 0.999, 1.0, 3.0][rng.usize(..7)];
    o.parsimony = [0.0, 0.0032, 10.0, 1e300][rng.usize(..4)];
    o.adaptive_parsimony_scaling = [0.0, 20.0, 1040.0, 1e9][rng.usize(..4)];
    o.perturbation_factor = [0.0, 0.129, 1.0, 50.0][rng.usize(..4)];
    o.probability_negate_constant = p(rng);
    o.tournament_selection_n = edge_usize(rng, &[1, 2, 15, 1000]);
    o.tournament_selection_p = [1.0, 0.982, 0.5, 1e-6, 0.01][rng.usize(..5)];
    o.alpha = [0.0, 1e-9, 3.17, 1e9][rng.usize(..4)];
    o.optimizer_nrestarts = edge_usize(rng, &[0, 1, 2]);
    o.optimizer_probability = p(rng);
    o.optimizer_iterations = edge_usize(rng, &[0, 1, 8, 30]);
    o.optimizer_f_calls_limit = edge_usize(rng, &[0, 1, 2, 10, 10_000]);
    o.fraction_replaced = p(rng);
    o.fraction_replaced_hof = p(rng);
    o.fraction_replaced_guesses = p(rng);
    o.topn = edge_usize(rng, &[0, 1, 12, 1000]);
    for b in [
        &mut o.use_frequency,
        &mut o.use_frequency_in_tournament,
        &mut o.skip_mutation_failures,
        &mut o.annealing,
        &mut o.should_optimize_constants,
        &mut o.migration,
        &mut o.hof_migration,
        &mut o.use_baseline,
        &mut o.progress,
        &mut o.should_simplify,
    ] {
        *b = rng.bool();
    }
    o.output_style = [OutputStyle::Auto, OutputStyle::Plain, OutputStyle::Ansi][rng.usize(..3)];
    let w = &mut o.mutation_weights;
    match rng.u8(..4) {
        // one kind only, or none
        0 => {
            let pick = rng.usize(..15);
            for (i, v) in [
                &mut w.mutate_constant,
                &mut w.mutate_operator,
                &mut w.mutate_feature,
                &mut w.swap_operands,
                &mut w.rotate_tree,
                &mut w.add_node,
                &mut w.insert_node,
                &mut w.delete_node,
                &mut w.simplify,
                &mut w.randomize,
                &mut w.do_nothing,
                &mut w.optimize,
                &mut w.form_connection,
                &mut w.break_connection,
            ]
            .into_iter()
            .enumerate()
            {
                *v = if i == pick { 1.0 } else { 0.0 };
            }
        }
        1 => {
            w.randomize = 0.5;
            w.optimize = 0.5;
            w.simplify = 0.5;
        }
        _ => {}
    }
    if small_stage() {
        o.niterations = 1;
        o.populations = o.populations.min(2);
        o.population_size = o.population_size.min(3);
        o.ncycles_per_iteration = o.ncycles_per_iteration.min(1);
        o.optimizer_iterations = o.optimizer_iterations.min(1);
        o.optimizer_nrestarts = 0;
        o.maxsize = o.maxsize.min(9);
        o.progress = false;
    }
    if rng.u8(..3) == 0 {
        o.variable_complexities = Some((0..n_features).map(|_| [0, 1, 3, u16::MAX][rng.usize(..4)]).collect());
    }
    if rng.u8(..3) == 0 {
        for &op in &ops {
            if rng.bool() {
                o.operator_complexity_overrides.insert(op, [0, 1, 2, u16::MAX][rng.usize(..4)]);
            }
            if rng.u8(..3) == 0 {
                let j = rng.usize(..op.arity as usize);
                o.op_constraints.set_op_arg_constraint(op, j, [0, 1, 3, u16::MAX][rng.usize(..4)]);
            }
            if rng.u8(..3) == 0 {
                let other = ops[rng.usize(..ops.len())];
                o.nested_constraints.add_nested_constraint(op, other, [0, 1, u8::MAX][rng.usize(..3)]);
            }
        }
    }
    (o, kind)
}

fn edge_data<T: Num>(rng: &mut Rng) -> Dataset<T> {
    let n_features = edge_usize(rng, &[1, 1, 2, 3, 12]);
    let n_rows = if small_stage() { 1 + rng.usize(..4) } else { edge_usize(rng, &[1, 1, 2, 3, 20, 64, 65]) };
    let (kx, ky) = (any_data(rng), any_data(rng));
    let x = gen_matrix::<T>(rng, n_features, n_rows, kx);
    let y: Vec<T> = match rng.u8(..5) {
        0 => vec![T::zero(); n_rows],
        _ => (0..n_rows).map(|_| gen_value(rng, ky)).collect(),
    };
    let w = match rng.u8(..6) {
        0 => Some(vec![T::zero(); n_rows]),
        1 => Some((0..n_rows).map(|_| T::of(rng.f64())).collect()),
        2 => Some((0..n_rows).map(|_| gen_value::<T>(rng, Data::Hostile).abs()).collect()),
        _ => None,
    };
    let names = match rng.u8(..4) {
        0 => (0..n_features).map(|i| format!("ünï{i}")).collect(),
        1 => vec!["only one".to_string()],
        _ => Vec::new(),
    };
    Dataset::with_weights_and_names(x, Array1::from_vec(y), w.map(Array1::from_vec), names)
}

fn describe<T: Num, O: OperatorSet<T = T>, const D: usize>(o: &Options<T, D>, d: &Dataset<T>, kind: LossKind) -> String {
    format!(
        "{} it {} pops {} size {} cyc {} maxsize {} depth {} warm {} batch {}/{} tour {}/{} rows {} feats {} {kind:?} ops {} cx {}",
        o.seed, o.niterations, o.populations, o.population_size, o.ncycles_per_iteration, o.maxsize, o.maxdepth, o.warmup_maxsize_by,
        o.batching, o.batch_size, o.tournament_selection_n, o.tournament_selection_p, d.n_rows, d.n_features,
        o.operators.ops_by_arity.iter().map(|v| v.len()).sum::<usize>(), o.crossover_probability
    )
}

/// Stepwise and parallel searches.
fn searches<T: Num, O, const D: usize>(c: &mut Case)
where
    O: OperatorSet<T = T> + Send + Sync,
{
    let d = edge_data::<T>(&mut c.rng);
    let (o, kind) = edge_options::<T, O, D>(&mut c.rng, d.n_features);
    let text = describe::<T, O, D>(&o, &d, kind);
    c.sample(|| text.clone());
    c.distinct(hash_of(&text));
    c.eval();
    let r = guarded(|| {
        if c.rng.bool() || (cfg!(miri) || std::env::var("SRMON_STAGE").as_deref() == Ok("miri")) {
            let mut e = SearchEngine::<T, O, D>::new(d.clone(), o.clone());
            let mut n = 0;
            while !e.is_finished() && n < 100 {
                e.step([0, 1, 2, usize::MAX][c.rng.usize(..4)]);
                let _ = (e.best().loss, e.hall_of_fame().pareto_front().len(), e.total_evals());
                n += 1;
            }
            let evals = e.total_evals();
            let r = e.run_to_completion();
            let _ = format!("{} {}", r.best.expr, r.hall_of_fame.pareto_front().len());
            ("stepwise_searches", evals)
        } else {
            let r = equation_search::<T, O, D>(&d, &o);
            for m in r.hall_of_fame.members() {
                let _ = m.expr.to_string();
            }
            ("parallel_searches", 0)
        }
    });
    match r {
        Ok((k, evals)) => {
            c.count(k, 1);
            c.count("evaluations_in_searches", evals);
        }
        Err((msg, loc)) => c.fail(format!("panic at {}", strip_line(&loc)), format!("{loc}: {msg}: {text}")),
    }
}

/// Searches meant to run until they are stopped, with unlimited counts.
fn endless<T: Num, O: OperatorSet<T = T>, const D: usize>(c: &mut Case) {
    let d = edge_data::<T>(&mut c.rng);
    let (mut o, kind) = edge_options::<T, O, D>(&mut c.rng, d.n_features);
    o.niterations = [usize::MAX, usize::MAX / 2 + 1, usize::MAX / 3, usize::MAX >> 4][c.rng.usize(..4)];
    for v in [&mut o.tournament_selection_n, &mut o.topn, &mut o.maxdepth] {
        if c.rng.bool() {
            *v = usize::MAX;
        }
    }
    if o.optimizer_iterations > 1 && c.rng.bool() {
        o.optimizer_f_calls_limit = usize::MAX;
    }
    let text = describe::<T, O, D>(&o, &d, kind);
    c.sample(|| text.clone());
    c.distinct(hash_of(&text));
    c.eval();
    let r = guarded(|| {
        let mut e = SearchEngine::<T, O, D>::new(d.clone(), o.clone());
        let (mut done, mut asked) = (0, 0);
        for _ in 0..3 {
            let n = c.rng.usize(..4);
            asked += n;
            done += e.step(n);
        }
        let _ = (e.total_cycles(), e.total_evals(), e.best().loss, e.hall_of_fame().pareto_front().len());
        (asked, done, e.cycles_completed(), e.is_finished())
    });
    match r {
        Ok((asked, done, completed, finished)) => {
            c.count("endless_searches", 1);
            if done != asked || completed != asked || finished {
                c.fail("an endless search stops", format!("{done} of {asked} cycles ({completed}, {finished}): {text}"));
            }
        }
        Err((msg, loc)) => c.fail(format!("panic at {}", strip_line(&loc)), format!("{loc}: {msg}: {text}")),
    }
}

/// Single operations of the evolution under edge options.
fn operations<T: Num, O: OperatorSet<T = T>, const D: usize>(c: &mut Case) {
    let d = edge_data::<T>(&mut c.rng);
    let (o, kind) = edge_options::<T, O, D>(&mut c.rng, d.n_features);
    let text = describe::<T, O, D>(&o, &d, kind);
    let ops: Vec<OpId> = o.operators.ops_by_arity.iter().flatten().copied().collect();
    let g = GenCfg {
        ops,
        n_features: d.n_features,
        n_consts: 3,
        p_const: 0.4,
    };
    let mut rng = Rng::with_seed(c.rng.u64(..));
    let tagged = TaggedDataset::new(&d, Some(T::one()));
    let mut ev = Evaluator::new(d.n_rows);
    let mut grad = GradContext::<T, D>::new(d.n_rows);
    let mut stats = RunningSearchStatistics::new(o.maxsize, 1000);
    stats.normalize();
    let (mut next_id, mut next_birth) = (10, 10);
    for _ in 0..if small_stage() { 1 } else { 6 } {
        let b1 = 1 + rng.usize(..14);
        let mut e1: PostfixExpr<T, O, D> = match rng.u8(..4) {
            0 => random_expr(&mut rng, &o.operators, d.n_features, b1),
            1 => random_expr_append_ops(&mut rng, &o.operators, d.n_features, b1, 20),
            _ => gen_expr_canonical(&mut rng, &g, b1),
        };
        hostile_consts(&mut rng, &mut e1.consts);
        let e2: PostfixExpr<T, O, D> = gen_expr_canonical(&mut rng, &g, 5);
        let _ = check_constraints(&e1, &o, o.maxsize);
        let _ = compute_complexity(&e1.nodes, &o);
        let (a, b) = crossover_trees(&mut rng, &e1, &e2);
        let mut m = PopMember::from_expr(MemberId(1), None, 0, a, d.n_features);
        m.evaluate(&tagged, &o, &mut ev);
        let mut m2 = PopMember::from_expr(MemberId(2), None, 0, b, d.n_features);
        m2.evaluate(&tagged, &o, &mut ev);
        let temperature = [0.0, 1.0, rng.f64()][rng.usize(..3)];
        let curmaxsize = o.maxsize.min(3 + rng.usize(..30));
        for _ in 0..4 {
            let (baby, _, _) = next_generation(
                &m,
                NextGenerationCtx {
                    rng: &mut rng,
                    dataset: tagged,
                    temperature,
                    curmaxsize,
                    stats: &stats,
                    options: &o,
                    evaluator: &mut ev,
                    next_id: &mut next_id,
                    next_birth: &mut next_birth,
                    _ops: PhantomData,
                },
            );
            stats.update_frequencies(baby.complexity);
            m = baby;
        }
        let _ = optimize_constants(
            &mut rng,
            &mut m2,
            OptimizeConstantsCtx {
                dataset: tagged,
                options: &o,
                evaluator: &mut ev,
                grad_ctx: &mut grad,
                next_birth: &mut next_birth,
            },
        );
        c.evals(7);
        c.count("offspring", 4);
    }
    stats.move_window();
    stats.normalize();
    c.distinct(hash_of(&text));
}

/// Races: searches on shared pools, several at once, meant for the thread sanitizer.
fn concurrent(c: &mut Case) {
    let n = 1 + c.rng.usize(..3);
    let seeds: Vec<u64> = (0..n).map(|_| c.rng.u64(..)).collect();
    std::thread::scope(|sc| {
        for s in seeds {
            sc.spawn(move || {
                let mut rng = Rng::with_seed(s);
                let d = gen_dataset::<f64>(&mut rng, 2, 20);
                let mut o = Options::<f64, 3> {
                    operators: operators_from(&gen_ops::<BuiltinOpsF64>(&mut rng, 3)),
                    ..Default::default()
                };
                o.seed = s;
                o.populations = 1 + rng.usize(..9);
                o.population_size = 8;
                o.niterations = 1 + rng.usize(..4);
                o.ncycles_per_iteration = 8;
                o.batching = rng.bool();
                o.progress = false;
                let threads = 1 + rng.usize(..5);
                let pool = rayon::ThreadPoolBuilder::new().num_threads(threads).build().unwrap();
                let r = pool.install(|| equation_search::<f64, BuiltinOpsF64, 3>(&d, &o));
                assert!(r.hall_of_fame.members().count() < 1000);
            });
        }
    });
    c.eval();
    c.count("concurrent_searches", n as u64);
    let h = c.rng.u64(..);
    c.distinct(h);
}

pub fn p23(m: &Mon) {
    let stage = std::env::var("SRMON_STAGE").unwrap_or_default();
    m.rule("an expression with its row count, an options/data combination, or a concurrent search, by hash");
    m.assume("valid means: at least one row, feature and operator; two members when recombination is possible; tournament probability above 0");
    // thorough counts are per sanitizer as well
    let k = match stage.as_str() {
        "miri" => 0,
        "asan" => m.scale(4, 60),
        "tsan" => m.scale(2, 30),
        "msan" => m.scale(2, 40),
        _ => m.scale(20, 400),
    };
    if stage == "miri" {
        m.cases_on(1, "expr64", 40, expressions::<f64, BuiltinOpsF64, 3>);
        m.cases_on(1, "expr_mixed", 25, expressions::<f64, Mix4, 4>);
        m.cases_on(1, "operations64", 25, operations::<f64, BuiltinOpsF64, 3>);
        return;
    }
    if stage == "tsan" {
        m.cases_on(2, "concurrent", 20 * k, concurrent);
        m.cases_on(2, "search64", 30 * k, searches::<f64, BuiltinOpsF64, 3>);
        m.require("concurrent_searches", 10);
        return;
    }
    m.cases("expr64", 400 * k, expressions::<f64, BuiltinOpsF64, 3>);
    m.cases("expr32", 200 * k, expressions::<f32, BuiltinOpsF32, 3>);
    m.cases("expr_binary", 100 * k, expressions::<f64, BuiltinOpsF64, 2>);
    m.cases("expr_unary", 50 * k, expressions::<f64, BuiltinOpsF64, 1>);
    m.cases("expr_mixed", 200 * k, expressions::<f64, Mix4, 4>);
    m.cases("operations64", 100 * k, operations::<f64, BuiltinOpsF64, 3>);
    m.cases("operations32", 50 * k, operations::<f32, BuiltinOpsF32, 3>);
    m.cases("operations_mixed", 50 * k, operations::<f64, Mix4, 4>);
    m.cases("search64", 60 * k, searches::<f64, BuiltinOpsF64, 3>);
    m.cases("search32", 40 * k, searches::<f32, BuiltinOpsF32, 3>);
    m.cases("search_binary", 20 * k, searches::<f64, BuiltinOpsF64, 2>);
    m.cases("search_mixed", 20 * k, searches::<f64, Mix4, 4>);
    m.cases("endless64", 20 * k, endless::<f64, BuiltinOpsF64, 3>);
    m.cases("endless32", 20 * k, endless::<f32, BuiltinOpsF32, 3>);
    m.cases_on(2, "concurrent", 3 * k, concurrent);
    m.require("complete_evaluations", 500);
    m.require("incomplete_evaluations", 100);
    m.require("stepwise_searches", 50);
    m.require("parallel_searches", 50);
    m.require("endless_searches", 20);
    m.require("offspring", 1000);
}

/// Under the undefined-behaviour interpreter only small sizes are affordable.
fn small_stage() -> bool {
    cfg!(miri) || std::env::var("SRMON_STAGE").as_deref() == Ok("miri")
}
