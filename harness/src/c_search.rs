//! Whole searches observed cycle by cycle: P07 constraints, P08 scores, P09 hall of fame,
//! P10 determinism, P24 size warm-up, P25 recovery.
use crate::ast::*;
use crate::sgen::{gen_options, gen_ops, operators_from};
use crate::common::*;
use crate::gen::*;
use crate::spec;
use dynamic_expressions::operator_enum::presets::{BuiltinOpsF32, BuiltinOpsF64};
use dynamic_expressions::{OpId, OperatorSet, PNode, PostfixExpr};
use ndarray::{Array1, Array2};
use num_traits::{Float, FromPrimitive, ToPrimitive};
#[cfg(feature = "hooks")]
use symbolic_regression::verif::get_cur_maxsize;
#[cfg(feature = "hooks")]
use symbolic_regression::check_constraints;
use symbolic_regression::{
    compute_complexity, equation_search, make_loss, Dataset, HallOfFame, LossKind, MemberId, Options,
    PopMember, SearchEngine,
};

pub trait Num: Fl + FromPrimitive + ToPrimitive {}
impl Num for f32 {}
impl Num for f64 {}

pub struct Setup<T: Float, const D: usize> {
    pub data: Dataset<T>,
    pub options: Options<T, D>,
    pub kind: LossKind,
}

/// Targets that follow a law often enough that good equations appear and compete.
pub fn gen_search_data<T: Fl>(rng: &mut Rng) -> Dataset<T> {
    let n_features = sized(rng, 1..4, 24, 4..20);
    let n_rows = sized(rng, 1..25, 24, 25..300);
    let shape = if rng.u8(..4) == 0 { Data::Positive } else { Data::Tame };
    let x = gen_matrix::<T>(rng, n_features, n_rows, shape);
    let law = rng.u8(..5);
    let y: Vec<T> = (0..n_rows)
        .map(|r| {
            let a = x[[0, r]].f();
            let b = x[[n_features - 1, r]].f();
            T::of(match law {
                0 => a * b + 1.5,
                1 => 2.0 * a - b.sin(),
                2 => (a * a + 0.3) / (1.0 + b * b),
                3 => 1e-3 * a,
                _ => rng.f64() * 4.0 - 2.0,
            })
        })
        .collect();
    let w = (rng.u8(..3) == 0).then(|| Array1::from_vec((0..n_rows).map(|_| T::of(if rng.u8(..24) == 0 { 0.0 } else { 0.05 + 2.0 * rng.f64() })).collect()));
    Dataset::with_weights_and_names(x, Array1::from_vec(y), w, Vec::new())
}

pub fn gen_search<T: Fl, O: OperatorSet, const D: usize>(rng: &mut Rng) -> Setup<T, D> {
    let ops = gen_ops::<O>(rng, D);
    let data = gen_search_data::<T>(rng);
    let (mut o, kind) = gen_options::<T, O, D>(rng, &ops, data.n_features);
    o.seed = rng.u64(..);
    if rng.u8(..8) == 0 {
        o.seed = rng.u64(..3);
    }
    o.populations = sized(rng, 1..5, 24, 5..20);
    o.population_size = sized(rng, 2..18, 24, 18..80);
    o.niterations = sized(rng, 1..5, 24, 5..14);
    o.ncycles_per_iteration = sized(rng, 1..26, 40, 26..120);
    o.tournament_selection_n = sized(rng, 1..9, 16, 9..30);
    o.tournament_selection_p = [1.0, 0.982, 0.7, 0.3][rng.usize(..4)];
    o.crossover_probability = [0.0, 0.0259, 0.3, 1.0][rng.usize(..4)];
    o.batching = rng.u8(..3) == 0;
    o.batch_size = sized(rng, 1..41, 16, 41..300);
    o.topn = sized(rng, 0..6, 12, 6..60);
    o.annealing = rng.bool();
    o.use_frequency = rng.bool();
    o.use_frequency_in_tournament = rng.bool();
    o.skip_mutation_failures = rng.bool();
    o.should_optimize_constants = rng.bool();
    o.optimizer_probability = [0.0, 0.14, 1.0][rng.usize(..3)];
    o.optimizer_nrestarts = rng.usize(..3);
    o.optimizer_iterations = 1 + rng.usize(..8);
    o.migration = rng.bool();
    o.hof_migration = rng.bool();
    o.fraction_replaced = [0.00036, 0.1, 0.9][rng.usize(..3)];
    o.fraction_replaced_hof = [0.0614, 0.3, 1.0][rng.usize(..3)];
    o.mutation_weights.simplify = 0.3;
    o.mutation_weights.optimize = if rng.bool() { 0.2 } else { 0.0 };
    o.mutation_weights.randomize = 0.1;
    o.mutation_weights.mutate_constant = 0.3;
    if rng.u8(..4) == 0 {
        o.warmup_maxsize_by = 0.2 + 0.7 * rng.f32();
    }
    Setup { data, options: o, kind }
}

pub fn show_setup<T: Num, O: OperatorSet<T = T>, const D: usize>(s: &Setup<T, D>) -> String {
    let o = &s.options;
    let ops: Vec<&str> = o.operators.ops_by_arity.iter().flatten().map(|p| O::name(*p)).collect();
    format!(
        "seed {} {} pops x {} it {} cyc {} ops {ops:?} rows {} feats {} weights {} loss {:?} maxsize {} maxdepth {} batching {}/{} parsimony {} baseline {} warmup {} hofmig {} mig {} cx {} simp {} opt {} custom complexity {} argc {} nest {}",
        o.seed, o.populations, o.population_size, o.niterations, o.ncycles_per_iteration, s.data.n_rows, s.data.n_features,
        s.data.weights.is_some(), s.kind, o.maxsize, o.maxdepth, o.batching, o.batch_size, o.parsimony, o.use_baseline,
        o.warmup_maxsize_by, o.hof_migration, o.migration, o.crossover_probability, o.should_simplify,
        o.should_optimize_constants, !o.uses_default_complexity(), o.op_constraints.limits.len(), o.nested_constraints.limits.len(),
    )
}

fn show_member<T: Num, O: OperatorSet<T = T>, const D: usize>(m: &PopMember<T, O, D>) -> String {
    format!("{} (loss {:?} cost {:?} complexity {})", show_expr(&m.expr), m.loss, m.cost, m.complexity)
}

// ------------------------------------------------------------------------------------------ P07

fn check_equations<T: Num, O: OperatorSet<T = T>, const D: usize>(
    c: &mut Case,
    s: &Setup<T, D>,
    hall: &HallOfFame<T, O, D>,
    best: &PopMember<T, O, D>,
    when: &str,
) {
    for (i, m) in hall.best_by_complexity.iter().enumerate() {
        let Some(m) = m else { continue };
        c.eval();
        c.count("hall of fame entries observed", 1);
        match well_formed::<T, O, D>(&m.expr, s.data.n_features, &|o| {
            s.options.operators.ops_by_arity[o.arity as usize - 1].contains(&o)
        }) {
            Err(e) => c.fail("malformed equation in the hall of fame", format!("{e}: {when}; {}", show_setup::<T, O, D>(s))),
            Ok(a) => {
                if let Some(why) = spec::broken_constraint(&a, &s.options, s.options.maxsize) {
                    c.fail(
                        "an equation in the hall of fame violates a constraint",
                        format!("{why}: {} {when}; {}", show_member(m), show_setup::<T, O, D>(s)),
                    );
                }
                if spec::complexity(&a, &s.options) != i {
                    c.fail(
                        "hall of fame slot does not match the equation's complexity",
                        format!("slot {i}: {} {when}; {}", show_member(m), show_setup::<T, O, D>(s)),
                    );
                }
                c.distinct(hash_of(&show_expr(&m.expr)));
            }
        }
    }
    c.eval();
    if let Ok(a) = Ast::from_postfix(&best.expr.nodes) {
        if let Some(why) = spec::broken_constraint(&a, &s.options, s.options.maxsize) {
            if hall.members().next().is_some() {
                c.fail(
                    "the reported best equation violates a constraint",
                    format!("{why}: {} {when}; {}", show_member(best), show_setup::<T, O, D>(s)),
                );
            }
        }
    } else {
        c.fail("malformed best equation", show_setup::<T, O, D>(s));
    }
}

fn p07_search<T: Num, O: OperatorSet<T = T> + Send + Sync, const D: usize>(c: &mut Case) {
    let s = gen_search::<T, O, D>(&mut c.rng);
    let mut e = SearchEngine::<T, O, D>::new(s.data.clone(), s.options.clone());
    check_equations(c, &s, e.hall_of_fame(), e.best(), "initially");
    while e.step(1) == 1 {
        let k = e.cycles_completed();
        check_equations(c, &s, e.hall_of_fame(), e.best(), &format!("after cycle {k}"));
    }
    if c.index % 8 == 0 {
        let r = equation_search::<T, O, D>(&s.data, &s.options);
        check_equations(c, &s, &r.hall_of_fame, &r.best, "after a parallel search");
    }
    c.sample(|| show_setup::<T, O, D>(&s));
}

/// Limits at, just below and just above what the expression has, in expensive units too.
fn aim_limits<T: Num, const D: usize>(c: &mut Case, a: &Ast, o: &mut Options<T, D>, ops: &[OpId], nf: usize) {
    o.op_constraints = Default::default();
    o.nested_constraints = Default::default();
    o.operator_complexity_overrides.clear();
    o.variable_complexities = None;
    (o.complexity_of_constants, o.complexity_of_variables) = (1, 1);
    if c.rng.bool() {
        let mut price = |rng: &mut Rng| match rng.u8(..4) {
            0 => rng.u16(..),
            1 => rng.u16(..300),
            _ => rng.u16(..4),
        };
        o.complexity_of_constants = price(&mut c.rng);
        o.complexity_of_variables = price(&mut c.rng);
        if c.rng.bool() {
            o.variable_complexities = Some((0..nf).map(|_| price(&mut c.rng)).collect());
        }
        for &op in ops {
            if c.rng.bool() {
                o.operator_complexity_overrides.insert(op, price(&mut c.rng));
            }
        }
    }
    let mut places: Vec<&Ast> = Vec::new();
    a.visit(&mut |n| {
        if matches!(n, Ast::Op(..)) {
            places.push(n);
        }
    });
    if places.is_empty() {
        return;
    }
    for _ in 0..c.rng.usize(..3) {
        // the largest argument of an operator decides
        let op = ops[c.rng.usize(..ops.len())];
        let j = c.rng.usize(..op.arity as usize);
        let most = places
            .iter()
            .filter_map(|n| match n {
                Ast::Op(p, k) if *p == op => Some(spec::complexity(&k[j], o)),
                _ => None,
            })
            .max()
            .unwrap_or(1);
        let lim = (most + c.rng.usize(..3)).saturating_sub(1);
        if let Ok(lim) = u16::try_from(lim) {
            o.op_constraints.set_op_arg_constraint(op, j, lim);
        }
    }
    for _ in 0..c.rng.usize(..3) {
        let (root, inner) = (ops[c.rng.usize(..ops.len())], ops[c.rng.usize(..ops.len())]);
        let most = places
            .iter()
            .filter_map(|n| match n {
                Ast::Op(p, k) if *p == root => k.iter().map(|k| spec::on_path(k, inner)).max(),
                _ => None,
            })
            .max()
            .unwrap_or(0);
        let lim = (most + c.rng.usize(..3)).saturating_sub(1);
        if let Ok(lim) = u8::try_from(lim) {
            o.nested_constraints.add_nested_constraint(root, inner, lim);
        }
    }
}

fn p07_decision<T: Num, O: OperatorSet<T = T>, const D: usize>(c: &mut Case) {
    let ops = gen_ops::<O>(&mut c.rng, D);
    // few operators make nesting and repeated violations likely
    let k = (1 + c.rng.usize(..4)).min(ops.len());
    let ops: Vec<OpId> = ops[..k].to_vec();
    let nf = 1 + c.rng.usize(..4);
    let (mut o, _) = gen_options::<T, O, D>(&mut c.rng, &ops, nf);
    o.maxdepth = 1 + c.rng.usize(..8);
    for _ in 0..12 {
        let g = GenCfg {
            ops: ops.clone(),
            n_features: nf,
            n_consts: 2,
            p_const: 0.4,
        };
        let big = c.rng.u8(..12) == 0;
        let budget = 1 + if big { c.rng.usize(..700) } else { c.rng.usize(..26) };
        let e: PostfixExpr<T, O, D> = if big && c.rng.bool() {
            let a = gen_big_ast(&mut c.rng, &g);
            PostfixExpr::new(a.postfix(), gen_consts(&mut c.rng, 2), dynamic_expressions::Metadata::default())
        } else {
            gen_expr(&mut c.rng, &g, budget)
        };
        let a = Ast::from_postfix(&e.nodes).unwrap();
        if c.rng.u8(..3) == 0 {
            aim_limits(c, &a, &mut o, &ops, nf);
        }
        let size = spec::complexity(&a, &o);
        if big {
            c.count("large expressions", 1);
        }
        if c.rng.bool() {
            // let single constraints decide: loosen the others
            o.maxdepth = a.depth() + c.rng.usize(..2) - usize::from(a.depth() > 1 && c.rng.u8(..3) == 0);
        }
        let limit = match c.rng.u8(..4) {
            0 => size,
            1 => size.saturating_sub(1),
            2 => size + 1,
            _ => o.maxsize,
        };
        c.evals(2);
        let want = spec::broken_constraint(&a, &o, limit);
        #[cfg(feature = "hooks")]
        let got = check_constraints(&e, &o, limit);
        #[cfg(not(feature = "hooks"))]
        let got = want.is_none();
        let ctx = || {
            format!(
                "{} limit {limit} maxdepth {} overrides {:?} args {:?} nested {:?} variable sizes {:?} constants {}: expected {want:?}, accepted {got}",
                show_expr(&e), o.maxdepth, o.operator_complexity_overrides, o.op_constraints.limits, o.nested_constraints.limits,
                o.variable_complexities, o.complexity_of_constants
            )
        };
        c.count(if got { "accepted" } else { "refused" }, 1);
        if got != want.is_none() {
            c.fail("the constraint decision differs from its definition", ctx());
            return;
        }
        if compute_complexity(&e.nodes, &o) != size {
            c.fail(
                "complexity differs from its definition",
                format!("{} expected {size}: {}", compute_complexity(&e.nodes, &o), ctx()),
            );
        }
        // entry to the hall of fame follows the same decision
        let mut hall = HallOfFame::<T, O, D>::new(o.maxsize);
        let mut m = PopMember::from_expr(MemberId(1), None, 0, e.clone(), nf);
        m.complexity = size;
        m.loss = T::one();
        m.cost = T::one();
        hall.consider(&m, &o, limit);
        let expect = want.is_none() && size >= 1 && size <= o.maxsize;
        if hall.members().next().is_some() != expect {
            c.fail("entry to the hall of fame differs from the constraints", ctx());
        }
        c.distinct(hash_of(&(e.nodes.len(), format!("{:?}{limit}{:?}", e.nodes, o.op_constraints.limits))));
    }
}

pub fn p07(m: &Mon) {
    m.rule("distinct equations seen in halls of fame plus distinct (expression, limits) decisions; all compared with a recursive definition of size, depth, argument and nesting limits");
    m.require("hall of fame entries observed", 2000);
    m.require("accepted", 1000);
    m.require("refused", 1000);
    m.require("large expressions", 500);
    let n = m.scale(400, 12_000);
    m.cases("decide64", n * 20, p07_decision::<f64, BuiltinOpsF64, 3>);
    m.cases("decide-mixed", n * 20, p07_decision::<f64, Mix4, 4>);
    m.cases("search64", n, p07_search::<f64, BuiltinOpsF64, 3>);
    m.cases("search32", n / 2, p07_search::<f32, BuiltinOpsF32, 2>);
    m.cases("search-mixed", n / 2, p07_search::<f64, Mix4, 4>);
}

// ------------------------------------------------------------------------------------------ P08

fn check_scores<T: Num, O: OperatorSet<T = T>, const D: usize>(c: &mut Case, s: &Setup<T, D>, m: &PopMember<T, O, D>, when: &str) {
    c.eval();
    let Ok(a) = Ast::from_postfix(&m.expr.nodes) else {
        c.fail("malformed reported equation", show_setup::<T, O, D>(s));
        return;
    };
    let ctx = || format!("{} {when}; {}", show_member(m), show_setup::<T, O, D>(s));
    let size = spec::complexity(&a, &s.options);
    if m.complexity != size {
        c.fail("stated complexity is not the configured complexity", format!("expected {size}: {}", ctx()));
    }
    match spec::loss_agrees(&m.expr, &s.data, s.kind, m.loss) {
        None => c.count("scores without verdict (ill-conditioned)", 1),
        Some(Ok(())) => c.count("losses confirmed", 1),
        Some(Err(want)) => c.fail("stated loss is not the loss on the full dataset", format!("expected {want}: {}", ctx())),
    }
    if m.loss.is_finite() {
        let base = s.options.use_baseline.then(|| T::of(spec::baseline_of(&s.data, s.kind)).f());
        let want = spec::cost_of(m.loss.f(), size, &s.options, base);
        // a baseline at the floor decides by rounding
        let near_floor = base.is_some_and(|b| (b - 0.01).abs() < 1e-6);
        let tol = T::eps() * (64.0 + 8.0 * s.data.n_rows as f64) * want.abs() + if s.kind == LossKind::LogCosh { 1e-5 * want.abs() } else { 0.0 };
        if !near_floor && (m.cost.f() - want).abs() > tol && T::of(want * 1.001).is_finite() {
            c.fail("stated cost is not loss over baseline plus parsimony", format!("expected {want}: {}", ctx()));
        }
    }
    c.distinct(hash_of(&(show_expr(&m.expr), m.loss.key())));
}

fn check_all_scores<T: Num, O: OperatorSet<T = T>, const D: usize>(
    c: &mut Case,
    s: &Setup<T, D>,
    hall: &HallOfFame<T, O, D>,
    best: &PopMember<T, O, D>,
    when: &str,
) {
    for m in hall.members() {
        check_scores(c, s, m, when);
    }
    for m in hall.pareto_front() {
        check_scores(c, s, &m, when);
    }
    check_scores(c, s, best, when);
}

fn p08_case<T: Num, O: OperatorSet<T = T> + Send + Sync, const D: usize>(c: &mut Case) {
    let s = gen_search::<T, O, D>(&mut c.rng);
    if s.options.batching {
        c.count("batched searches", 1);
    }
    let mut e = SearchEngine::<T, O, D>::new(s.data.clone(), s.options.clone());
    check_all_scores(c, &s, e.hall_of_fame(), e.best(), "initially");
    while e.step(1) == 1 {
        let k = e.cycles_completed();
        if k % 3 == 0 || e.is_finished() {
            check_all_scores(c, &s, e.hall_of_fame(), e.best(), &format!("after cycle {k}"));
        }
    }
    if c.index % 8 == 0 {
        let r = equation_search::<T, O, D>(&s.data, &s.options);
        check_all_scores(c, &s, &r.hall_of_fame, &r.best, "after a parallel search");
    }
    c.sample(|| show_setup::<T, O, D>(&s));
}

/// A short search over many rows, weighted as often as not.
fn p08_large(c: &mut Case) {
    type T = f64;
    type O = BuiltinOpsF64;
    const D: usize = 3;
    let mut s = gen_search::<T, O, D>(&mut c.rng);
    let n = (10f64.powf(3.0 + 1.85 * c.rng.f64())) as usize;
    let x = gen_matrix::<T>(&mut c.rng, s.data.n_features, n, Data::Tame);
    let y = Array1::from_shape_fn(n, |r| x[[0, r]] * 1.5 + if r % 3 == 0 { 0.5 } else { -0.75 });
    // the weights grow with the row: every row counts as it should or the mean moves
    let w = c.rng.bool().then(|| Array1::from_shape_fn(n, |r| (if r % 3 == 0 { 1.0 } else { 0.2 }) * (0.5 + r as f64 / n as f64)));
    s.data = Dataset::with_weights_and_names(x, y, w, Vec::new());
    let o = &mut s.options;
    o.populations = 1 + c.rng.usize(..2);
    o.population_size = 3 + c.rng.usize(..4);
    o.niterations = 1;
    o.ncycles_per_iteration = 1 + c.rng.usize(..4);
    o.maxsize = 4 + c.rng.usize(..5);
    o.batch_size = [8, 100, n / 2, n, n + 7][c.rng.usize(..5)];
    o.optimizer_iterations = 2;
    o.optimizer_nrestarts = 0;
    let mut e = SearchEngine::<T, O, D>::new(s.data.clone(), s.options.clone());
    while e.step(1) == 1 {}
    for m in e.hall_of_fame().members() {
        check_scores(c, &s, m, "in a search over many rows");
        c.count("equations scored on many rows", 1);
    }
    check_scores(c, &s, e.best(), "in a search over many rows");
}

pub fn p08(m: &Mon) {
    m.rule("distinct (equation, stated loss) pairs reported by searches; loss, complexity and cost recomputed by the reference interpreter on the full dataset");
    m.assume("losses that move by more than 5% when every operation is disturbed by a few ulp get no verdict");
    m.require("losses confirmed", 5000);
    m.require("batched searches", 20);
    let n = m.scale(500, 16_000);
    m.cases("search64", n, p08_case::<f64, BuiltinOpsF64, 3>);
    m.cases("search32", n / 2, p08_case::<f32, BuiltinOpsF32, 2>);
    m.cases("search-mixed", n / 2, p08_case::<f64, Mix4, 4>);
    m.require("equations scored on many rows", 60);
    m.cases("large", m.scale(48, 1000), p08_large);
}

// ------------------------------------------------------------------------------------------ P09

fn check_front<T: Num, O: OperatorSet<T = T>, const D: usize>(c: &mut Case, hall: &HallOfFame<T, O, D>, ctx: &dyn Fn() -> String) {
    let mut want = Vec::new();
    let mut best = f64::INFINITY;
    for m in hall.members() {
        let l = m.loss.f();
        if l < best {
            best = l;
            want.push((m.id, m.complexity, m.loss.key()));
        }
    }
    let got: Vec<_> = hall.pareto_front().iter().map(|m| (m.id, m.complexity, m.loss.key())).collect();
    c.eval();
    if got != want {
        c.fail("the Pareto front is not exact", format!("expected {want:?}, got {got:?}: {}", ctx()));
    }
    for (a, b) in hall.pareto_front().iter().zip(hall.pareto_front().iter().skip(1)) {
        if !(a.complexity < b.complexity && b.loss < a.loss) {
            c.fail("the Pareto front is not strictly ordered", ctx());
        }
    }
}

fn p09_sequence<T: Num, O: OperatorSet<T = T>, const D: usize>(c: &mut Case) {
    let all = gen_ops::<O>(&mut c.rng, D);
    let nf = 2;
    let (o, _) = gen_options::<T, O, D>(&mut c.rng, &all, nf);
    let mut hall = HallOfFame::<T, O, D>::new(o.maxsize);
    // shadow: complexity -> (cost, ids attaining it in order of arrival)
    let mut shadow: Vec<Option<(f64, u64, u64)>> = vec![None; o.maxsize + 1];
    let g = GenCfg {
        ops: all,
        n_features: nf,
        n_consts: 2,
        p_const: 0.4,
    };
    let n = 5 + c.rng.usize(..60);
    for i in 0..n {
        let budget = 1 + c.rng.usize(..o.maxsize + 3);
        let e: PostfixExpr<T, O, D> = gen_expr_canonical(&mut c.rng, &g, budget);
        let a = Ast::from_postfix(&e.nodes).unwrap();
        let mut m = PopMember::from_expr(MemberId(i as u64), None, i as u64, e, nf);
        m.complexity = spec::complexity(&a, &o);
        let grid = |r: &mut Rng| match r.u8(..12) {
            0 => f64::INFINITY,
            1 => 0.0,
            _ => (r.u32(..40) as f64) / 8.0,
        };
        m.loss = T::of(grid(&mut c.rng));
        m.cost = T::of(if c.rng.bool() { m.loss.f() } else { grid(&mut c.rng) });
        let limit = if c.rng.u8(..4) == 0 { 3 + c.rng.usize(..o.maxsize) } else { o.maxsize };
        if c.rng.bool() {
            hall.consider(&m, &o, limit);
        } else {
            hall.update_from_members(std::slice::from_ref(&m), &o, limit);
        }
        c.eval();
        c.count("candidates offered", 1);
        let admissible = spec::broken_constraint(&a, &o, limit).is_none() && m.complexity >= 1 && m.complexity <= o.maxsize;
        if admissible {
            let slot = &mut shadow[m.complexity];
            let better = slot.is_none_or(|(cost, _, _)| m.cost.f() < cost);
            if better {
                *slot = Some((m.cost.f(), m.id.0, m.loss.key()));
            }
        }
        for (k, s) in shadow.iter().enumerate() {
            let got = hall.best_by_complexity[k].as_ref().map(|m| m.cost.f());
            if got != s.map(|s| s.0) {
                c.fail(
                    "the hall of fame does not hold a cheapest admissible candidate",
                    format!("size {k}: cost {got:?}, expected {:?} after candidate {i} {}", s.map(|s| s.0), show_member(&m)),
                );
                return;
            }
            if let Some(h) = &hall.best_by_complexity[k] {
                if h.complexity != k {
                    c.fail("hall of fame entry in the wrong slot", format!("{k}: {}", show_member(h)));
                }
            }
        }
        check_front(c, &hall, &|| format!("candidate {i}"));
    }
    c.distinct(hash_of(&format!("{:?}", shadow)));
}

fn p09_search<T: Num, O: OperatorSet<T = T> + Send + Sync, const D: usize>(c: &mut Case) {
    let s = gen_search::<T, O, D>(&mut c.rng);
    let ctx = || show_setup::<T, O, D>(&s);
    let mut e = SearchEngine::<T, O, D>::new(s.data.clone(), s.options.clone());
    let snap = |e: &SearchEngine<T, O, D>| -> Vec<Option<f64>> {
        e.hall_of_fame().best_by_complexity.iter().map(|m| m.as_ref().map(|m| m.cost.f())).collect()
    };
    let valid = |m: &PopMember<T, O, D>| {
        Ast::from_postfix(&m.expr.nodes).is_ok_and(|a| spec::broken_constraint(&a, &s.options, s.options.maxsize).is_none())
    };
    let mut prev = snap(&e);
    let mut best = valid(e.best()).then(|| e.best().loss.f());
    let mut cycle = 0;
    loop {
        c.eval();
        let min = e.hall_of_fame().members().map(|m| m.loss.f()).fold(f64::INFINITY, f64::min);
        let b = e.best();
        if e.hall_of_fame().members().next().is_some() && !(b.loss.f() <= min) && valid(b) {
            c.fail(
                "the reported best is worse than a hall of fame entry",
                format!("best {}, lowest {min} after cycle {cycle}; {}", show_member(b), ctx()),
            );
        }
        check_front(c, e.hall_of_fame(), &ctx);
        if s.options.warmup_maxsize_by == 0.0 {
            // everything alive has been offered
            for i in 0..n_live(&e) {
                for m in live(&e, i) {
                    c.count("live members compared with the hall of fame", 1);
                    if !valid(m) || m.complexity == 0 || m.complexity > s.options.maxsize {
                        continue;
                    }
                    let held = e.hall_of_fame().best_by_complexity[m.complexity].as_ref().map(|h| h.cost.f());
                    if !held.is_some_and(|h| h <= m.cost.f() || m.cost.f().is_nan()) {
                        c.fail(
                            "the hall of fame missed a cheaper equation",
                            format!("holds {held:?}, population {i} has {} after cycle {cycle}; {}", show_member(m), ctx()),
                        );
                    }
                    if m.loss.f() < e.best().loss.f() {
                        c.fail(
                            "the reported best missed a better equation",
                            format!("{} against {} after cycle {cycle}; {}", show_member(e.best()), show_member(m), ctx()),
                        );
                    }
                }
            }
        }
        if c.failed() || e.step(1) == 0 {
            break;
        }
        cycle += 1;
        c.count("cycles observed", 1);
        let now = snap(&e);
        for k in 0..prev.len() {
            match (prev[k], now[k]) {
                (Some(_), None) => c.fail("the hall of fame lost a complexity level", format!("{k} after cycle {cycle}; {}", ctx())),
                (Some(p), Some(n)) if !(n <= p) => c.fail(
                    "the hall of fame replaced an equation by a costlier one",
                    format!("size {k}: {p} -> {n} after cycle {cycle}; {}", ctx()),
                ),
                _ => {}
            }
        }
        if prev != now {
            c.count("cycles that improved the hall of fame", 1);
            c.distinct(hash_of(&format!("{now:?}")));
        }
        prev = now;
        if valid(e.best()) {
            let n = e.best().loss.f();
            if best.is_some_and(|b| !(n <= b)) {
                c.fail("the reported best got worse", format!("{best:?} -> {n} after cycle {cycle}; {}", ctx()));
            }
            best = Some(n);
        } else if best.is_some() {
            c.fail("the reported best became invalid", format!("after cycle {cycle}; {}", ctx()));
        }
    }
    if c.index % 6 == 0 && !c.failed() {
        let r = equation_search::<T, O, D>(&s.data, &s.options);
        check_front(c, &r.hall_of_fame, &ctx);
        let min = r.hall_of_fame.members().map(|m| m.loss.f()).fold(f64::INFINITY, f64::min);
        if !(r.best.loss.f() <= min) {
            c.fail("the reported best is worse than a hall of fame entry", format!("parallel: {}", ctx()));
        }
    }
    c.sample(ctx);
}

/// A hall of fame with many sizes whose losses differ by little or nothing.
fn p09_levels(c: &mut Case) {
    type T = f64;
    type O = BuiltinOpsF64;
    const D: usize = 2;
    let maxsize = 20 + c.rng.usize(..280);
    let mut hall = HallOfFame::<T, O, D>::new(maxsize);
    let step = 10f64.powf(-1.0 - 14.0 * c.rng.f64());
    let mut loss = (10f64).powf(c.rng.f64() * 12.0 - 6.0);
    for k in 1..=maxsize {
        if c.rng.u8(..8) == 0 {
            continue;
        }
        loss *= match c.rng.u8(..6) {
            0 => 1.0,
            1 => 1.0 + step,
            _ => 1.0 - step * c.rng.f64(),
        };
        let e = PostfixExpr::<T, O, D>::new(vec![PNode::Var { feature: 0 }], vec![], Default::default());
        let mut m = PopMember::from_expr(MemberId(k as u64), None, k as u64, e, 1);
        m.complexity = k;
        m.loss = loss;
        m.cost = loss;
        hall.best_by_complexity[k] = Some(m);
    }
    c.eval();
    c.count("fronts of many levels", 1);
    c.count("levels on long fronts", hall.pareto_front().len() as u64);
    check_front(c, &hall, &|| format!("{maxsize} sizes, step {step:e}"));
    c.distinct(hash_of(&(maxsize, loss.to_bits())));
}

pub fn p09(m: &Mon) {
    m.cases("levels", m.scale(2000, 40_000), p09_levels);
    m.require("levels on long fronts", 10_000);
    m.rule("distinct hall-of-fame states; candidate sequences are compared with a shadow minimum per complexity, searches are observed after every cycle including all live members");
    m.require("candidates offered", 10_000);
    m.require("cycles that improved the hall of fame", 500);
    #[cfg(feature = "hooks")]
    m.require("live members compared with the hall of fame", 10_000);
    let n = m.scale(500, 16_000);
    m.cases("sequence64", n * 6, p09_sequence::<f64, BuiltinOpsF64, 3>);
    m.cases("sequence-mixed", n * 3, p09_sequence::<f64, Mix4, 4>);
    m.cases("search64", n, p09_search::<f64, BuiltinOpsF64, 3>);
    m.cases("search32", n / 2, p09_search::<f32, BuiltinOpsF32, 2>);
    m.cases("search-mixed", n / 2, p09_search::<f64, Mix4, 4>);
}

// ------------------------------------------------------------------------------------------ P10

type Print = Vec<(u64, u64, Option<u64>, u64, Vec<PNode>, Vec<u64>, u64, u64, usize)>;

fn print_member<T: Num, O: OperatorSet<T = T>, const D: usize>(slot: u64, m: &PopMember<T, O, D>, out: &mut Print) {
    out.push((
        slot,
        m.id.0,
        m.parent.map(|p| p.0),
        m.birth,
        m.expr.nodes.clone(),
        m.expr.consts.iter().map(|v| v.key()).collect(),
        m.loss.key(),
        m.cost.key(),
        m.complexity,
    ));
}

pub fn print_result<T: Num, O: OperatorSet<T = T>, const D: usize>(hall: &HallOfFame<T, O, D>, best: &PopMember<T, O, D>) -> Print {
    let mut v = Vec::new();
    for (i, m) in hall.best_by_complexity.iter().enumerate() {
        if let Some(m) = m {
            print_member(i as u64, m, &mut v);
        }
    }
    print_member(u64::MAX, best, &mut v);
    v
}

/// The members of a population between cycles, where the hooks give access to them.
#[cfg(feature = "hooks")]
fn live<T: Num, O: OperatorSet<T = T>, const D: usize>(e: &SearchEngine<T, O, D>, i: usize) -> &[PopMember<T, O, D>] {
    e.verif_population(i).map_or(&[], |p| &p.members)
}
#[cfg(feature = "hooks")]
fn n_live<T: Num, O: OperatorSet<T = T>, const D: usize>(e: &SearchEngine<T, O, D>) -> usize {
    e.verif_n_populations()
}
#[cfg(not(feature = "hooks"))]
fn live<T: Num, O: OperatorSet<T = T>, const D: usize>(_: &SearchEngine<T, O, D>, _: usize) -> &[PopMember<T, O, D>] {
    &[]
}
#[cfg(not(feature = "hooks"))]
fn n_live<T: Num, O: OperatorSet<T = T>, const D: usize>(_: &SearchEngine<T, O, D>) -> usize {
    0
}

/// Everything observable about a stepwise search, populations included.
pub fn print_engine<T: Num, O: OperatorSet<T = T>, const D: usize>(e: &SearchEngine<T, O, D>) -> (Print, u64, usize) {
    let mut v = print_result(e.hall_of_fame(), e.best());
    for i in 0..n_live(&e) {
        for m in live(&e, i) {
            print_member(1000 + i as u64, m, &mut v);
        }
    }
    (v, e.total_evals(), e.cycles_completed())
}

fn first_difference(a: &Print, b: &Print) -> String {
    for (p, q) in a.iter().zip(b) {
        if p != q {
            return format!("{p:?} against {q:?}");
        }
    }
    format!("{} against {} entries", a.len(), b.len())
}

fn p10_case<T: Num, O: OperatorSet<T = T> + Send + Sync, const D: usize>(c: &mut Case) {
    let s = gen_search::<T, O, D>(&mut c.rng);
    let ctx = || show_setup::<T, O, D>(&s);
    let total = s.options.niterations * s.options.populations;
    // reference run, one cycle at a time, recording every prefix
    let mut e = SearchEngine::<T, O, D>::new(s.data.clone(), s.options.clone());
    let mut trace = vec![print_engine(&e)];
    while e.step(1) == 1 {
        trace.push(print_engine(&e));
    }
    c.evals(trace.len() as u64);
    if trace.len() != total + 1 {
        c.fail("a search performs another number of cycles than configured", format!("{} of {total}: {}", trace.len() - 1, ctx()));
        return;
    }
    c.distinct(hash_of(&trace));
    // the same run divided differently
    for round in 0..2 {
        let mut e = SearchEngine::<T, O, D>::new(s.data.clone(), s.options.clone());
        loop {
            let k = e.cycles_completed();
            if print_engine(&e) != trace[k] {
                c.fail(
                    "the same search repeated differs",
                    format!("after cycle {k}: {}; {}", first_difference(&trace[k].0, &print_engine(&e).0), ctx()),
                );
                return;
            }
            c.eval();
            c.count("prefixes compared", 1);
            if e.is_finished() {
                break;
            }
            let n = 1 + c.rng.usize(..if round == 0 { 3 } else { total + 2 });
            let done = e.step(n);
            if done != n.min(total - k) {
                c.fail("step reports a wrong number of cycles", format!("{done} for {n} at {k} of {total}: {}", ctx()));
                return;
            }
        }
        if e.step(3) != 0 {
            c.fail("a finished search goes on", ctx());
        }
    }
    let r = SearchEngine::<T, O, D>::new(s.data.clone(), s.options.clone()).run_to_completion();
    let end = print_result(&r.hall_of_fame, &r.best);
    let reference: Print = trace[total].0.iter().filter(|p| p.0 < 1000 || p.0 == u64::MAX).cloned().collect();
    c.eval();
    if end != reference {
        c.fail("run_to_completion differs from stepping", format!("{}; {}", first_difference(&reference, &end), ctx()));
        return;
    }
    // one worker: same result as stepping
    if c.index % 3 == 0 {
        let pool = rayon::ThreadPoolBuilder::new().num_threads(1).build().expect("pool");
        let r = pool.install(|| equation_search::<T, O, D>(&s.data, &s.options));
        let got = print_result(&r.hall_of_fame, &r.best);
        c.eval();
        c.count("one-worker searches compared", 1);
        if got != reference {
            c.fail("a one-worker parallel search differs from stepping", format!("{}; {}", first_difference(&reference, &got), ctx()));
        }
    }
    if s.options.populations == 1 {
        let r = equation_search::<T, O, D>(&s.data, &s.options);
        let got = print_result(&r.hall_of_fame, &r.best);
        c.eval();
        c.count("one-population searches compared", 1);
        if got != reference {
            c.fail("a one-population parallel search differs from stepping", format!("{}; {}", first_difference(&reference, &got), ctx()));
        }
    }
    // with only operators that never fit, initial members are all the same constant
    let random = |m: &[(Vec<PNode>, Vec<u64>)]| {
        let mut k: Vec<u64> = m.iter().flat_map(|m| &m.1).copied().collect();
        k.sort();
        k.dedup();
        k.len() > 1
    };
    // other seeds
    for delta in [1u64 << (4 + c.rng.u32(..60)), 1 + c.rng.u64(..) % 1000] {
        let mut o = s.options.clone();
        o.seed = o.seed.wrapping_add(delta);
        let e = SearchEngine::<T, O, D>::new(s.data.clone(), o);
        let other = print_engine(&e);
        let code = |p: &Print| p.iter().filter(|m| m.0 == 1000).map(|m| (m.4.clone(), m.5.clone())).collect::<Vec<_>>();
        let (a, b) = (code(&trace[0].0), code(&other.0));
        c.eval();
        // random constants make equal initial populations practically impossible
        if a == b && random(&a) {
            c.fail("another seed gives the same search", format!("seed + {delta}: {}", ctx()));
        }
    }
    // every population of a search draws its own random numbers
    let by_pop = |i: u64| {
        trace[0].0.iter().filter(|m| m.0 == 1000 + i).map(|m| (m.4.clone(), m.5.clone())).collect::<Vec<_>>()
    };
    for i in 1..s.options.populations as u64 {
        let a = by_pop(0);
        if random(&a) && a == by_pop(i) {
            c.fail("two populations start equal", format!("0 and {i}: {}", ctx()));
        }
    }
    c.sample(ctx);
}

pub fn p10(m: &Mon) {
    m.rule("distinct search traces (hall of fame, best, all populations, evaluation count after every cycle); each is repeated with other divisions into steps, with concurrent searches in the process, and on one worker, and compared bit for bit");
    m.require("prefixes compared", 1000);
    m.require("one-worker searches compared", 50);
    m.require("one-population searches compared", 20);
    let n = m.scale(500, 16_000);
    m.cases("search64", n, p10_case::<f64, BuiltinOpsF64, 3>);
    m.cases("search32", n / 2, p10_case::<f32, BuiltinOpsF32, 2>);
    m.cases("search-mixed", n / 2, p10_case::<f64, Mix4, 4>);
}

// ------------------------------------------------------------------------------------------ P24

/// Limit by the real-number schedule: (lowest, highest) admissible under rounding.
fn schedule(maxsize: usize, by: f64, elapsed: usize, total: usize) -> (usize, usize) {
    if by <= 0.0 {
        return (maxsize, maxsize);
    }
    let f = elapsed as f64 / total as f64;
    let at = |f: f64| {
        if f > by {
            maxsize
        } else {
            (3 + ((maxsize - 3) as f64 * f / by).floor() as usize).min(maxsize)
        }
    };
    (at((f * (1.0 - 1e-6)).max(0.0)), at(f * (1.0 + 1e-6)))
}

#[cfg(feature = "hooks")]
fn p24_schedule(c: &mut Case) {
    let mut o = Options::<f64, 2> {
        maxsize: if c.rng.u8(..5) == 0 { 84 + c.rng.usize(..3000) } else { 3 + c.rng.usize(..80) },
        progress: false,
        ..Default::default()
    };
    o.warmup_maxsize_by = match c.rng.u8(..6) {
        0 => 0.0,
        1 => 1.0,
        2 => 0.5,
        _ => 0.01 + 0.99 * c.rng.f32(),
    };
    let total = 1 + c.rng.usize(..400);
    let mut prev = 0;
    for elapsed in 0..=total {
        let got = get_cur_maxsize(&o, total, total - elapsed);
        c.eval();
        let (lo, hi) = schedule(o.maxsize, o.warmup_maxsize_by as f64, elapsed, total);
        if got < lo || got > hi {
            c.fail(
                "the size limit leaves its schedule",
                format!("{got}, expected {lo}..{hi} at {elapsed}/{total}, by {}, maxsize {}", o.warmup_maxsize_by, o.maxsize),
            );
        }
        if got < prev || got > o.maxsize {
            c.fail(
                "the size limit shrinks or exceeds the maximum",
                format!("{prev} -> {got} at {elapsed}/{total}, by {}, maxsize {}", o.warmup_maxsize_by, o.maxsize),
            );
        }
        prev = got;
    }
    c.distinct(hash_of(&(total, o.maxsize, o.warmup_maxsize_by.to_bits())));
    c.sample(|| format!("maxsize {} warm-up {} cycles {total}", o.maxsize, o.warmup_maxsize_by));
}

fn p24_search<T: Num, O: OperatorSet<T = T> + Send + Sync, const D: usize>(c: &mut Case) {
    let mut s = gen_search::<T, O, D>(&mut c.rng);
    s.options.warmup_maxsize_by = if c.rng.u8(..5) == 0 { 0.0 } else { 0.1 + 0.9 * c.rng.f32() };
    s.options.niterations = 2 + c.rng.usize(..6);
    s.options.maxsize = 6 + c.rng.usize(..20);
    s.options.mutation_weights.add_node = 6.0;
    let ctx = || show_setup::<T, O, D>(&s);
    let total = s.options.niterations * s.options.populations;
    let mut e = SearchEngine::<T, O, D>::new(s.data.clone(), s.options.clone());
    let ids = |e: &SearchEngine<T, O, D>| -> Vec<Option<(u64, u64)>> {
        e.hall_of_fame().best_by_complexity.iter().map(|m| m.as_ref().map(|m| (m.id.0, m.cost.key()))).collect()
    };
    let mut prev = ids(&e);
    let mut best = (e.best().id, e.best().loss.key());
    for k in 0..total {
        if e.step(1) != 1 {
            break;
        }
        c.eval();
        let (_, hi) = schedule(s.options.maxsize, s.options.warmup_maxsize_by as f64, k, total);
        let now = ids(&e);
        for size in 0..now.len() {
            if now[size] != prev[size] {
                c.count("entries admitted", 1);
                if hi < s.options.maxsize {
                    c.count("entries admitted during warm-up", 1);
                }
                c.distinct(hash_of(&(now[size], k)));
                if size > hi {
                    c.fail(
                        "an equation above the size limit in force entered the hall of fame",
                        format!("size {size} > {hi} in cycle {k} of {total}; {}", ctx()),
                    );
                }
            }
        }
        prev = now;
        let b = e.best();
        if (b.id, b.loss.key()) != best {
            best = (b.id, b.loss.key());
            let a = Ast::from_postfix(&b.expr.nodes).unwrap();
            if spec::complexity(&a, &s.options) > hi {
                c.fail("a new best is above the size limit in force", format!("{} in cycle {k} of {total}; {}", show_member(b), ctx()));
            }
        }
    }
    c.sample(ctx);
}

/// The limit is used: equations of every size up to the maximum get in once it allows them.
fn p24_reach(c: &mut Case) {
    const D: usize = 2;
    type O = BuiltinOpsF64;
    let data: Dataset<f64> = crate::sgen::gen_dataset(&mut c.rng, 2, 12);
    let ops = [op_named::<O>("add", 2), op_named::<O>("mul", 2), op_named::<O>("cos", 1)];
    let maxsize = 9 + c.rng.usize(..5);
    let by = [0.0, 0.3, 0.6][c.rng.usize(..3)];
    let o = Options::<f64, D> {
        operators: operators_from(&ops),
        seed: c.rng.u64(..),
        maxsize,
        warmup_maxsize_by: by,
        populations: 3,
        population_size: 30,
        ncycles_per_iteration: 60,
        niterations: 8,
        progress: false,
        ..Default::default()
    };
    let total = 24;
    let mut e = SearchEngine::<f64, O, D>::new(data, o);
    e.step(total);
    c.eval();
    let top = e.hall_of_fame().members().map(|m| m.complexity).max().unwrap_or(0);
    c.count("searches that reached the maximum size", (top == maxsize) as u64);
    c.distinct(hash_of(&(maxsize, by.to_bits(), top)));
    if top + 1 < maxsize {
        c.fail(
            "equations of the allowed size never enter the hall of fame",
            format!("largest size {top} of {maxsize} with warm-up {by}"),
        );
    }
}

#[cfg(feature = "hooks")]
pub fn p24(m: &Mon) {
    m.rule("distinct schedules (maximum, fraction, cycle count) sampled at every cycle, plus distinct hall-of-fame admissions during searches compared with the limit in force");
    m.assume("the limit may differ from the real-number schedule where 1e-6 relative rounding of the elapsed fraction decides");
    m.assume("maximum sizes below three are outside the schedule's domain");
    m.require("entries admitted during warm-up", 200);
    m.cases("schedule", m.scale(4000, 100_000), p24_schedule);
    let n = m.scale(500, 16_000);
    m.cases("search64", n, p24_search::<f64, BuiltinOpsF64, 3>);
    m.cases("search-mixed", n / 2, p24_search::<f64, Mix4, 4>);
    m.cases("reach", m.scale(16, 200), p24_reach);
}

// ------------------------------------------------------------------------------------------ P25

fn law(k: u64, a: f64, b: f64) -> f64 {
    match k {
        0 => a * b,
        1 => a + b * b,
        2 => 2.5 * a,
        3 => a.cos() + b,
        4 => a - b,
        5 => a * a * a,
        6 => 1.7 * a - 0.4,
        7 => a / b,
        8 => 3.25,
        9 => (a * b).cos(),
        10 => b,
        _ => 2.0 * a + b * 0.5,
    }
}

fn p25_recover<T: Num, O: OperatorSet<T = T> + Send + Sync>(c: &mut Case, parallel: bool) {
    const D: usize = 2;
    let k = c.index % 12;
    let n = 20 + c.rng.usize(..30);
    let x: Array2<T> = gen_matrix(&mut c.rng, 2, n, Data::Tame);
    let y = Array1::from_vec((0..n).map(|r| T::of(law(k, x[[0, r]].f(), x[[1, r]].f()))).collect());
    let data = Dataset::new(x, y);
    let mut ops = vec![op_named::<O>("add", 2), op_named::<O>("sub", 2), op_named::<O>("mul", 2)];
    if k == 7 {
        ops.push(op_named::<O>("div", 2));
    }
    if k == 3 || k == 9 || c.rng.bool() {
        ops.push(op_named::<O>("cos", 1));
    }
    let kind = [LossKind::Mse, LossKind::Huber { delta: 1.0 }, LossKind::LogCosh][c.rng.usize(..3)];
    let mut tries = Vec::new();
    for _ in 0..3 {
        let o = Options::<T, D> {
            operators: operators_from(&ops),
            seed: c.rng.u64(..),
            populations: 6,
            population_size: 30,
            niterations: 25,
            ncycles_per_iteration: 120,
            maxsize: 14,
            loss: make_loss::<T>(kind),
            batching: c.rng.u8(..4) == 0,
            batch_size: 16,
            progress: false,
            ..Default::default()
        };
        let goal = if T::eps() > 1e-10 { 1e-6 } else { 1e-9 };
        let best = if parallel {
            let r = equation_search::<T, O, D>(&data, &o);
            r.best.loss.f()
        } else {
            let mut e = SearchEngine::<T, O, D>::new(data.clone(), o);
            loop {
                let l = e.best().loss.f();
                if l < goal || e.step(6) == 0 {
                    break l;
                }
            }
        };
        c.eval();
        tries.push(best);
        if best < goal {
            c.count("laws recovered", 1);
            c.distinct(hash_of(&(k, c.index)));
            break;
        }
        c.count("runs without recovery", 1);
    }
    c.sample(|| format!("law {k}, {kind:?}: best losses {tries:?}"));
    if tries.len() == 3 && tries.iter().all(|l| *l >= 1e-5) {
        c.fail("a simple law is not recovered from clean data", format!("law {k}, {kind:?}: best losses {tries:?} in three runs"));
    }
}

/// More iterations continue the same search.
fn p25_prefix<T: Num, O: OperatorSet<T = T> + Send + Sync, const D: usize>(c: &mut Case) {
    let mut s = gen_search::<T, O, D>(&mut c.rng);
    s.options.warmup_maxsize_by = 0.0;
    let short = s.options.niterations;
    let mut long = s.options.clone();
    long.niterations = short + 1 + c.rng.usize(..4);
    let mut a = SearchEngine::<T, O, D>::new(s.data.clone(), s.options.clone());
    a.step(usize::MAX);
    let mut b = SearchEngine::<T, O, D>::new(s.data.clone(), long);
    b.step(short * s.options.populations);
    c.eval();
    c.count("continued searches", 1);
    if print_engine(&a).0 != print_engine(&b).0 {
        c.fail(
            "more iterations do not continue the shorter search",
            format!("{}; {}", first_difference(&print_engine(&a).0, &print_engine(&b).0), show_setup::<T, O, D>(&s)),
        );
    }
    b.step(usize::MAX);
    c.distinct(hash_of(&b.best().loss.key()));
    let valid = Ast::from_postfix(&a.best().expr.nodes).is_ok_and(|t| spec::broken_constraint(&t, &s.options, s.options.maxsize).is_none());
    if valid && b.best().loss > a.best().loss {
        c.fail("more iterations give a worse best loss", show_setup::<T, O, D>(&s));
    }
}

pub fn p25(m: &Mon) {
    m.rule("distinct (law, case) recoveries and distinct outcomes of continued searches; a law counts as missed only if three independent seeds all miss it");
    m.require("laws recovered", 20);
    m.require("continued searches", 50);
    let n = m.scale(330, 6600);
    m.cases("recover64", n, |c| p25_recover::<f64, BuiltinOpsF64>(c, false));
    m.cases("recover32", n / 2, |c| p25_recover::<f32, BuiltinOpsF32>(c, false));
    m.cases("recover-parallel", n / 4, |c| p25_recover::<f64, BuiltinOpsF64>(c, true));
    let n = m.scale(300, 8000);
    m.cases("prefix64", n, p25_prefix::<f64, BuiltinOpsF64, 3>);
    m.cases("prefix-mixed", n / 2, p25_prefix::<f64, Mix4, 4>);
}
