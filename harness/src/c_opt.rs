//! P13: constant optimisation observed call by call.
use crate::ast::*;
use crate::sgen::{gen_dataset, gen_options, gen_ops, operators_from, plan_fits};
use crate::c_search::Num;
use crate::common::*;
use crate::gen::*;
use crate::spec;
use dynamic_expressions::operator_enum::presets::{BuiltinOpsF32, BuiltinOpsF64};
use dynamic_expressions::{GradContext, Metadata, OperatorSet, PNode, PostfixExpr};
use ndarray::Array1;
use std::cell::Cell;
use symbolic_regression::{
    make_loss, optimize_constants, Dataset, Evaluator, LossKind, MemberId, OptimizeConstantsCtx, Options, PopMember, TaggedDataset,
};

struct Outcome {
    improved: bool,
    evals: f64,
}

/// One call, judged against everything that must hold for every call.
#[allow(clippy::too_many_arguments)]
fn observe<T: Num, O: OperatorSet<T = T>, const D: usize>(
    c: &mut Case,
    m: &mut PopMember<T, O, D>,
    tagged: TaggedDataset<T>,
    o: &Options<T, D>,
    kind: LossKind,
    ev: &mut Evaluator<T, D>,
    g: &mut GradContext<T, D>,
    rng: &mut Rng,
    scored_here: bool,
) -> Option<Outcome> {
    let before_consts = m.expr.consts.clone();
    let (nodes, id, parent, birth, loss, cost, size) =
        (m.expr.nodes.clone(), m.id, m.parent, m.birth, m.loss, m.cost, m.complexity);
    let shown = show_expr(&m.expr);
    let data: &Dataset<T> = tagged.data;
    let l0 = spec::loss_of(&m.expr, data, kind, &mut None);
    let next0 = 1_000_000u64 + rng.u64(..1000);
    let mut next_birth = next0;
    let (improved, evals) = optimize_constants(
        rng,
        m,
        OptimizeConstantsCtx {
            dataset: tagged,
            options: o,
            evaluator: ev,
            grad_ctx: g,
            next_birth: &mut next_birth,
        },
    );
    c.eval();
    let ctx = || {
        format!(
            "{shown} -> {} improved {improved} evals {evals} loss {loss:?} -> {:?} cost {cost:?} -> {:?} size {size} -> {} birth {birth} -> {} rows {} weights {} loss kind {kind:?} iterations {} restarts {} calls {} enabled {}",
            show_expr(&m.expr), m.loss, m.cost, m.complexity, m.birth, data.n_rows, data.weights.is_some(), o.optimizer_iterations,
            o.optimizer_nrestarts, o.optimizer_f_calls_limit, o.should_optimize_constants
        )
    };
    if m.expr.nodes != nodes || m.expr.consts.len() != before_consts.len() || m.id != id || m.parent != parent {
        c.fail("constant optimisation changes more than constants", ctx());
        return None;
    }
    if let Err(e) = plan_fits(m, &data.x) {
        c.fail("constant optimisation leaves a wrong plan", format!("{e}: {}", ctx()));
    }
    if m.complexity != size {
        c.fail("constant optimisation changes the complexity", ctx());
    }
    if !(evals >= 0.0 && evals.fract() == 0.0) {
        c.fail("the evaluation count is not a count", ctx());
    }
    let moved = m.expr.consts.iter().zip(&before_consts).any(|(a, b)| !a.same(*b));
    if (!o.should_optimize_constants || before_consts.is_empty()) && (improved || evals != 0.0) {
        c.fail("constants optimised although there are none or it is disabled", ctx());
    }
    if !improved {
        if moved || !m.loss.same(loss) || !m.cost.same(cost) || m.birth != birth || next_birth != next0 {
            c.fail("a member without improvement is not left as it was", format!("next birth {next0} -> {next_birth}: {}", ctx()));
        }
        c.count("calls without improvement", 1);
        return Some(Outcome { improved, evals });
    }
    c.count("improvements", 1);
    if !moved {
        c.fail("improvement reported without a change of constants", ctx());
    }
    if m.birth != next0 || next_birth != next0 + 1 {
        c.fail("an improved member does not get the next birth stamp", format!("next birth {next0} -> {next_birth}: {}", ctx()));
    }
    if scored_here && !(m.loss < loss) {
        c.fail("improvement reported without a lower loss", ctx());
    }
    // independent verdict on the decrease
    let l1 = spec::loss_of(&m.expr, data, kind, &mut None);
    let mut spread = 0.0f64;
    for s in 0..4 {
        let v = spec::loss_of(&m.expr, data, kind, &mut Some(Rng::with_seed(s + 3)));
        spread = spread.max((v - l1).abs());
    }
    // log(cosh r) near 0 keeps only absolute precision
    let floor = if kind == LossKind::LogCosh { 8.0 * T::eps() } else { T::eps() * T::eps() };
    if l1 > l0 + 64.0 * spread + T::eps() * 256.0 * l0.abs() + floor {
        c.fail("constant optimisation increases the loss", format!("{l0} -> {l1}: {}", ctx()));
    }
    match spec::loss_agrees(&m.expr, data, kind, m.loss) {
        None => c.count("scores without verdict", 1),
        Some(Ok(())) => c.count("losses confirmed", 1),
        Some(Err(want)) => c.fail("the loss of an optimised member is not that of its constants", format!("expected {want}: {}", ctx())),
    }
    let base = o.use_baseline.then_some(tagged.baseline_loss).flatten().map(|b| b.f());
    let want = spec::cost_of(m.loss.f(), size, o, base);
    let near_floor = base.is_some_and(|b| (b - 0.01).abs() < 1e-6);
    let overflows = want > T::max_value().f() * (1.0 - 1e-5);
    if overflows && !(m.cost.f() > T::max_value().f() * 0.999) {
        c.fail("the cost of an optimised member is not that of its loss", format!("expected an overflow, {want}: {}", ctx()));
    }
    if !near_floor && !overflows && (m.cost.f() - want).abs() > T::eps() * 64.0 * want.abs() + T::min_positive_value().f() {
        c.fail("the cost of an optimised member is not that of its loss", format!("expected {want}: {}", ctx()));
    }
    c.sample(ctx);
    Some(Outcome { improved, evals })
}

fn gen_budgets<T: num_traits::Float, const D: usize>(rng: &mut Rng, o: &mut Options<T, D>) {
    o.should_optimize_constants = rng.u8(..16) > 0;
    o.optimizer_iterations = match rng.u8(..6) {
        0 => 0,
        1 => 1,
        2 => 60,
        _ => 1 + rng.usize(..12),
    };
    o.optimizer_nrestarts = [0, 0, 1, 2, 5][rng.usize(..5)];
    o.optimizer_f_calls_limit = match rng.u8(..4) {
        0 => 0,
        1 => 1 + rng.usize(..30),
        _ => 10_000,
    };
}

fn any_case<T: Num, O: OperatorSet<T = T>, const D: usize>(c: &mut Case) {
    let ops = gen_ops::<O>(&mut c.rng, D);
    let nf = 1 + c.rng.usize(..3);
    let n_rows = match c.rng.u8(..4) {
        0 => 1,
        1 => 2,
        _ => sized(&mut c.rng, 1..21, 24, 60..600),
    };
    let mut data = gen_dataset::<T>(&mut c.rng, nf, n_rows);
    if c.rng.u8(..12) == 0 {
        // non-finite rows make the start infeasible: nothing may happen
        let r = c.rng.usize(..n_rows);
        let mut x = data.x.clone();
        x[[0, r]] = T::nan();
        data = Dataset::with_weights_and_names(x, data.y.clone(), data.weights.clone(), Vec::new());
    }
    let (mut o, kind) = gen_options::<T, O, D>(&mut c.rng, &ops, nf);
    gen_budgets(&mut c.rng, &mut o);
    let g = GenCfg {
        ops,
        n_features: nf,
        n_consts: 3,
        p_const: 0.2 + 0.7 * c.rng.f64(),
    };
    let mut rng = Rng::with_seed(c.rng.u64(..));
    let mut ev = Evaluator::<T, D>::new(n_rows);
    let mut gc = GradContext::<T, D>::new(n_rows);
    let base = c.rng.bool().then(|| T::of(spec::baseline_of(&data, kind)));
    let tagged = TaggedDataset::new(&data, base);
    for k in 0..4u64 {
        let budget = 2 + c.rng.usize(..14);
        let e: PostfixExpr<T, O, D> = if c.rng.u8(..4) == 0 {
            let mut e = gen_expr(&mut c.rng, &g, budget);
            dynamic_expressions::compress_constants(&mut e);
            e
        } else {
            gen_expr_canonical(&mut c.rng, &g, budget)
        };
        let n_const = e.consts.len();
        let mut m = PopMember::from_expr(MemberId(70 + k), Some(MemberId(3)), 5 + k, e, nf);
        // scored on this dataset, or (as with batches) somewhere else
        let here = c.rng.u8(..4) > 0;
        m.evaluate(&tagged, &o, &mut ev);
        let size = m.complexity;
        if !here {
            m.loss = T::of(c.rng.f64() * 3.0);
            m.cost = T::of(c.rng.f64() * 3.0);
        }
        for round in 0..3 {
            let scored = (here || round > 0) && m.loss.is_finite();
            let Some(out) = observe(c, &mut m, tagged, &o, kind, &mut ev, &mut gc, &mut rng, scored) else {
                return;
            };
            let starts = (1 + o.optimizer_nrestarts) as f64;
            if o.optimizer_f_calls_limit > 0 && out.evals > starts * (o.optimizer_f_calls_limit as f64 + 3.0) + 1.0 {
                c.fail(
                    "more evaluations than the call budget allows",
                    format!("{} evaluations, {} starts, limit {}", out.evals, starts, o.optimizer_f_calls_limit),
                );
            }
            c.distinct(hash_of(&(show_expr(&m.expr), out.improved, out.evals as u64)));
            if !here && !out.improved {
                break;
            }
        }
        let _ = (size, n_const);
        if c.failed() {
            return;
        }
    }
}

// ------------------------------------------------------------------------------------------ easy optima

/// Solves the small symmetric positive definite system by Gaussian elimination with pivoting.
fn solve(mut a: Vec<Vec<f64>>, mut b: Vec<f64>) -> Option<Vec<f64>> {
    let n = b.len();
    for i in 0..n {
        let p = (i..n).max_by(|x, y| a[*x][i].abs().total_cmp(&a[*y][i].abs()))?;
        a.swap(i, p);
        b.swap(i, p);
        if a[i][i].abs() < 1e-12 {
            return None;
        }
        for r in i + 1..n {
            let f = a[r][i] / a[i][i];
            for k in i..n {
                a[r][k] -= f * a[i][k];
            }
            b[r] -= f * b[i];
        }
    }
    for i in (0..n).rev() {
        for k in i + 1..n {
            b[i] -= a[i][k] * b[k];
        }
        b[i] /= a[i][i];
    }
    Some(b)
}

/// Rough condition number of a symmetric positive definite matrix by power iteration on A and its inverse.
fn condition(a: &[Vec<f64>]) -> f64 {
    let n = a.len();
    let norm = |v: &[f64]| v.iter().map(|x| x * x).sum::<f64>().sqrt();
    let mut v: Vec<f64> = (0..n).map(|i| 1.0 + 0.3 * i as f64).collect();
    let mut hi = 1.0;
    for _ in 0..60 {
        let w: Vec<f64> = (0..n).map(|i| (0..n).map(|k| a[i][k] * v[k]).sum()).collect();
        hi = norm(&w);
        v = w.iter().map(|x| x / hi).collect();
    }
    let mut v: Vec<f64> = (0..n).map(|i| 1.0 - 0.4 * i as f64).collect();
    let mut lo = 1.0;
    for _ in 0..60 {
        let Some(w) = solve(a.to_vec(), v.clone()) else { return f64::INFINITY };
        lo = norm(&w);
        v = w.iter().map(|x| x / lo).collect();
    }
    hi * lo
}

/// Linear least squares of one to five constants, at times up to forty: sum of basis functions times constants.
fn linear_case<T: Num, O: OperatorSet<T = T>, const D: usize>(c: &mut Case) {
    let k = match c.rng.u8(..20) {
        0..4 => 6 + c.rng.usize(..7),
        4 => 13 + c.rng.usize(..28),
        _ => 1 + c.rng.usize(..5),
    };
    let nf = k;
    let n_rows = (if k > 5 { 4 * k } else { k + 1 }) + sized(&mut c.rng, 0..30, 16, 60..600);
    let noise = [0.0, 0.0, 0.1, 1.0][c.rng.usize(..4)];
    let mut x = gen_matrix::<T>(&mut c.rng, nf, n_rows, Data::Tame);
    if k == 1 {
        // one constant: no scale of the data is ill-conditioned
        let scale = T::of(10.0f64.powf(2.0 * c.rng.f64() - 1.5));
        x.mapv_inplace(|v| v * scale);
    }
    let (add, mul) = (op_named::<O>("add", 2), op_named::<O>("mul", 2));
    // c0*x0 + c1*x1 + ... with the last basis function possibly 1
    let with_one = c.rng.bool();
    let basis = |r: usize, i: usize| if with_one && i + 1 == k { 1.0 } else { x[[i, r]].f() };
    let truth: Vec<f64> = (0..k).map(|_| (c.rng.f64() - 0.5) * 6.0).collect();
    let y: Vec<T> = (0..n_rows)
        .map(|r| T::of((0..k).map(|i| truth[i] * basis(r, i)).sum::<f64>() + noise * (c.rng.f64() - 0.5)))
        .collect();
    let w = (c.rng.u8(..3) == 0).then(|| Array1::from_vec((0..n_rows).map(|_| T::of(0.2 + c.rng.f64())).collect()));
    let mut nodes: Vec<PNode> = Vec::new();
    for i in 0..k {
        nodes.push(PNode::Const { idx: i as u16 });
        if !(with_one && i + 1 == k) {
            nodes.push(PNode::Var { feature: i as u16 });
            nodes.push(PNode::Op { arity: mul.arity, op: mul.id });
        }
        if i > 0 {
            nodes.push(PNode::Op { arity: add.arity, op: add.id });
        }
    }
    let start: Vec<T> = (0..k).map(|_| gen_const::<T>(&mut c.rng)).collect();
    let e = PostfixExpr::<T, O, D>::new(nodes, start, Metadata::default());
    let data = Dataset::with_weights_and_names(x.clone(), Array1::from_vec(y), w, Vec::new());
    // normal equations of the weighted mean
    let ws: Vec<f64> = match &data.weights {
        Some(w) => w.iter().map(|v| v.f()).collect(),
        None => vec![1.0; n_rows],
    };
    let wt: f64 = ws.iter().sum();
    let mut a = vec![vec![0.0; k]; k];
    let mut b = vec![0.0; k];
    for r in 0..n_rows {
        for i in 0..k {
            for j in 0..k {
                a[i][j] += ws[r] / wt * basis(r, i) * basis(r, j);
            }
            b[i] += ws[r] / wt * basis(r, i) * data.y[r].f();
        }
    }
    let cond = condition(&a);
    if !(cond < 30.0) {
        c.count("ill-conditioned problems skipped", 1);
        return;
    }
    let Some(sol) = solve(a, b) else { return };
    let loss_at = |p: &[f64]| {
        (0..n_rows)
            .map(|r| ws[r] / wt * ((0..k).map(|i| p[i] * basis(r, i)).sum::<f64>() - data.y[r].f()).powi(2))
            .sum::<f64>()
    };
    let best = loss_at(&sol);
    let mut o = Options::<T, D> {
        operators: operators_from(&[add, mul]),
        loss: make_loss::<T>(LossKind::Mse),
        progress: false,
        ..Default::default()
    };
    // Newton steps solve a quadratic in one constant at once
    o.optimizer_iterations = if k == 1 { 4 } else if k > 12 { 20 * k } else if k > 5 { 120 } else { 40 };
    o.optimizer_nrestarts = c.rng.usize(..2);
    o.optimizer_f_calls_limit = [0, 10_000, if k > 12 { 100 * k } else if k > 5 { 1000 } else { 400 }][c.rng.usize(..3)];
    let tagged = TaggedDataset::new(&data, None);
    let mut ev = Evaluator::<T, D>::new(n_rows);
    let mut gc = GradContext::<T, D>::new(n_rows);
    let mut m = PopMember::from_expr(MemberId(7), None, 1, e, nf);
    m.evaluate(&tagged, &o, &mut ev);
    let first = m.loss.f();
    let mut rng = Rng::with_seed(c.rng.u64(..));
    let start = show_expr(&m.expr);
    let Some(out) = observe(c, &mut m, tagged, &o, LossKind::Mse, &mut ev, &mut gc, &mut rng, true) else {
        return;
    };
    let got: Vec<f64> = m.expr.consts.iter().map(|v| v.f()).collect();
    let reached = loss_at(&got);
    let ymax = data.y.iter().map(|v| v.f().abs()).fold(1.0, f64::max);
    // no step is accepted that does not lower the loss as computed, a sum over all rows
    let floor = if T::eps() > 1e-10 { 1e-9 * ymax * ymax } else { 1e-13 * ymax * ymax } + (16.0 + n_rows as f64 / 8.0) * T::eps() * best;
    c.eval();
    c.count("least-squares problems", 1);
    if k > 5 {
        c.count("least-squares problems of more than five constants", 1);
        c.count("least-squares problems of more than twelve constants", u64::from(k > 12));
    }
    if reached - best > floor + 1e-6 * (first - best).max(0.0) * if T::eps() > 1e-10 { 1e-1 } else { 1e-5 } {
        c.fail(
            "a linear least-squares problem is not solved",
            format!(
                "{start} -> {}: loss {first} -> {reached}, optimum {best} at {sol:?}, condition {cond:.1}, {} evaluations, limit {}, restarts {}",
                show_expr(&m.expr), out.evals, o.optimizer_f_calls_limit, o.optimizer_nrestarts
            ),
        );
    }
    c.distinct(hash_of(&(start, out.evals as u64)));
}

// ------------------------------------------------------------------------------------------ real evaluation counts

thread_local! {
    static CALLS: Cell<u64> = const { Cell::new(0) };
}
fn tick(v: f64) -> f64 {
    CALLS.with(|c| c.set(c.get() + 1));
    v
}

dynamic_expressions::custom_opset! {
    pub struct Counting<f64> {
        1 {
            shape { eval: |a: &[f64; 1]| tick((a[0] * a[0] + 0.1).ln()), partial: |a: &[f64; 1], _i: usize| 2.0 * a[0] / (a[0] * a[0] + 0.1), }
        }
        2 {
            add { infix: "+", commutative: true, associative: true, eval: |a: &[f64; 2]| a[0] + a[1], partial: |_a: &[f64; 2], _i: usize| 1.0, }
            mul { infix: "*", commutative: true, associative: true, eval: |a: &[f64; 2]| a[0] * a[1], partial: |a: &[f64; 2], i: usize| [a[1], a[0]][i], }
        }
    }
}

fn budget_case(c: &mut Case) {
    const D: usize = 2;
    let (shape, add, mul) = (op_named::<Counting>("shape", 1), op_named::<Counting>("add", 2), op_named::<Counting>("mul", 2));
    let k = 1 + c.rng.usize(..3);
    // shape(c0*x0 + c1*x0 ...): one tick per row and evaluation
    let mut nodes = Vec::new();
    for i in 0..k {
        nodes.push(PNode::Const { idx: i as u16 });
        if i + 1 < k {
            nodes.push(PNode::Var { feature: i as u16 });
            nodes.push(PNode::Op { arity: 2, op: mul.id });
        }
        if i > 0 {
            nodes.push(PNode::Op { arity: 2, op: add.id });
        }
    }
    nodes.push(PNode::Var { feature: 0 });
    nodes.push(PNode::Op { arity: 2, op: mul.id });
    nodes.push(PNode::Op { arity: 1, op: shape.id });
    let e = PostfixExpr::<f64, Counting, D>::new(nodes, gen_consts::<f64>(&mut c.rng, k), Metadata::default());
    let n_rows = 1 + c.rng.usize(..6);
    let data = gen_dataset::<f64>(&mut c.rng, 3, n_rows);
    let mut o = Options::<f64, D> {
        operators: operators_from(&[shape, add, mul]),
        progress: false,
        ..Default::default()
    };
    gen_budgets(&mut c.rng, &mut o);
    o.should_optimize_constants = true;
    let tagged = TaggedDataset::new(&data, None);
    let mut ev = Evaluator::<f64, D>::new(n_rows);
    let mut gc = GradContext::<f64, D>::new(n_rows);
    let mut m = PopMember::from_expr(MemberId(7), None, 1, e, 3);
    CALLS.with(|v| v.set(0));
    m.evaluate(&tagged, &o, &mut ev);
    let per_call = CALLS.with(|v| v.replace(0));
    if per_call != n_rows as u64 {
        c.fail("one evaluation does not apply the operator once per row", format!("{per_call} calls for {n_rows} rows"));
        return;
    }
    let mut next_birth = 10;
    let mut rng = Rng::with_seed(c.rng.u64(..));
    let (improved, evals) = optimize_constants(
        &mut rng,
        &mut m,
        OptimizeConstantsCtx {
            dataset: tagged,
            options: &o,
            evaluator: &mut ev,
            grad_ctx: &mut gc,
            next_birth: &mut next_birth,
        },
    );
    let calls = CALLS.with(|v| v.replace(0)) as f64 / per_call as f64;
    c.eval();
    c.count("budgets observed", 1);
    let starts = (1 + o.optimizer_nrestarts) as f64;
    let ctx = || {
        format!(
            "{calls} real evaluations, {evals} reported, improved {improved}, {k} constants, {starts} starts, {} iterations, limit {}",
            o.optimizer_iterations, o.optimizer_f_calls_limit
        )
    };
    if calls > n_bound(o.optimizer_f_calls_limit, starts) {
        c.fail("more evaluations than the call budget allows", ctx());
    }
    // the first evaluation of the unchanged member is not reported
    if evals > calls - 1.0 {
        c.fail("more evaluations reported than made", ctx());
    }
    if o.optimizer_iterations == 0 {
        c.count("zero-iteration calls", 1);
        let want = if k == 1 { 0.0 } else { starts };
        if calls != 1.0 + want + improved as u8 as f64 || evals != want + improved as u8 as f64 {
            c.fail("the number of starts is not one plus the restarts", ctx());
        }
    }
    c.distinct(hash_of(&(calls as u64, evals as u64, k)));
}

fn n_bound(limit: usize, starts: f64) -> f64 {
    if limit == 0 {
        f64::INFINITY
    } else {
        2.0 + starts * (limit as f64 + 3.0)
    }
}

// ------------------------------------------------------------------------------------------ restarts

thread_local! {
    static SEEN: std::cell::RefCell<Vec<f64>> = const { std::cell::RefCell::new(Vec::new()) };
}
dynamic_expressions::custom_opset! {
    pub struct Recording<f64> {
        1 {
            rec { eval: |a: &[f64; 1]| { SEEN.with(|s| s.borrow_mut().push(a[0])); a[0] }, partial: |_a: &[f64; 1], _i: usize| 1.0, }
        }
        2 {
            add { infix: "+", commutative: true, associative: true, eval: |a: &[f64; 2]| a[0] + a[1], partial: |_a: &[f64; 2], _i: usize| 1.0, }
        }
    }
}

/// Which points the starts are: the member's own constants, then independently moved ones.
fn starts_case(c: &mut Case) {
    const D: usize = 2;
    let (rec, add) = (op_named::<Recording>("rec", 1), op_named::<Recording>("add", 2));
    let k = 2 + c.rng.usize(..2);
    // rec(c0 + x0) + rec(c1 + x0) + ... on one row with x0 = 0
    let mut nodes = Vec::new();
    for i in 0..k {
        nodes.push(PNode::Const { idx: i as u16 });
        nodes.push(PNode::Var { feature: 0 });
        nodes.push(PNode::Op { arity: 2, op: add.id });
        nodes.push(PNode::Op { arity: 1, op: rec.id });
        if i > 0 {
            nodes.push(PNode::Op { arity: 2, op: add.id });
        }
    }
    let x0: Vec<f64> = (0..k).map(|_| (1.0 + c.rng.f64()) * if c.rng.bool() { 1.0 } else { -1.0 }).collect();
    let e = PostfixExpr::<f64, Recording, D>::new(nodes, x0.clone(), Metadata::default());
    let data = Dataset::new(ndarray::Array2::zeros((1, 1)), Array1::from_vec(vec![(c.rng.f64() - 0.5) * 8.0]));
    let restarts = c.rng.usize(..6);
    let mut o = Options::<f64, D> {
        operators: operators_from(&[rec, add]),
        progress: false,
        ..Default::default()
    };
    o.optimizer_iterations = 0;
    o.optimizer_nrestarts = restarts;
    let tagged = TaggedDataset::new(&data, None);
    let mut ev = Evaluator::<f64, D>::new(1);
    let mut gc = GradContext::<f64, D>::new(1);
    let mut m = PopMember::from_expr(MemberId(7), None, 1, e, 1);
    m.evaluate(&tagged, &o, &mut ev);
    SEEN.with(|s| s.borrow_mut().clear());
    let mut rng = Rng::with_seed(c.rng.u64(..));
    let mut next_birth = 10;
    let (improved, _) = optimize_constants(
        &mut rng,
        &mut m,
        OptimizeConstantsCtx { dataset: tagged, options: &o, evaluator: &mut ev, grad_ctx: &mut gc, next_birth: &mut next_birth },
    );
    c.eval();
    let seen = SEEN.with(|s| std::mem::take(&mut *s.borrow_mut()));
    // order inside one evaluation may be any
    let points: Vec<Vec<f64>> = seen
        .chunks(k)
        .map(|p| {
            let mut p = p.to_vec();
            p.sort_by(f64::total_cmp);
            p
        })
        .collect();
    let ctx = || format!("constants {x0:?}, target {}, evaluated at {points:?}, improved {improved}, now {:?}", data.y[0], m.expr.consts);
    let mut own = x0.clone();
    own.sort_by(f64::total_cmp);
    let moved: Vec<&Vec<f64>> = {
        let mut v: Vec<&Vec<f64>> = points.iter().filter(|p| **p != own).collect();
        v.sort_by(|a, b| a.partial_cmp(b).unwrap());
        v.dedup();
        v
    };
    if points.iter().all(|p| *p != own) {
        c.fail("the member's own constants are no start", ctx());
    }
    if moved.len() != restarts {
        c.fail("every restart does not begin at another point", format!("{restarts} restarts, {} points: {}", moved.len(), ctx()));
    }
    for p in &moved {
        if p.iter().any(|v| own.contains(v)) {
            c.fail("a restart leaves a constant where it was", ctx());
        }
    }
    // the best of all points evaluated is the result
    let loss = |p: &[f64]| (p.iter().sum::<f64>() - data.y[0]).powi(2);
    let best = points.iter().map(|p| loss(p)).fold(f64::INFINITY, f64::min);
    if loss(&m.expr.consts) > best * (1.0 + 1e-9) + 1e-28 {
        c.fail("a better start than the one kept was evaluated", format!("loss {} against {best}: {}", loss(&m.expr.consts), ctx()));
    }
    c.count("restarts observed", restarts as u64);
    c.distinct(hash_of(&(improved, restarts, m.expr.consts.iter().map(|v| v.to_bits()).collect::<Vec<_>>())));
}

/// More restarts never end with a worse equation: the same draws come first.
fn restarts_case(c: &mut Case) {
    const D: usize = 3;
    let ops: Vec<dynamic_expressions::OpId> = vec![
        op_named::<BuiltinOpsF64>("sin", 1),
        op_named::<BuiltinOpsF64>("cos", 1),
        op_named::<BuiltinOpsF64>("add", 2),
        op_named::<BuiltinOpsF64>("sub", 2),
        op_named::<BuiltinOpsF64>("mul", 2),
    ];
    let nf = 1 + c.rng.usize(..3);
    let n_rows = 1 + c.rng.usize(..20);
    let x = gen_matrix::<f64>(&mut c.rng, nf, n_rows, Data::Tame);
    let y = Array1::from_vec((0..n_rows).map(|_| (c.rng.f64() - 0.5) * 4.0).collect());
    let data = Dataset::with_weights_and_names(x, y, None, Vec::new());
    let mut o = Options::<f64, D> {
        operators: operators_from(&ops),
        loss: make_loss::<f64>(LossKind::Mse),
        progress: false,
        ..Default::default()
    };
    o.optimizer_iterations = 1 + c.rng.usize(..8);
    let g = GenCfg { ops, n_features: nf, n_consts: 3, p_const: 0.6 };
    let budget = 3 + c.rng.usize(..10);
    let e: PostfixExpr<f64, BuiltinOpsF64, D> = gen_expr_canonical(&mut c.rng, &g, budget);
    if e.consts.is_empty() {
        return;
    }
    let tagged = TaggedDataset::new(&data, None);
    let mut ev = Evaluator::<f64, D>::new(n_rows);
    let mut gc = GradContext::<f64, D>::new(n_rows);
    let seed = c.rng.u64(..);
    let mut last = f64::INFINITY;
    let mut trail = Vec::new();
    for restarts in [0, 1, 2, 4, 8] {
        o.optimizer_nrestarts = restarts;
        let mut m = PopMember::from_expr(MemberId(7), None, 1, e.clone(), nf);
        m.evaluate(&tagged, &o, &mut ev);
        if !(m.loss < 1e12) {
            return;
        }
        let mut rng = Rng::with_seed(seed);
        let Some(_) = observe(c, &mut m, tagged, &o, LossKind::Mse, &mut ev, &mut gc, &mut rng, true) else { return };
        trail.push((restarts, m.loss));
        if m.loss > last * (1.0 + 1e-9) + 1e-25 {
            c.fail("more restarts end with a worse equation", format!("{}: (restarts, loss) {trail:?}", show_expr(&e)));
            return;
        }
        if m.loss < last * 0.999 && restarts > 0 {
            c.count("restarts that helped", 1);
        }
        last = last.min(m.loss);
    }
    c.distinct(hash_of(&(show_expr(&e), trail.iter().map(|t| t.1.to_bits()).collect::<Vec<_>>())));
}

/// The first full step leaves the domain of a logarithm or root: shorter ones must be tried.
fn infeasible_case<T: Num, O: OperatorSet<T = T>, const D: usize>(c: &mut Case) {
    let log = c.rng.bool();
    let f = op_named::<O>(if log { "log" } else { "sqrt" }, 1);
    let add = op_named::<O>("add", 2);
    let mul = op_named::<O>("mul", 2);
    let n_rows = 1 + c.rng.usize(..8);
    // f(c0 + x0 [* c1]): positive data, and targets that ask for a much smaller argument
    let two = c.rng.bool();
    let x = ndarray::Array2::from_shape_fn((1, n_rows), |_| T::of(0.2 + c.rng.f64()));
    let start = [0.1 + c.rng.f64(), 0.3 + c.rng.f64()];
    let low = if log { -2.0 - 6.0 * c.rng.f64() } else { -5.0 - 20.0 * c.rng.f64() };
    let y = Array1::from_shape_fn(n_rows, |_| T::of(low + 0.2 * c.rng.f64()));
    let mut nodes = vec![PNode::Const { idx: 0 }, PNode::Var { feature: 0 }];
    if two {
        nodes.extend([PNode::Const { idx: 1 }, PNode::Op { arity: 2, op: mul.id }]);
    }
    nodes.extend([PNode::Op { arity: 2, op: add.id }, PNode::Op { arity: 1, op: f.id }]);
    let consts: Vec<T> = start[..1 + two as usize].iter().map(|v| T::of(*v)).collect();
    let e = PostfixExpr::<T, O, D>::new(nodes, consts, Metadata::default());
    let value = |v: f64| if log { v.ln() } else { v.sqrt() };
    let arg = |p: &[f64], r: usize| p[0] + x[[0, r]].f() * if two { p[1] } else { 1.0 };
    // steepest descent: does its full step leave the domain?
    let mut grad = vec![0.0; 1 + two as usize];
    for r in 0..n_rows {
        let a = arg(&start, r);
        let d = 2.0 * (value(a) - y[r].f()) / n_rows as f64 * if log { 1.0 / a } else { 0.5 / a.sqrt() };
        grad[0] += d;
        if two {
            grad[1] += d * x[[0, r]].f();
        }
    }
    let stepped: Vec<f64> = start.iter().zip(&grad).map(|(s, g)| s - g).collect();
    if two && !(0..n_rows).any(|r| arg(&stepped, r) < -0.01) {
        return;
    }
    let data = Dataset::with_weights_and_names(x.clone(), y, None, Vec::new());
    let mut o = Options::<T, D> {
        operators: operators_from(&[f, add, mul]),
        loss: make_loss::<T>(LossKind::Mse),
        progress: false,
        ..Default::default()
    };
    o.optimizer_iterations = 1 + c.rng.usize(..8);
    o.optimizer_nrestarts = 0;
    o.optimizer_f_calls_limit = [0, 10_000][c.rng.usize(..2)];
    let tagged = TaggedDataset::new(&data, None);
    let mut ev = Evaluator::<T, D>::new(n_rows);
    let mut gc = GradContext::<T, D>::new(n_rows);
    let mut m = PopMember::from_expr(MemberId(7), None, 1, e, 1);
    m.evaluate(&tagged, &o, &mut ev);
    let first = m.loss;
    let shown = show_expr(&m.expr);
    let mut rng = Rng::with_seed(c.rng.u64(..));
    let Some(out) = observe(c, &mut m, tagged, &o, LossKind::Mse, &mut ev, &mut gc, &mut rng, true) else { return };
    c.count("steps out of the domain", 1);
    if !out.improved {
        c.fail(
            "no progress although shorter steps lower the loss",
            format!("{shown}, loss {first:?}, gradient {grad:?}, {} iterations, {} evaluations", o.optimizer_iterations, out.evals),
        );
    }
    c.distinct(hash_of(&(shown, out.evals as u64)));
}

pub fn p13(m: &Mon) {
    m.rule("distinct (resulting expression, verdict, evaluation count) triples; every call is compared member before against member after, its loss recomputed by the reference interpreter, least-squares optima by normal equations, budgets by counting operator applications");
    m.assume("least-squares problems with condition number above 30 are not judged; the call limit may be exceeded by three calls per start (one Newton step)");
    m.require("improvements", 2000);
    m.require("calls without improvement", 2000);
    m.require("losses confirmed", 1500);
    m.require("least-squares problems", 300);
    m.require("budgets observed", 300);
    m.require("restarts observed", 300);
    m.require("restarts that helped", 200);
    let n = m.scale(4000, 120_000);
    m.cases("any64", n, any_case::<f64, BuiltinOpsF64, 3>);
    m.cases("any32", n / 2, any_case::<f32, BuiltinOpsF32, 2>);
    m.cases("any-mixed", n / 2, any_case::<f64, Mix4, 4>);
    m.cases("linear64", n / 2, linear_case::<f64, BuiltinOpsF64, 3>);
    m.cases("linear32", n / 4, linear_case::<f32, BuiltinOpsF32, 2>);
    m.cases("budget", n, budget_case);
    m.require("steps out of the domain", 500);
    m.cases("infeasible64", n / 4, infeasible_case::<f64, BuiltinOpsF64, 3>);
    m.cases("infeasible32", n / 4, infeasible_case::<f32, BuiltinOpsF32, 2>);
    m.cases("starts", n / 2, starts_case);
    m.cases("restarts", n / 2, restarts_case);
}
