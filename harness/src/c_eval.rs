//! P01 values, P02 completion flag, P03 derivatives, P04 reuse of evaluation state.
use crate::ast::*;
use crate::common::*;
use crate::gen::*;
use dynamic_expressions::operator_enum::presets::{BuiltinOpsF32, BuiltinOpsF64};
use dynamic_expressions::*;
use ndarray::Array2;

fn cfg<O: OperatorSet>(rng: &mut Rng, max_arity: usize) -> GenCfg {
    let mut ops = all_ops::<O>(max_arity);
    // a random, usually small, sub-vocabulary makes combinations of few operators likely
    if rng.bool() {
        rng.shuffle(&mut ops);
        let k = 1 + rng.usize(..ops.len().min(5));
        ops.truncate(k);
    }
    GenCfg {
        ops,
        n_features: match rng.u8(..64) {
            0 => 250 + rng.usize(..60),
            1..8 => 5 + rng.usize(..20),
            _ => 1 + rng.usize(..4),
        },
        n_consts: match rng.u8(..64) {
            0 => 250 + rng.usize(..60),
            1..8 => 5 + rng.usize(..40),
            _ => rng.usize(..5),
        },
        p_const: rng.f64() * 0.7,
    }
}

fn wide(g: &GenCfg) -> bool {
    g.n_features > 4 || g.n_consts > 4
}

/// Usually an expression of about `b` nodes, sometimes a large one.
fn gen_any<T: Fl, O, const D: usize>(rng: &mut Rng, g: &GenCfg, b: usize) -> PostfixExpr<T, O, D> {
    if rng.u8(..if wide(g) { 6 } else { 80 }) == 0 {
        gen_big(rng, g)
    } else {
        gen_expr(rng, g, b)
    }
}

fn budget(rng: &mut Rng) -> usize {
    match rng.u8(..8) {
        0 => 1,
        1 => 2,
        2 => 3 + rng.usize(..3),
        7 => 20 + rng.usize(..60),
        _ => 3 + rng.usize(..18),
    }
}

fn data_kind(rng: &mut Rng) -> Data {
    [Data::Tame, Data::Tame, Data::Positive, Data::Wide, Data::Hostile][rng.usize(..5)]
}

fn opts_any(rng: &mut Rng) -> EvalOptions {
    EvalOptions {
        check_finite: rng.bool(),
        early_exit: rng.bool(),
    }
}

fn expr_key<T: Fl, O, const D: usize>(e: &PostfixExpr<T, O, D>, x: &Array2<T>) -> u64 {
    let c: Vec<u64> = e.consts.iter().map(|c| c.key()).collect();
    hash_of(&(&e.nodes, c, x.shape(), x.iter().map(|v| v.key()).collect::<Vec<_>>()))
}

fn col<'a, T: Fl>(x: &'a Array2<T>, row: usize) -> impl Fn(usize) -> T + 'a {
    move |f| x[(f, row)]
}

fn describe<T: Fl, O: OperatorSet, const D: usize>(e: &PostfixExpr<T, O, D>, x: &Array2<T>, row: usize) -> String {
    let xs: Vec<T> = (0..x.nrows()).map(|f| x[(f, row)]).collect();
    format!("{} at row {row} of {} with x = {xs:?}", show_expr(e), x.ncols())
}

// ------------------------------------------------------------------------------------------ P01

fn values_case<T: Fl, O: OperatorSet<T = T>, const D: usize>(c: &mut Case) {
    let g = cfg::<O>(&mut c.rng, D);
    let b = budget(&mut c.rng);
    let e: PostfixExpr<T, O, D> = gen_any(&mut c.rng, &g, b);
    let mut e = ensure_consts(e, &mut c.rng);
    if !e.consts.is_empty() && c.rng.u8(..12) == 0 {
        let i = c.rng.usize(..e.consts.len());
        e.consts[i] = [T::infinity(), T::neg_infinity(), T::nan(), T::max_value()][c.rng.usize(..4)];
    }
    if e.nodes.len() > 256 {
        c.count("large expressions", 1);
    }
    let kind = data_kind(&mut c.rng);
    let n_rows = if !wide(&g) && c.rng.u8(..40) == 0 { gen_many_rows(&mut c.rng) } else { gen_rows(&mut c.rng) };
    let x = gen_matrix::<T>(&mut c.rng, g.n_features, n_rows, kind);
    let opts = opts_any(&mut c.rng);
    let ast = Ast::from_postfix(&e.nodes).expect("generator");

    let (out, ok) = eval_tree_array::<T, O, D>(&e, x.view(), &opts);
    let mut ctx = EvalContext::<T, D>::new(n_rows);
    let mut out2 = vec![T::of(-77.0); n_rows];
    let ok2 = eval_tree_array_into::<T, O, D>(&mut out2, &e, x.view(), &mut ctx, &opts);
    let plan = compile_plan::<D>(&e.nodes, x.nrows(), e.consts.len());
    let mut scratch = Array2::from_elem((1, 3), T::nan());
    let mut out3 = vec![T::of(-78.0); n_rows];
    let ok3 = eval_plan_array_into::<T, O, D>(&mut out3, &plan, &e, x.view(), &mut scratch, &opts);
    c.evals(3);
    if ok != ok2 || ok != ok3 {
        c.fail(
            "entry points disagree on completion",
            format!("{ok}/{ok2}/{ok3} for {}", show_expr(&e)),
        );
    }
    if out.len() != n_rows {
        c.fail("result length", format!("{} values for {n_rows} rows", out.len()));
        return;
    }
    if !ok && opts.early_exit {
        c.count("early exits", 1);
        return;
    }
    let mut judged = false;
    for row in 0..n_rows {
        if !out[row].same(out2[row]) || !out[row].same(out3[row]) {
            c.fail(
                "entry points disagree on a value",
                format!(
                    "{:?} / {:?} / {:?}: {}",
                    out[row],
                    out2[row],
                    out3[row],
                    describe(&e, &x, row)
                ),
            );
        }
        let xr = col(&x, row);
        let r = ref_row::<T, O>(&ast, &xr, &e.consts, Dir::None, 0, &mut None);
        match agrees::<T, O>(&ast, &xr, &e.consts, Dir::None, 0, &|r| r.val, r.val, out[row]) {
            Some(true) => {
                judged = true;
                c.count("rows compared", 1);
                if !r.val.is_finite() {
                    c.count("rows compared, result not finite", 1);
                }
            }
            None => c.count("rows too ill-conditioned to judge", 1),
            Some(false) => c.fail(
                "value differs from the reference",
                format!(
                    "library {:?}, reference {:?} (options {opts:?}): {}",
                    out[row],
                    r.val,
                    describe(&e, &x, row)
                ),
            ),
        }
    }
    if judged && ast.n_ops() > 0 {
        c.distinct(expr_key(&e, &x));
        c.sample(|| format!("{} on {n_rows} {kind:?} rows -> {:?}", show_expr(&e), &out[..n_rows.min(2)]));
    }
}

/// An expression may hold a constant leaf only if its table has the entry.
fn ensure_consts<T: Fl, O, const D: usize>(mut e: PostfixExpr<T, O, D>, rng: &mut Rng) -> PostfixExpr<T, O, D> {
    let need = e
        .nodes
        .iter()
        .filter_map(|n| match n {
            PNode::Const { idx } => Some(*idx as usize + 1),
            _ => None,
        })
        .max()
        .unwrap_or(0);
    while e.consts.len() < need {
        e.consts.push(gen_const(rng));
    }
    e
}

/// Every operator of a set on a grid of ordinary and special arguments.
fn op_grid_case<T: Fl, O: OperatorSet<T = T>, const D: usize>(c: &mut Case) {
    let ops = all_ops::<O>(D);
    let op = ops[(c.index as usize) % ops.len()];
    let special = [0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 2.0, -2.0, 1e-8, -3.7, 40.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN];
    let k = op.arity as usize;
    let opts = EvalOptions {
        check_finite: false,
        early_exit: false,
    };
    let n = 40;
    let mut x = Array2::from_elem((k, n), T::zero());
    for f in 0..k {
        for r in 0..n {
            x[(f, r)] = if c.rng.bool() {
                T::of(special[c.rng.usize(..special.len())])
            } else {
                let kind = if c.rng.bool() { Data::Tame } else { Data::Wide };
                gen_value(&mut c.rng, kind)
            };
        }
    }
    // operands as variables, as constants, and as results of other nodes
    let mask = c.rng.u32(..);
    let row = c.rng.usize(..n);
    let mut nodes = Vec::new();
    let mut consts = Vec::new();
    for f in 0..k {
        if mask >> f & 1 == 1 {
            nodes.push(PNode::Const {
                idx: consts.len() as u16,
            });
            consts.push(x[(f, row)]);
        } else {
            nodes.push(PNode::Var { feature: f as u16 });
        }
    }
    nodes.push(PNode::Op {
        arity: op.arity,
        op: op.id,
    });
    let e = PostfixExpr::<T, O, D>::new(nodes, consts, Metadata::default());
    let ast = Ast::from_postfix(&e.nodes).unwrap();
    let (out, ok) = eval_tree_array::<T, O, D>(&e, x.view(), &opts);
    c.eval();
    if !ok {
        c.fail(
            "flag false although finiteness is not checked",
            format!("{} ", show_expr(&e)),
        );
    }
    for r in 0..n {
        let xr = col(&x, r);
        let rf = ref_row::<T, O>(&ast, &xr, &e.consts, Dir::None, 0, &mut None);
        match agrees::<T, O>(&ast, &xr, &e.consts, Dir::None, 0, &|r| r.val, rf.val, out[r]) {
            Some(true) => c.count("operator results compared", 1),
            None => c.count("rows too ill-conditioned to judge", 1),
            Some(false) => c.fail(
                format!("operator {} differs from the reference", O::name(op)),
                format!("library {:?}, reference {:?}: {}", out[r], rf.val, describe(&e, &x, r)),
            ),
        }
    }
    c.distinct(expr_key(&e, &x));
}

pub fn p01(m: &Mon) {
    m.rule("random expressions (shared/unused/out-of-order constants, chains, bushes) over the f32 and f64 built-in sets and a custom set of arities 1-4, on 1-65 rows (sometimes up to 2100) of tame, positive, wide and hostile data; non-trivial = has an operator and at least one row was judged; distinct by nodes+constants+data");
    m.assume("the reference formulas use the same libm; rows whose reference value is unstable under few-ulp noise are not judged");
    m.require("rows compared", 20_000);
    m.require("rows compared, result not finite", 200);
    let n = m.scale(60_000, 2_000_000);
    m.cases("values-f64", n, values_case::<f64, BuiltinOpsF64, 3>);
    m.cases("values-f32", n, values_case::<f32, BuiltinOpsF32, 3>);
    m.cases("values-f64-binary", n / 2, values_case::<f64, BuiltinOpsF64, 2>);
    m.cases("values-custom", n, values_case::<f64, Mix4, 4>);
    let g = m.scale(8_000, 200_000);
    m.cases("grid-f64", g, op_grid_case::<f64, BuiltinOpsF64, 3>);
    m.cases("grid-f32", g, op_grid_case::<f32, BuiltinOpsF32, 3>);
    m.cases("grid-custom", g, op_grid_case::<f64, Mix4, 4>);
}

// ------------------------------------------------------------------------------------------ P02

fn flag_case<T: Fl, O: OperatorSet<T = T>, const D: usize>(c: &mut Case) {
    let g = cfg::<O>(&mut c.rng, D);
    let b = budget(&mut c.rng);
    let mut e: PostfixExpr<T, O, D> = gen_any(&mut c.rng, &g, b);
    e = ensure_consts(e, &mut c.rng);
    if c.rng.u8(..4) == 0 && !e.consts.is_empty() {
        let i = c.rng.usize(..e.consts.len());
        e.consts[i] = [T::infinity(), T::nan(), T::zero(), T::max_value()][c.rng.usize(..4)];
    }
    let kind = data_kind(&mut c.rng);
    let n_rows = if !wide(&g) && c.rng.u8(..60) == 0 { gen_many_rows(&mut c.rng) } else { gen_rows(&mut c.rng) };
    let mut x = gen_matrix::<T>(&mut c.rng, g.n_features, n_rows, kind);
    if c.rng.bool() {
        // exactly one bad cell, anywhere
        x = gen_matrix::<T>(&mut c.rng, g.n_features, n_rows, Data::Positive);
        let (f, r) = (c.rng.usize(..g.n_features), c.rng.usize(..n_rows));
        x[(f, r)] = [T::zero(), -T::one(), T::max_value(), T::of(1e30), T::nan(), T::infinity()][c.rng.usize(..6)];
    }
    let opts = opts_any(&mut c.rng);
    let ast = Ast::from_postfix(&e.nodes).expect("generator");
    let root_is_var = matches!(ast, Ast::Var(_));

    let expect = |noise: u64| -> bool {
        (0..n_rows).all(|row| {
            let mut n = (noise > 0).then(|| Rng::with_seed(noise * 31 + row as u64));
            let xr = col(&x, row);
            let r = ref_row::<T, O>(&ast, &xr, &e.consts, Dir::None, 0, &mut n);
            r.ops_finite && (root_is_var || r.val.is_finite())
        })
    };
    let want = !opts.check_finite || expect(0);
    let stable = || (1..10).all(|s| !opts.check_finite || expect(s) == want);

    let (out, ok) = eval_tree_array::<T, O, D>(&e, x.view(), &opts);
    c.eval();
    if ok != want && stable() {
        c.fail(
            "evaluation completion flag",
            format!("flag {ok}, expected {want} ({opts:?}, {n_rows} rows): {}; x = {x:?}", show_expr(&e)),
        );
    }
    if ok && opts.check_finite && !root_is_var && out.iter().any(|v| !v.is_finite()) {
        c.fail("complete but not finite", format!("{out:?} from {}", show_expr(&e)));
    }
    c.count(if want { "complete evaluations" } else { "incomplete evaluations" }, 1);

    // derivatives: the flag follows the values; finite values and derivatives imply completion
    let dirn = c.rng.usize(..g.n_features);
    let mut dctx = DiffContext::<T, D>::new(n_rows);
    let (dv, dd, dok) = eval_diff_tree_array::<T, O, D>(&e, x.view(), dirn, &mut dctx, &opts);
    let variable = c.rng.bool();
    let mut gctx = GradContext::<T, D>::new(n_rows);
    let (gv, gm, gok) = eval_grad_tree_array::<T, O, D>(&e, x.view(), variable, &mut gctx, &opts);
    c.evals(2);
    for (what, okf, vals, ders) in [("directional", dok, &dv, &dd), ("gradient", gok, &gv, &gm.data)] {
        if vals.len() != n_rows {
            c.fail(format!("{what} derivative: length"), format!("{} for {n_rows} rows", vals.len()));
        }
        if !opts.check_finite {
            if !okf {
                c.fail(
                    format!("{what} derivative: flag false although finiteness is not checked"),
                    show_expr(&e),
                );
            }
        } else {
            if okf && !want && stable() {
                c.fail(
                    format!("{what} derivative: flag true on non-finite values"),
                    format!("{opts:?} {}; x = {x:?}", show_expr(&e)),
                );
            }
            let der_ok = {
                // all intermediate derivatives finite, by the reference
                let d = if what == "directional" || variable { Dir::Vars } else { Dir::Consts };
                let nd = if d == Dir::Vars { g.n_features } else { e.consts.len() };
                (0..n_rows).all(|row| {
                    let xr = col(&x, row);
                    let r = ref_row::<T, O>(&ast, &xr, &e.consts, d, nd, &mut None);
                    !r.rough && r.der.iter().all(|v| v.is_finite())
                })
            };
            if !okf && want && der_ok && ders.iter().all(|v| v.is_finite()) && stable() {
                c.fail(
                    format!("{what} derivative: flag false on finite results"),
                    format!("{opts:?} {}; x = {x:?}", show_expr(&e)),
                );
            }
            if !okf && opts.early_exit && vals.iter().any(|v| !v.is_nan()) {
                c.fail(
                    format!("{what} derivative: early exit leaves ordinary values"),
                    format!("{vals:?} from {}", show_expr(&e)),
                );
            }
        }
    }
    if ast.n_ops() > 0 {
        c.distinct(expr_key(&e, &x) ^ hash_of(&(opts.check_finite, opts.early_exit)));
        c.sample(|| format!("{} ({opts:?}) -> flag {ok}", show_expr(&e)));
    }
}

pub fn p02(m: &Mon) {
    m.rule("as P01 plus non-finite constants and data with exactly one offending cell; the flag of the value, directional and gradient evaluators is compared with the finiteness of every operator result in the reference; non-trivial = has an operator");
    m.assume("when few-ulp noise flips the finiteness of a reference result (overflow boundary), no verdict");
    m.require("complete evaluations", 1500);
    m.require("incomplete evaluations", 1500);
    let n = m.scale(80_000, 3_000_000);
    m.cases("flag-f64", n, flag_case::<f64, BuiltinOpsF64, 3>);
    m.cases("flag-f32", n, flag_case::<f32, BuiltinOpsF32, 3>);
    m.cases("flag-custom", n, flag_case::<f64, Mix4, 4>);
}

// ------------------------------------------------------------------------------------------ P03

/// Each operator of the set in turn, on variables and constants, possibly below another operator.
fn deriv_grid_case<T: Fl, O: OperatorSet<T = T>, const D: usize>(c: &mut Case) {
    let ops = all_ops::<O>(D);
    let op = ops[(c.index as usize) % ops.len()];
    let k = op.arity as usize;
    let mut nodes = Vec::new();
    let mut consts = Vec::new();
    for f in 0..k {
        if c.rng.u8(..3) == 0 {
            nodes.push(PNode::Const {
                idx: consts.len() as u16,
            });
            let whole = c.rng.bool();
            consts.push(if whole { T::of(c.rng.i32(-3..6) as f64) } else { gen_const(&mut c.rng) });
        } else {
            nodes.push(PNode::Var { feature: f as u16 });
        }
    }
    nodes.push(PNode::Op {
        arity: op.arity,
        op: op.id,
    });
    if c.rng.u8(..4) == 0 {
        let un: Vec<OpId> = ops.iter().copied().filter(|o| o.arity == 1).collect();
        let o = un[c.rng.usize(..un.len())];
        nodes.push(PNode::Op { arity: 1, op: o.id });
    }
    let e = PostfixExpr::<T, O, D>::new(nodes, consts, Metadata::default());
    deriv_check::<T, O, D>(c, e, k);
}

fn deriv_case<T: Fl, O: OperatorSet<T = T>, const D: usize>(c: &mut Case) {
    let g = cfg::<O>(&mut c.rng, D);
    let b = match c.rng.u8(..4) {
        0 => 1 + c.rng.usize(..3),
        _ => 3 + c.rng.usize(..12),
    };
    let e: PostfixExpr<T, O, D> = gen_any(&mut c.rng, &g, b);
    let e = ensure_consts(e, &mut c.rng);
    deriv_check::<T, O, D>(c, e, g.n_features);
}

fn deriv_check<T: Fl, O: OperatorSet<T = T>, const D: usize>(c: &mut Case, e: PostfixExpr<T, O, D>, n_features: usize) {
    let kind = if c.rng.bool() { Data::Tame } else { Data::Positive };
    let big = e.nodes.len() > 60 || n_features > 4 || e.consts.len() > 8;
    if big {
        c.count("large expressions", 1);
    }
    let n_rows = if big {
        1 + c.rng.usize(..3)
    } else if c.rng.u8(..80) == 0 {
        gen_many_rows(&mut c.rng)
    } else {
        gen_rows(&mut c.rng).min(17)
    };
    let mut x = gen_matrix::<T>(&mut c.rng, n_features, n_rows, kind);
    if c.rng.u8(..3) == 0 {
        for v in x.iter_mut() {
            if c.rng.u8(..4) == 0 {
                *v = T::of([0.0, -0.0, 1.0, -1.0, 2.0, -2.0, 3.0, 0.5, -0.5][c.rng.usize(..9)]);
            }
        }
    }
    let opts = if c.rng.u8(..3) == 0 {
        EvalOptions::default()
    } else {
        EvalOptions {
            check_finite: c.rng.bool(),
            early_exit: false,
        }
    };
    let ast = Ast::from_postfix(&e.nodes).expect("generator");
    let nf = n_features;
    let nc = e.consts.len();

    let (val, ok) = eval_tree_array::<T, O, D>(&e, x.view(), &opts);
    let mut gv_ctx = GradContext::<T, D>::new(n_rows);
    let (gv_val, gv, gv_ok) = eval_grad_tree_array::<T, O, D>(&e, x.view(), true, &mut gv_ctx, &opts);
    let mut gc_ctx = GradContext::<T, D>::new(n_rows);
    let (gc_val, gc, gc_ok) = eval_grad_tree_array::<T, O, D>(&e, x.view(), false, &mut gc_ctx, &opts);
    let mut diffs = Vec::new();
    for d in 0..nf {
        let mut dctx = DiffContext::<T, D>::new(n_rows);
        diffs.push(eval_diff_tree_array::<T, O, D>(&e, x.view(), d, &mut dctx, &opts));
    }
    c.evals(3 + nf as u64);
    if gv.n_dir != nf || gv.n_rows != n_rows || gv.data.len() != nf * n_rows {
        c.fail("gradient shape", format!("{}x{} for {nf} variables", gv.n_dir, gv.n_rows));
        return;
    }
    if gc.n_dir != nc || gc.n_rows != n_rows || gc.data.len() != nc * n_rows {
        c.fail("gradient shape", format!("{}x{} for {nc} constants", gc.n_dir, gc.n_rows));
        return;
    }
    let use_gv = gv_ok || !opts.early_exit;
    let use_gc = gc_ok || !opts.early_exit;
    let use_val = ok || !opts.early_exit;
    let mut judged = 0u64;
    for row in 0..n_rows {
        let xr = col(&x, row);
        // values ride along unchanged
        if use_val {
            let mut all: Vec<(&str, T)> = Vec::new();
            if use_gv {
                all.push(("gradient by variables", gv_val[row]));
            }
            if use_gc {
                all.push(("gradient by constants", gc_val[row]));
            }
            for (v, _, dok) in &diffs {
                if *dok || !opts.early_exit {
                    all.push(("directional derivative", v[row]));
                }
            }
            for (what, v) in all {
                c.count("values cross-checked", 1);
                if !v.same(val[row]) {
                    match agrees::<T, O>(&ast, &xr, &e.consts, Dir::None, 0, &|r| r.val, val[row], v) {
                        Some(false) => c.fail(
                            format!("{what}: value differs from plain evaluation"),
                            format!("{v:?} vs {:?}: {}", val[row], describe(&e, &x, row)),
                        ),
                        _ => {}
                    }
                }
            }
        }
        for (mode, nd) in [(Dir::Vars, nf), (Dir::Consts, nc)] {
            let r = ref_row::<T, O>(&ast, &xr, &e.consts, mode, nd, &mut None);
            if r.rough {
                c.count("rows without a defined derivative", 1);
                continue;
            }
            for d in 0..nd {
                let mut got: Vec<(&str, T)> = Vec::new();
                if mode == Dir::Vars {
                    if use_gv {
                        got.push(("gradient by variables", gv.data[d * n_rows + row]));
                    }
                    if diffs[d].2 || !opts.early_exit {
                        got.push(("directional derivative", diffs[d].1[row]));
                    }
                } else if use_gc {
                    got.push(("gradient by constants", gc.data[d * n_rows + row]));
                }
                for (what, v) in got {
                    match agrees::<T, O>(&ast, &xr, &e.consts, mode, nd, &|r| r.der[d], r.der[d], v) {
                        Some(true) => {
                            judged += 1;
                            if !r.der[d].is_zero() {
                                c.count("non-zero derivatives compared", 1);
                            }
                        }
                        None => c.count("rows too ill-conditioned to judge", 1),
                        Some(false) => c.fail(
                            format!("{what} differs from the reference"),
                            format!(
                                "direction {d}: library {v:?}, reference {:?}: {}",
                                r.der[d],
                                describe(&e, &x, row)
                            ),
                        ),
                    }
                }
            }
        }
    }
    c.count("derivatives compared", judged);
    if judged > 0 && ast.n_ops() > 0 {
        c.distinct(expr_key(&e, &x));
        c.sample(|| format!("{}: {judged} derivatives agree", show_expr(&e)));
    }
}

pub fn p03(m: &Mon) {
    m.rule("random expressions; directional derivatives and both gradients (by variables, by constants) against a forward-mode reference with its own partials; non-trivial = has an operator and a derivative was judged");
    m.assume("points where an operator is not differentiable (|x| at 0, ties of min/max, domain edges; a power at base 0 is judged where the derivative exists) or the derivative is numerically unstable are not judged");
    m.require("derivatives compared", 20_000);
    m.require("non-zero derivatives compared", 8_000);
    let n = m.scale(60_000, 2_000_000);
    m.cases("deriv-f64", n, deriv_case::<f64, BuiltinOpsF64, 3>);
    m.cases("deriv-f32", n / 2, deriv_case::<f32, BuiltinOpsF32, 3>);
    m.cases("deriv-binary", n / 2, deriv_case::<f64, BuiltinOpsF64, 2>);
    m.cases("deriv-custom", n, deriv_case::<f64, Mix4, 4>);
    let g = m.scale(30_000, 600_000);
    m.cases("grid-f64", g, deriv_grid_case::<f64, BuiltinOpsF64, 3>);
    m.cases("grid-f32", g, deriv_grid_case::<f32, BuiltinOpsF32, 3>);
}

// ------------------------------------------------------------------------------------------ P04

fn reuse_case<T: Fl, O: OperatorSet<T = T>, const D: usize>(c: &mut Case) {
    let mut n_rows = if c.rng.u8(..80) == 0 { gen_many_rows(&mut c.rng) } else { gen_rows(&mut c.rng) };
    let g = cfg::<O>(&mut c.rng, D);
    if wide(&g) {
        n_rows = n_rows.min(9);
    }
    let mut ectx = EvalContext::<T, D>::new(n_rows);
    let mut dctx = DiffContext::<T, D>::new(n_rows);
    let mut gctx = GradContext::<T, D>::new(n_rows);
    let mut scratch = Array2::<T>::zeros((0, 0));
    let mut nf = g.n_features;
    let mut e: PostfixExpr<T, O, D> = gen_expr(&mut c.rng, &g, 6);
    e = ensure_consts(e, &mut c.rng);
    let steps = 12;
    let mut history = Vec::new();
    for _ in 0..steps {
        let what = c.rng.u8(..13);
        match what {
            11 => {
                // other data: the same state serves another number of rows
                n_rows = match c.rng.u8(..8) {
                    0 => (n_rows * 2).min(4096),
                    1 => n_rows.div_ceil(2),
                    _ => gen_rows(&mut c.rng),
                };
                ectx.n_rows = n_rows;
                dctx.n_rows = n_rows;
                gctx.n_rows = n_rows;
                c.count("row counts exchanged", 1);
            }
            12 => {}
            8 => {
                // the same operator numbers at the same places, with their arities exchanged
                let pos: Vec<usize> = (0..e.nodes.len())
                    .filter(|&i| matches!(e.nodes[i], PNode::Op { .. }))
                    .collect();
                let mut arities: Vec<u8> = pos
                    .iter()
                    .map(|&i| match e.nodes[i] {
                        PNode::Op { arity, .. } => arity,
                        _ => 0,
                    })
                    .collect();
                for _ in 0..8 {
                    c.rng.shuffle(&mut arities);
                    let mut nodes = e.nodes.clone();
                    let mut defined = true;
                    for (&i, &a) in pos.iter().zip(&arities) {
                        if let PNode::Op { op, .. } = nodes[i] {
                            defined &= O::ops_with_arity(a).contains(&op);
                            nodes[i] = PNode::Op { arity: a, op };
                        }
                    }
                    if defined && nodes != e.nodes && Ast::from_postfix(&nodes).is_ok() {
                        e.nodes = nodes;
                        c.count("arities exchanged", 1);
                        break;
                    }
                }
            }
            9 => {
                // the same nodes in another order
                for _ in 0..8 {
                    let mut nodes = e.nodes.clone();
                    if c.rng.bool() {
                        c.rng.shuffle(&mut nodes);
                    } else {
                        let (i, j) = (c.rng.usize(..nodes.len()), c.rng.usize(..nodes.len()));
                        nodes.swap(i, j);
                    }
                    if nodes != e.nodes && Ast::from_postfix(&nodes).is_ok() {
                        e.nodes = nodes;
                        c.count("nodes reordered", 1);
                        break;
                    }
                }
            }
            10 => {
                // every number of the code is kept and one node changes its kind
                let i = c.rng.usize(..e.nodes.len());
                let mut nodes = e.nodes.clone();
                nodes[i] = match nodes[i] {
                    PNode::Var { feature } if (feature as usize) < e.consts.len() => PNode::Const { idx: feature },
                    PNode::Const { idx } if (idx as usize) < nf => PNode::Var { feature: idx },
                    n => n,
                };
                e.nodes = nodes;
            }
            0 => {
                let b = 1 + c.rng.usize(..14);
                let g = GenCfg { n_features: nf, ..g.clone() };
                e = if c.rng.u8(..100) == 0 { gen_big(&mut c.rng, &g) } else { gen_expr(&mut c.rng, &g, b) };
                e = ensure_consts(e, &mut c.rng);
            }
            1 | 2 => {
                // same length and constants, one operator exchanged
                let pos: Vec<usize> = (0..e.nodes.len())
                    .filter(|&i| matches!(e.nodes[i], PNode::Op { .. }))
                    .collect();
                if !pos.is_empty() {
                    let i = pos[c.rng.usize(..pos.len())];
                    if let PNode::Op { arity, .. } = e.nodes[i] {
                        let ids = O::ops_with_arity(arity);
                        e.nodes[i] = PNode::Op {
                            arity,
                            op: ids[c.rng.usize(..ids.len())],
                        };
                    }
                }
            }
            3 => {
                let pos: Vec<usize> = (0..e.nodes.len())
                    .filter(|&i| matches!(e.nodes[i], PNode::Var { .. }))
                    .collect();
                if !pos.is_empty() {
                    let i = pos[c.rng.usize(..pos.len())];
                    e.nodes[i] = PNode::Var {
                        feature: c.rng.usize(..nf) as u16,
                    };
                }
            }
            4 => {
                if !e.consts.is_empty() {
                    let i = c.rng.usize(..e.consts.len());
                    e.consts[i] = gen_const(&mut c.rng);
                }
            }
            5 => e.consts.push(gen_const(&mut c.rng)),
            6 => nf = nf.max(1) + c.rng.usize(..2),
            _ => {
                // leaf kinds exchanged: x <-> constant
                if !e.consts.is_empty() {
                    let pos: Vec<usize> = (0..e.nodes.len())
                        .filter(|&i| !matches!(e.nodes[i], PNode::Op { .. }))
                        .collect();
                    let i = pos[c.rng.usize(..pos.len())];
                    e.nodes[i] = match e.nodes[i] {
                        PNode::Var { .. } => PNode::Const {
                            idx: c.rng.usize(..e.consts.len()) as u16,
                        },
                        _ => PNode::Var {
                            feature: c.rng.usize(..nf) as u16,
                        },
                    };
                }
            }
        }
        let kind = data_kind(&mut c.rng);
        let x = gen_matrix::<T>(&mut c.rng, nf, n_rows, kind);
        let opts = opts_any(&mut c.rng);
        history.push(format!("{} [{kind:?}, {nf} features]", show_expr(&e)));

        let (fresh, fok) = eval_tree_array::<T, O, D>(&e, x.view(), &opts);
        let mut out = vec![T::of(9e9); n_rows];
        let ok = eval_tree_array_into::<T, O, D>(&mut out, &e, x.view(), &mut ectx, &opts);
        let plan = compile_plan::<D>(&e.nodes, nf, e.consts.len());
        let mut out2 = vec![T::of(9e9); n_rows];
        let ok2 = eval_plan_array_into::<T, O, D>(&mut out2, &plan, &e, x.view(), &mut scratch, &opts);
        c.evals(3);
        let bad = |a: &[T], b: &[T]| a.len() != b.len() || a.iter().zip(b).any(|(p, q)| !p.same(*q));
        if ok != fok || ok2 != fok || ((fok || !opts.early_exit) && (bad(&out, &fresh) || bad(&out2, &fresh))) {
            c.fail(
                "reused evaluation state changes the result",
                format!("fresh {fresh:?}/{fok}, reused context {out:?}/{ok}, reused scratch {out2:?}/{ok2}; history {history:#?}"),
            );
            return;
        }
        let dirn = c.rng.usize(..nf);
        let (a1, b1, o1) =
            eval_diff_tree_array::<T, O, D>(&e, x.view(), dirn, &mut DiffContext::new(n_rows), &opts);
        let (a2, b2, o2) = eval_diff_tree_array::<T, O, D>(&e, x.view(), dirn, &mut dctx, &opts);
        c.evals(2);
        if o1 != o2 || bad(&a1, &a2) || bad(&b1, &b2) {
            c.fail(
                "reused derivative state changes the result",
                format!("fresh {a1:?} {b1:?} {o1}, reused {a2:?} {b2:?} {o2}; history {history:#?}"),
            );
            return;
        }
        let variable = c.rng.bool();
        let (a1, b1, o1) =
            eval_grad_tree_array::<T, O, D>(&e, x.view(), variable, &mut GradContext::new(n_rows), &opts);
        let (a2, b2, o2) = eval_grad_tree_array::<T, O, D>(&e, x.view(), variable, &mut gctx, &opts);
        c.evals(2);
        if o1 != o2 || bad(&a1, &a2) || bad(&b1.data, &b2.data) || b1.n_dir != b2.n_dir {
            c.fail(
                "reused gradient state changes the result",
                format!("variable={variable} fresh {a1:?} {b1:?} {o1}, reused {a2:?} {b2:?} {o2}; history {history:#?}"),
            );
            return;
        }
        c.count("reuses compared", 4);
    }
    c.distinct(hash_of(&history));
    c.sample(|| history.join(" ; "));
}

pub fn p04(m: &Mon) {
    m.rule("sequences of 12 evaluations through the same evaluation, derivative and gradient state, where each step replaces the expression, exchanges one operator/variable/leaf kind, edits a constant, or changes the number of constants, features or rows; results compared bit for bit with fresh state; distinct by history");
    m.require("reuses compared", 20_000);
    m.require("arities exchanged", 500);
    m.require("nodes reordered", 500);
    m.require("row counts exchanged", 2000);
    let n = m.scale(30_000, 1_000_000);
    m.cases("reuse-f64", n, reuse_case::<f64, BuiltinOpsF64, 3>);
    m.cases("reuse-f32", n / 2, reuse_case::<f32, BuiltinOpsF32, 3>);
    m.cases("reuse-custom", n / 2, reuse_case::<f64, Mix4, 4>);
}
