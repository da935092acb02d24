//! Random options, datasets and operator selections, through the public interface only.
use crate::ast::Fl;
use crate::common::*;
use crate::gen::*;
use dynamic_expressions::{eval_plan_array_into, EvalOptions, OpId, OperatorSet, PostfixExpr};
use ndarray::{Array1, Array2};
use symbolic_regression::{make_loss, Dataset, LossKind, MutationWeights, Operators, Options, PopMember};

pub fn weights_zero() -> MutationWeights {
    MutationWeights {
        mutate_constant: 0.0,
        mutate_operator: 0.0,
        mutate_feature: 0.0,
        swap_operands: 0.0,
        rotate_tree: 0.0,
        add_node: 0.0,
        insert_node: 0.0,
        delete_node: 0.0,
        simplify: 0.0,
        randomize: 0.0,
        do_nothing: 0.0,
        optimize: 0.0,
        form_connection: 0.0,
        break_connection: 0.0,
    }
}

pub fn weight_mut<'a>(w: &'a mut MutationWeights, kind: &str) -> &'a mut f64 {
    match kind {
        "mutate_constant" => &mut w.mutate_constant,
        "mutate_operator" => &mut w.mutate_operator,
        "mutate_feature" => &mut w.mutate_feature,
        "swap_operands" => &mut w.swap_operands,
        "rotate_tree" => &mut w.rotate_tree,
        "add_node" => &mut w.add_node,
        "insert_node" => &mut w.insert_node,
        "delete_node" => &mut w.delete_node,
        "simplify" => &mut w.simplify,
        "randomize" => &mut w.randomize,
        "do_nothing" => &mut w.do_nothing,
        _ => &mut w.optimize,
    }
}

pub fn operators_from<const D: usize>(ops: &[OpId]) -> Operators<D> {
    let mut o = Operators::new();
    for &p in ops {
        o.push(p);
    }
    o
}

/// A random non-empty selection of the operators, biased to total functions.
pub fn gen_ops<O: OperatorSet>(rng: &mut Rng, d: usize) -> Vec<OpId> {
    let all = all_ops::<O>(d);
    let total: Vec<OpId> = all
        .iter()
        .copied()
        .filter(|o| {
            matches!(
                O::name(*o),
                "add" | "sub" | "mul" | "sin" | "cos" | "tanh" | "neg" | "abs" | "abs2" | "min" | "max" | "fma" | "identity"
                    | "half" | "lin2" | "lin3" | "lin4" | "mix3" | "mix4" | "plus" | "minus" | "times" | "atan" | "exp" | "div"
            )
        })
        .collect();
    let pool = if rng.u8(..4) == 0 { &all } else { &total };
    let p = 0.15 + 0.7 * rng.f64();
    let mut v: Vec<OpId> = pool.iter().copied().filter(|_| rng.f64() < p).collect();
    if v.is_empty() {
        v.push(pool[rng.usize(..pool.len())]);
    }
    v
}

pub fn gen_dataset<T: Fl>(rng: &mut Rng, n_features: usize, n_rows: usize) -> Dataset<T> {
    let mut x = gen_matrix::<T>(rng, n_features, n_rows, Data::Tame);
    if rng.u8(..8) == 0 {
        // one row on which quotients and logarithms are not finite
        let row = rng.usize(..n_rows);
        x.column_mut(row).fill(T::zero());
    }
    let y = Array1::from_vec((0..n_rows).map(|_| gen_value::<T>(rng, Data::Tame)).collect());
    let w = (rng.u8(..3) == 0).then(|| Array1::from_vec((0..n_rows).map(|_| T::of(0.1 + rng.f64())).collect()));
    Dataset::with_weights_and_names(x, y, w, Vec::new())
}

pub fn gen_loss_kind(rng: &mut Rng) -> LossKind {
    match rng.u8(..9) {
        0 | 1 => LossKind::Mse,
        2 => LossKind::Mae,
        3 => LossKind::Rmse,
        4 => LossKind::Huber { delta: 0.3 + rng.f64() },
        5 => LossKind::LogCosh,
        6 => LossKind::Lp { p: 1.0 + 2.0 * rng.f64() },
        7 => LossKind::Quantile { tau: 0.1 + 0.8 * rng.f64() },
        _ => LossKind::EpsilonInsensitive { eps: rng.f64() * 0.5 },
    }
}
/// Random options touching complexity, constraints, cost and loss.
pub fn gen_options<T: Fl, O: OperatorSet, const D: usize>(rng: &mut Rng, ops: &[OpId], n_features: usize) -> (Options<T, D>, LossKind) {
    let maxsize = sized(rng, 4..34, 16, 34..140);
    let kind = gen_loss_kind(rng);
    let mut o = Options::<T, D> {
        operators: operators_from(ops),
        maxsize,
        maxdepth: if rng.u8(..3) == 0 { 2 + rng.usize(..6) } else { 30 },
        parsimony: if rng.bool() { 0.0 } else { if rng.u8(..12) == 0 { 3.0 * rng.f64() } else { 0.05 * rng.f64() } },
        use_baseline: rng.bool(),
        progress: false,
        should_simplify: rng.bool(),
        loss: make_loss::<T>(kind),
        ..Default::default()
    };
    if rng.u8(..3) == 0 {
        o.complexity_of_constants = sized(rng, 1..4, 24, 4..400) as u16;
        o.complexity_of_variables = sized(rng, 1..4, 24, 4..400) as u16;
        if rng.bool() {
            o.variable_complexities = Some((0..1 + rng.usize(..n_features)).map(|_| 1 + rng.u16(..3)).collect());
        }
        for &op in ops {
            if rng.u8(..3) == 0 {
                o.operator_complexity_overrides.insert(op, rng.u16(..4));
            }
        }
    }
    if rng.u8(..3) == 0 {
        for &op in ops {
            for j in 0..op.arity as usize {
                if rng.u8(..3) == 0 {
                    o.op_constraints.set_op_arg_constraint(op, j, 1 + rng.u16(..6));
                }
            }
        }
    }
    if rng.u8(..3) == 0 {
        for &op in ops {
            if rng.u8(..2) == 0 {
                let other = ops[rng.usize(..ops.len())];
                o.nested_constraints.add_nested_constraint(op, other, rng.u8(..3));
            }
        }
    }
    (o, kind)
}

/// The plan stored in a member evaluates to what its expression evaluates to.
pub fn plan_fits<T: Fl, O: OperatorSet<T = T>, const D: usize>(m: &PopMember<T, O, D>, x: &Array2<T>) -> Result<(), String> {
    let opts = EvalOptions {
        check_finite: false,
        early_exit: false,
    };
    let n = x.ncols();
    let run = |plan: &dynamic_expressions::EvalPlan<D>| {
        let mut out = vec![T::zero(); n];
        let mut s = Array2::zeros((0, 0));
        eval_plan_array_into(&mut out, plan, &m.expr, x.view(), &mut s, &opts);
        out
    };
    let fresh = dynamic_expressions::compile_plan(&m.expr.nodes, x.nrows(), m.expr.consts.len());
    let (a, b) = (run(&m.plan), run(&fresh));
    if a.iter().zip(&b).all(|(p, q)| p.same(*q)) {
        Ok(())
    } else {
        Err(format!("stored plan gives {a:?}, the expression {b:?}"))
    }
}

pub fn same_code<T: Fl, O, const D: usize>(a: &PostfixExpr<T, O, D>, b: &PostfixExpr<T, O, D>) -> bool {
    a.nodes == b.nodes && a.consts.len() == b.consts.len() && a.consts.iter().zip(&b.consts).all(|(p, q)| p.same(*q))
}
