//! Reference definitions of complexity, constraints, loss and cost, written on syntax trees.
use crate::ast::*;
use crate::common::Rng;
use dynamic_expressions::{OpId, OperatorSet, PostfixExpr};
use ndarray::Array2;
use num_traits::Float;
use symbolic_regression::{Dataset, LossKind, Options};

fn default_complexity<T: Float, const D: usize>(o: &Options<T, D>) -> bool {
    o.complexity_of_constants == 1
        && o.complexity_of_variables == 1
        && o.variable_complexities.is_none()
        && o.operator_complexity_overrides.is_empty()
}

pub fn complexity<T: Float, const D: usize>(a: &Ast, o: &Options<T, D>) -> usize {
    match a {
        Ast::Const(_) => o.complexity_of_constants as usize,
        Ast::Var(f) => match &o.variable_complexities {
            Some(v) if *f < v.len() => v[*f] as usize,
            _ => o.complexity_of_variables as usize,
        },
        Ast::Op(op, kids) => {
            o.operator_complexity_overrides.get(op).map_or(1, |v| *v as usize)
                + kids.iter().map(|k| complexity(k, o)).sum::<usize>()
        }
    }
}

/// Largest number of `target` operators on one path from the root of `a` to a leaf.
pub fn on_path(a: &Ast, target: OpId) -> usize {
    match a {
        Ast::Op(op, kids) => (*op == target) as usize + kids.iter().map(|k| on_path(k, target)).max().unwrap_or(0),
        _ => 0,
    }
}

/// Why the expression breaks a constraint under the size limit `limit`, if it does.
pub fn broken_constraint<T: Float, const D: usize>(a: &Ast, o: &Options<T, D>, limit: usize) -> Option<String> {
    let c = complexity(a, o);
    if c > limit {
        return Some(format!("size {c} > {limit}"));
    }
    if a.depth() > o.maxdepth {
        return Some(format!("depth {} > {}", a.depth(), o.maxdepth));
    }
    let mut why = None;
    a.visit(&mut |n| {
        let Ast::Op(op, kids) = n else { return };
        if let Some(l) = o.op_constraints.limits.get(op) {
            for (j, k) in kids.iter().enumerate() {
                if let Some(m) = l[j] {
                    let kc = complexity(k, o);
                    if kc > m as usize {
                        why = Some(format!("argument {j} of {op:?} has size {kc} > {m}"));
                    }
                }
            }
        }
        if let Some(rules) = o.nested_constraints.limits.get(op) {
            for (inner, max) in rules {
                let n = kids.iter().map(|k| on_path(k, *inner)).max().unwrap_or(0);
                if n > *max as usize {
                    why = Some(format!("{inner:?} nested {n} times in {op:?}, allowed {max}"));
                }
            }
        }
    });
    let _ = default_complexity(o);
    why
}

/// Textbook point loss.
pub fn point_loss(kind: LossKind, r: f64) -> f64 {
    // r = prediction - target
    let a = r.abs();
    match kind {
        LossKind::Mse | LossKind::Rmse => r * r,
        LossKind::Mae => a,
        LossKind::Huber { delta } => {
            if a <= delta {
                r * r / 2.0
            } else {
                delta * a - delta * delta / 2.0
            }
        }
        LossKind::LogCosh => {
            if a < 1.0 {
                // log cosh a = log(1 + 2 sinh^2(a/2))
                (2.0 * (a / 2.0).sinh().powi(2)).ln_1p()
            } else {
                // log cosh a = a + log((1 + e^-2a)/2)
                a + (-2.0 * a).exp().ln_1p() - std::f64::consts::LN_2
            }
        }
        LossKind::Lp { p } => a.powf(p),
        LossKind::Quantile { tau } => {
            if r <= 0.0 {
                tau * a
            } else {
                (1.0 - tau) * a
            }
        }
        LossKind::EpsilonInsensitive { eps } => (a - eps).max(0.0),
    }
}

pub fn loss_value(kind: LossKind, yhat: &[f64], y: &[f64], w: Option<&[f64]>) -> f64 {
    if y.is_empty() {
        return 0.0;
    }
    let mut num = 0.0;
    let mut den = 0.0;
    for i in 0..y.len() {
        let wi = w.map_or(1.0, |w| w[i]);
        num += wi * point_loss(kind, yhat[i] - y[i]);
        den += wi;
    }
    if den == 0.0 {
        return 0.0;
    }
    let m = num / den;
    if kind == LossKind::Rmse {
        m.sqrt()
    } else {
        m
    }
}

/// Predictions of an expression by the reference interpreter, optionally disturbed.
pub fn predict<T: Fl, O: OperatorSet<T = T>>(a: &Ast, consts: &[T], x: &Array2<T>, noise: &mut Option<Rng>) -> (Vec<T>, bool) {
    let mut ok = true;
    let v = (0..x.ncols())
        .map(|r| {
            let row = ref_row::<T, O>(a, &|f| x[[f, r]], consts, Dir::None, 0, noise);
            ok &= row.ops_finite && row.val.is_finite();
            row.val
        })
        .collect();
    (v, ok)
}

/// Loss of an expression on a dataset; infinite when it is not finite everywhere.
pub fn loss_of<T: Fl, O: OperatorSet<T = T>, const D: usize>(
    e: &PostfixExpr<T, O, D>,
    d: &Dataset<T>,
    kind: LossKind,
    noise: &mut Option<Rng>,
) -> f64 {
    let Ok(a) = Ast::from_postfix(&e.nodes) else {
        return f64::NAN;
    };
    let (p, ok) = predict::<T, O>(&a, &e.consts, &d.x, noise);
    if !ok {
        return f64::INFINITY;
    }
    let p: Vec<f64> = p.iter().map(|v| v.f()).collect();
    let y: Vec<f64> = d.y.iter().map(|v| v.f()).collect();
    let w: Option<Vec<f64>> = d.weights.as_ref().map(|w| w.iter().map(|v| v.f()).collect());
    let l = loss_value(kind, &p, &y, w.as_deref());
    if T::of(l).is_finite() {
        l
    } else {
        f64::INFINITY
    }
}

/// Does a stated loss belong to the expression? None: ill-conditioned, no verdict.
pub fn loss_agrees<T: Fl, O: OperatorSet<T = T>, const D: usize>(
    e: &PostfixExpr<T, O, D>,
    d: &Dataset<T>,
    kind: LossKind,
    stated: T,
) -> Option<Result<(), f64>> {
    let r = loss_of(e, d, kind, &mut None);
    let s = stated.f();
    if s == r {
        return Some(Ok(()));
    }
    // magnitude of what is subtracted: residuals are exact only up to rounding of y
    let ymax = d.y.iter().map(|v| v.f().abs()).fold(0.0, f64::max);
    let n = d.n_rows as f64;
    let close = |a: f64, b: f64, spread: f64| (a - b).abs() <= T::eps() * (32.0 + 4.0 * n) * a.abs().max(b.abs()) + 64.0 * spread;
    let mut spread = 0.0f64;
    let mut rng = Rng::with_seed(4711);
    for s in 0..8u64 {
        let mut noise = Some(Rng::with_seed(s * 31 + 5));
        let v = loss_of(e, d, kind, &mut noise);
        if v.is_finite() != r.is_finite() {
            return None;
        }
        if v.is_finite() {
            spread = spread.max((v - r).abs());
        }
    }
    if kind == LossKind::LogCosh {
        // log(cosh r) near 0 keeps only absolute precision
        spread = spread.max(T::eps());
    }
    // rounding of the residuals themselves
    {
        let Ok(a) = Ast::from_postfix(&e.nodes) else { return None };
        let (p, _) = predict::<T, O>(&a, &e.consts, &d.x, &mut None);
        let y: Vec<f64> = d.y.iter().map(|v| v.f()).collect();
        let w: Option<Vec<f64>> = d.weights.as_ref().map(|w| w.iter().map(|v| v.f()).collect());
        let base: Vec<f64> = p.iter().map(|v| v.f()).collect();
        let moved: Vec<f64> = base.iter().map(|v| v + (rng.f64() - 0.5) * 4.0 * T::eps() * v.abs().max(ymax)).collect();
        let (a, b) = (
            loss_value(kind, &base, &y, w.as_deref()),
            loss_value(kind, &moved, &y, w.as_deref()),
        );
        if a.is_finite() && b.is_finite() {
            spread = spread.max((a - b).abs());
        }
    }
    if !r.is_finite() || !s.is_finite() {
        // r infinite: either not complete, or the loss overflows T close to its limit
        if r.is_infinite() && s.is_infinite() {
            return Some(Ok(()));
        }
        // the sum of (squared) point losses must fit the type
        let near = 0.1 * T::max_value().f();
        let sum = |v: f64| n * if kind == LossKind::Rmse { v * v } else { v };
        if r.is_finite() && sum(r) > near || s.is_finite() && sum(s) > near {
            return None;
        }
        return Some(Err(r));
    }
    if spread > 0.05 * r.abs().max(1e-12) && spread > T::eps() * T::eps() * 1e3 * ymax.max(1.0) * ymax.max(1.0) {
        return if close(s, r, spread) { Some(Ok(())) } else { None };
    }
    Some(if close(s, r, spread + T::eps() * T::eps() * 16.0 * ymax * ymax) { Ok(()) } else { Err(r) })
}

pub fn cost_of<T: Fl, const D: usize>(loss: f64, complexity: usize, o: &Options<T, D>, baseline: Option<f64>) -> f64 {
    let floor = 0.01;
    let denom = if o.use_baseline {
        match baseline {
            Some(b) if b.is_finite() && b >= floor => b,
            _ => floor,
        }
    } else {
        floor
    };
    loss / denom + o.parsimony * complexity as f64
}

/// Loss of predicting zero everywhere.
pub fn baseline_of<T: Fl>(d: &Dataset<T>, kind: LossKind) -> f64 {
    let y: Vec<f64> = d.y.iter().map(|v| v.f()).collect();
    let w: Option<Vec<f64>> = d.weights.as_ref().map(|w| w.iter().map(|v| v.f()).collect());
    loss_value(kind, &vec![0.0; y.len()], &y, w.as_deref())
}
