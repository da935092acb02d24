//! P14: every loss compared with its textbook definition and derivative.
use crate::common::*;
#[allow(unused_imports)]
use crate::gen::sized;
use crate::spec::point_loss;
use dynamic_expressions::operator_enum::presets::{BuiltinOpsF32, BuiltinOpsF64};
use ndarray::{Array1, Array2};
#[cfg(feature = "hooks")]
use symbolic_regression::verif::{baseline_loss_from_zero_expression, loss_to_cost};
use symbolic_regression::{self as lf, make_loss, Dataset, LossKind, Options};

use crate::ast::Fl;

fn gen_kind(rng: &mut Rng) -> LossKind {
    let pos = |r: &mut Rng| match r.u8(..4) {
        0 => 1.0,
        1 => 1e-3 * (1.0 + r.f64()),
        2 => 100.0 * (1.0 + r.f64()),
        _ => 0.1 + 3.0 * r.f64(),
    };
    match rng.u8(..8) {
        0 => LossKind::Mse,
        1 => LossKind::Mae,
        2 => LossKind::Rmse,
        3 => LossKind::Huber { delta: pos(rng) },
        4 => LossKind::LogCosh,
        5 => LossKind::Lp {
            p: [1.0, 1.5, 2.0, 3.0, 4.0, 0.5][rng.usize(..6)],
        },
        6 => LossKind::Quantile {
            tau: [0.5, 0.1, 0.9, 0.0, 1.0, 0.33][rng.usize(..6)],
        },
        _ => LossKind::EpsilonInsensitive {
            eps: if rng.u8(..5) == 0 { 0.0 } else { pos(rng) },
        },
    }
}

/// Textbook derivative of the point loss, as the interval of subgradients.
fn point_slope(kind: LossKind, r: f64) -> (f64, f64) {
    let s = r.signum();
    let a = r.abs();
    match kind {
        LossKind::Mse | LossKind::Rmse => (2.0 * r, 2.0 * r),
        LossKind::Mae => {
            if r == 0.0 {
                (-1.0, 1.0)
            } else {
                (s, s)
            }
        }
        LossKind::Huber { delta } => {
            let v = r.clamp(-delta, delta);
            (v, v)
        }
        LossKind::LogCosh => (r.tanh(), r.tanh()),
        LossKind::Lp { p } => {
            if r == 0.0 {
                if p == 1.0 {
                    (-1.0, 1.0)
                } else if p < 1.0 {
                    (f64::NEG_INFINITY, f64::INFINITY)
                } else {
                    (0.0, 0.0)
                }
            } else {
                let v = p * a.powf(p - 1.0) * s;
                (v, v)
            }
        }
        // pinball loss of u = y - yhat
        LossKind::Quantile { tau } => {
            if r == 0.0 {
                (-tau, 1.0 - tau)
            } else if r < 0.0 {
                (-tau, -tau)
            } else {
                (1.0 - tau, 1.0 - tau)
            }
        }
        LossKind::EpsilonInsensitive { eps } => {
            if a < eps {
                (0.0, 0.0)
            } else if a == eps {
                if r == 0.0 {
                    (-1.0, 1.0)
                } else {
                    (s.min(0.0), s.max(0.0))
                }
            } else {
                (s, s)
            }
        }
    }
}

fn gen_residual<T: Fl>(rng: &mut Rng, kind: LossKind) -> f64 {
    let s = if rng.bool() { 1.0 } else { -1.0 };
    let knee = match kind {
        LossKind::Huber { delta } => delta,
        LossKind::EpsilonInsensitive { eps } => eps,
        LossKind::LogCosh => 20.0,
        _ => 1.0,
    };
    s * match rng.u8(..12) {
        0 => 0.0,
        1 => 1e-6 * rng.f64(),
        2 => 1e3 * rng.f64(),
        3 => 1e8 * (0.1 + rng.f64()),
        4 => knee * (0.9 + 0.2 * rng.f64()),
        5 => knee,
        6 => 18.0 + 4.0 * rng.f64(),
        7 => 80.0 + 700.0 * rng.f64(),
        _ => 3.0 * rng.f64(),
    }
}

fn p14_case<T: Fl>(c: &mut Case) {
    let kind = gen_kind(&mut c.rng);
    let loss = if c.rng.u8(..4) == 0 {
        match kind {
            LossKind::Mse => lf::mse::<T>(),
            LossKind::Mae => lf::mae::<T>(),
            LossKind::Rmse => lf::rmse::<T>(),
            LossKind::Huber { delta } => lf::huber::<T>(delta),
            LossKind::LogCosh => lf::log_cosh::<T>(),
            LossKind::Lp { p } => lf::lp::<T>(p),
            LossKind::Quantile { tau } => lf::quantile::<T>(tau),
            LossKind::EpsilonInsensitive { eps } => lf::epsilon_insensitive::<T>(eps),
        }
    } else {
        make_loss::<T>(kind)
    };
    let n = match c.rng.u8(..6) {
        0 => 1,
        1 => 2,
        2 if c.rng.u16(..500) == 0 => 65_000 + c.rng.usize(..80_000),
        2 => 60 + sized(&mut c.rng, 0..200, 24, 400..5000),
        _ => 1 + c.rng.usize(..40),
    };
    let single = c.rng.bool();
    let one = gen_residual::<T>(&mut c.rng, kind);
    let ymag = [0.0, 1.0, 1e4][c.rng.usize(..3)];
    let y: Vec<T> = (0..n).map(|_| T::of(ymag * (2.0 * c.rng.f64() - 1.0))).collect();
    let yhat: Vec<T> = (0..n)
        .map(|i| {
            let r = if single { one * c.rng.f64() } else { gen_residual::<T>(&mut c.rng, kind) };
            let r = if single && i == 0 { one } else { r };
            T::of(y[i].f() + r)
        })
        .collect();
    let w: Option<Vec<T>> = match c.rng.u8(..3) {
        0 => None,
        1 => Some((0..n).map(|_| T::of(0.01 + 3.0 * c.rng.f64())).collect()),
        _ => {
            let zero = c.rng.usize(..n);
            Some(
                (0..n)
                    .map(|i| {
                        let v = T::of(c.rng.f64() * 10f64.powi(c.rng.i32(-3..4)));
                        if i == zero && n > 1 {
                            T::zero()
                        } else {
                            v.max(T::of(1e-5))
                        }
                    })
                    .collect(),
            )
        }
    };
    // the unit of the weights is arbitrary
    let w: Option<Vec<T>> = if c.rng.u8(..3) == 0 {
        let far = if T::eps() < 1e-10 { 60 } else { 9 };
        let unit = T::of(10f64.powi(c.rng.i32(-far..far + 1)));
        w.map(|w| w.into_iter().map(|v| v * unit).collect())
    } else {
        w
    };
    // parameters as rounded to T
    let tkind = match kind {
        LossKind::Huber { delta } => LossKind::Huber { delta: T::of(delta).f() },
        LossKind::Lp { p } => LossKind::Lp { p: T::of(p).f() },
        LossKind::Quantile { tau } => LossKind::Quantile { tau: T::of(tau).f() },
        LossKind::EpsilonInsensitive { eps } => LossKind::EpsilonInsensitive { eps: T::of(eps).f() },
        k => k,
    };
    if n > 1 << 16 {
        c.count("losses over more than 65536 rows", 1);
    }
    let res: Vec<f64> = (0..n).map(|i| (yhat[i] - y[i]).f()).collect();
    let ww: Vec<f64> = (0..n).map(|i| w.as_ref().map_or(1.0, |w| w[i].f())).collect();
    let sum_w: f64 = ww.iter().sum();
    // reference, with an error budget per term
    let mut num = 0.0;
    let mut abs_err = 0.0;
    for i in 0..n {
        let l = point_loss(tkind, res[i]);
        num += ww[i] * l;
        let extra = match tkind {
            LossKind::LogCosh => 4.0 + 4.0 * res[i].abs().min(40.0) / 40.0,
            LossKind::EpsilonInsensitive { .. } => 4.0 * res[i].abs(),
            LossKind::Lp { p } => l * p * 4.0 + l * (l.max(1e-300).ln().abs() + 1.0),
            LossKind::Quantile { .. } => 4.0 * res[i].abs(),
            _ => 8.0 * l,
        };
        abs_err += ww[i] * (extra + l);
    }
    let eps = T::eps();
    let mean = num / sum_w;
    let under = n as f64 * T::min_positive_value().f() / sum_w;
    let tol = under + eps * (abs_err / sum_w) + eps * (2.0 * n as f64 + 16.0) * mean;
    let (want, tol) = if kind == LossKind::Rmse {
        (mean.sqrt(), tol / mean.sqrt().max(1e-300) + eps * 4.0 * mean.sqrt())
    } else {
        (mean, tol)
    };
    let max = T::max_value().f() * 0.01;
    let tiny = T::min_positive_value().f() * 1e6;
    let representable = num < max && res.iter().all(|r| *r == 0.0 || r.abs().powi(2) > tiny) && T::of(want).is_finite();
    let ctx = |got: f64| {
        format!(
            "{kind:?} over {n} rows, weights {}: got {got}, definition {want} (tolerance {tol:e}), residuals {:?}, weights {:?}",
            w.is_some(),
            &res[..n.min(6)],
            &ww[..n.min(6)]
        )
    };
    let got = loss.loss(&yhat, &y, w.as_deref());
    c.eval();
    if !representable {
        c.count("beyond the number range", 1);
        if got.is_nan() || got < T::zero() {
            c.fail("a loss of finite data is not a number", ctx(got.f()));
        }
        return;
    }
    c.count("loss values compared", 1);
    if !((got.f() - want).abs() <= tol) {
        c.fail("a loss differs from its definition", ctx(got.f()));
        return;
    }
    if got < T::zero() {
        c.fail("a loss is negative", ctx(got.f()));
    }
    // exact predictions
    let z = loss.loss(&y, &y, w.as_deref());
    if z != T::zero() {
        c.fail("the loss of exact predictions is not zero", ctx(z.f()));
    }
    // derivative
    let mut d = vec![T::of(f64::NAN); n];
    loss.dloss_dyhat(&yhat, &y, w.as_deref(), &mut d);
    for i in 0..n {
        let (lo, hi) = point_slope(tkind, res[i]);
        let mut f = ww[i] / sum_w;
        if kind == LossKind::Rmse {
            if want == 0.0 {
                if !d[i].is_finite() {
                    c.fail("a derivative is not finite", ctx(d[i].f()));
                }
                continue;
            }
            f /= 2.0 * want;
        }
        if lo.is_infinite() {
            if d[i].is_nan() {
                c.fail("a derivative is not a number", ctx(d[i].f()));
            }
            continue;
        }
        let (lo, hi) = (lo * f, hi * f);
        if lo.abs() > max || hi.abs() > max {
            if lo == hi {
                continue;
            }
        }
        let rel = eps * (4.0 * n as f64 + 64.0);
        let scale = match tkind {
            // near saturation and near zero tanh is accurate relatively
            LossKind::Lp { p } => 1.0 + p * (res[i].abs().max(1e-300).ln().abs() + 1.0),
            _ => 1.0,
        };
        // parameters within rounding of a knee may fall on either side
        let knee = match tkind {
            LossKind::Huber { .. } => false,
            LossKind::EpsilonInsensitive { eps: e } => (res[i].abs() - e).abs() <= eps * e,
            _ => false,
        };
        let t = rel * scale * lo.abs().max(hi.abs()).max(f * 1e-30);
        c.eval();
        let v = d[i].f();
        let ok = if knee {
            v.abs() <= f * (1.0 + rel)
        } else {
            v >= lo - t && v <= hi + t
        };
        if !ok {
            c.fail(
                "a loss derivative differs from the derivative of the loss",
                format!("row {i} residual {}: {v}, expected {lo}..{hi}: {}", res[i], ctx(got.f())),
            );
            return;
        }
    }
    c.count("derivatives compared", n as u64);
    // unit weights are no weights; weights count only relatively
    let ones = vec![T::one(); n];
    let a = loss.loss(&yhat, &y, None).f();
    let b = loss.loss(&yhat, &y, Some(&ones)).f();
    c.eval();
    if (a - b).abs() > 2.0 * eps * (n as f64 + 4.0) * a.abs() {
        c.fail("unit weights change the loss", format!("{a} against {b}: {}", ctx(got.f())));
    }
    let mut da = vec![T::zero(); n];
    let mut db = vec![T::one(); n];
    loss.dloss_dyhat(&yhat, &y, None, &mut da);
    loss.dloss_dyhat(&yhat, &y, Some(&ones), &mut db);
    if (0..n).any(|i| (da[i].f() - db[i].f()).abs() > 2.0 * eps * (n as f64 + 8.0) * da[i].f().abs()) {
        c.fail("unit weights change the derivative", ctx(got.f()));
    }
    if let Some(w) = &w {
        let k = T::of([2.0, 0.25, 64.0, 3.0, 0.1, 1e-9, 1e6][c.rng.usize(..7)]);
        let k = if num * k.f() < max && k.f() * sum_w < max { k } else { T::of(0.5) };
        let under = under.max(under / k.f());
        let s: Vec<T> = w.iter().map(|v| *v * k).collect();
        let b = loss.loss(&yhat, &y, Some(&s)).f();
        let under = if kind == LossKind::Rmse { (2.0 * under).sqrt() } else { 2.0 * under };
        if (b - got.f()).abs() > under + eps * (4.0 * n as f64 + 16.0) * got.f().abs() {
            c.fail("scaling all weights changes the loss", format!("by {}: {b} against {}", k.f(), ctx(got.f())));
        }
        let mut ds = vec![T::zero(); n];
        loss.dloss_dyhat(&yhat, &y, Some(&s), &mut ds);
        if (0..n).any(|i| (ds[i].f() - d[i].f()).abs() > eps * (8.0 * n as f64 + 32.0) * d[i].f().abs()) {
            c.fail("scaling all weights changes the derivative", ctx(got.f()));
        }
        // order of rows does not matter
        let mut p: Vec<usize> = (0..n).collect();
        c.rng.shuffle(&mut p);
        let pick = |v: &[T]| p.iter().map(|i| v[*i]).collect::<Vec<T>>();
        let b = loss.loss(&pick(&yhat), &pick(&y), Some(&pick(w))).f();
        if (b - got.f()).abs() > eps * (4.0 * n as f64 + 16.0) * got.f().abs() {
            c.fail("the order of rows changes the loss", format!("{b} against {}", ctx(got.f())));
        }
    }
    c.distinct(hash_of(&(format!("{kind:?}"), got.key(), n)));
    c.sample(|| ctx(got.f()));
}

fn p14_names(c: &mut Case) {
    let names: [(&str, LossKind); 11] = [
        ("mse", LossKind::Mse),
        ("mae", LossKind::Mae),
        ("rmse", LossKind::Rmse),
        ("huber", LossKind::Huber { delta: 1.0 }),
        ("logcosh", LossKind::LogCosh),
        ("lp", LossKind::Lp { p: 2.0 }),
        ("quantile", LossKind::Quantile { tau: 0.5 }),
        ("epsilon-insensitive", LossKind::EpsilonInsensitive { eps: 0.1 }),
        ("epsilon_insensitive", LossKind::EpsilonInsensitive { eps: 0.1 }),
        ("eps-insensitive", LossKind::EpsilonInsensitive { eps: 0.1 }),
        ("eps_insensitive", LossKind::EpsilonInsensitive { eps: 0.1 }),
    ];
    for (name, kind) in names {
        let spelled: String = name
            .chars()
            .map(|ch| if c.rng.bool() { ch.to_ascii_uppercase() } else { ch })
            .collect();
        let spelled = format!("{}{spelled}{}", ["", " ", "\t"][c.rng.usize(..3)], ["", "  "][c.rng.usize(..2)]);
        c.eval();
        c.distinct(hash_of(&spelled));
        c.count("names resolved", 1);
        if LossKind::parse(&spelled) != Some(kind) {
            c.fail("a loss name gives another loss", format!("{spelled:?}: {:?}", LossKind::parse(&spelled)));
        }
        let junk = format!("{name}{}", ["x", "2", "_", "e"][c.rng.usize(..4)]);
        if LossKind::parse(&junk).is_some() || LossKind::parse(&name[1..]).is_some_and(|_| name[1..].len() > 2 && name != "rmse") {
            c.fail("an unknown loss name is accepted", junk);
        }
    }
    let o = Options::<f64, 2>::default();
    let (a, b) = ([1.0, 4.0, -2.0], [0.0, 1.0, 5.0]);
    if (o.loss.loss(&a, &b, None) - (1.0 + 9.0 + 49.0) / 3.0).abs() > 1e-12 {
        c.fail("the default loss is not the mean squared error", "");
    }
}

#[cfg(feature = "hooks")]
/// The baseline is the loss of predicting zero, and costs follow loss, baseline and size.
fn p14_baseline<T: Fl>(c: &mut Case, base: impl Fn(&Dataset<T>, LossKind) -> Option<T>) {
    let kind = gen_kind(&mut c.rng);
    let n = sized(&mut c.rng, 1..31, 16, 100..3000);
    let f = c.rng.usize(..4);
    let y: Vec<T> = (0..n).map(|_| T::of(gen_residual::<T>(&mut c.rng, kind).clamp(-1e6, 1e6))).collect();
    let w = c.rng.bool().then(|| (0..n).map(|_| T::of(0.1 + c.rng.f64())).collect::<Vec<T>>());
    let x = Array2::from_shape_fn((f, n), |_| T::of(if c.rng.u8(..9) == 0 { f64::NAN } else { c.rng.f64() }));
    let d = Dataset::with_weights_and_names(x, Array1::from_vec(y.clone()), w.clone().map(Array1::from_vec), vec![]);
    let zeros = vec![T::zero(); n];
    let want = make_loss::<T>(kind).loss(&zeros, &y, w.as_deref());
    let got = base(&d, kind);
    c.eval();
    c.count("baselines compared", 1);
    let agree = got.is_some_and(|g| (g.f() - want.f()).abs() <= T::eps() * 8.0 * (n as f64) * want.f().abs());
    if want.is_finite() && !agree {
        c.fail("the baseline is not the loss of predicting zero", format!("{kind:?}: {got:?} against {want:?}"));
    }
    let loss = T::of(c.rng.f64() * 10f64.powi(c.rng.i32(-3..4)));
    let size = c.rng.usize(..50);
    let parsimony = [0.0, 1e-4, 0.3][c.rng.usize(..3)];
    let b = match c.rng.u8(..5) {
        0 => None,
        1 => Some(T::of(1e-4)),
        2 => Some(T::of(f64::INFINITY)),
        3 => Some(T::of(0.01) * T::of(1.5)),
        _ => Some(T::of(10.0 * c.rng.f64() + 0.011)),
    };
    let use_base = c.rng.bool();
    let got = loss_to_cost(loss, size, parsimony, use_base, b).f();
    let denom = match b {
        Some(b) if use_base && b.is_finite() && b.f() >= 0.01 => b.f(),
        _ => T::of(0.01).f(),
    };
    let want = loss.f() / denom + T::of(parsimony).f() * size as f64;
    c.eval();
    if (got - want).abs() > 16.0 * T::eps() * want {
        c.fail(
            "the cost is not loss over baseline plus parsimony",
            format!("{got} against {want}: loss {loss:?} size {size} parsimony {parsimony} baseline {b:?} used {use_base}"),
        );
    }
    c.distinct(hash_of(&(loss.key(), size, n)));
}

pub fn p14(m: &Mon) {
    m.rule("distinct (loss, value, rows) evaluations; value and every derivative entry compared with textbook formulas in f64 with per-term error budgets");
    m.assume("inputs whose weighted sum of point losses leaves the number range of the type are only required to give a non-negative number or infinity");
    m.assume("at kinks any subgradient is accepted as derivative");
    m.require("loss values compared", 10_000);
    m.require("losses over more than 65536 rows", 5);
    m.require("derivatives compared", 100_000);
    let n = m.scale(60_000, 2_000_000);
    m.cases("loss64", n, p14_case::<f64>);
    m.cases("loss32", n, p14_case::<f32>);
    m.cases("names", m.scale(200, 2000), p14_names);
    #[cfg(feature = "hooks")]
    p14_costs(m);
}

#[cfg(feature = "hooks")]
fn p14_costs(m: &Mon) {
    let n = m.scale(10_000, 200_000);
    m.cases("baseline64", n, |c| {
        p14_baseline::<f64>(c, |d, k| {
            baseline_loss_from_zero_expression::<f64, BuiltinOpsF64, 3>(d, make_loss::<f64>(k).as_ref())
        })
    });
    m.cases("baseline32", n, |c| {
        p14_baseline::<f32>(c, |d, k| {
            baseline_loss_from_zero_expression::<f32, BuiltinOpsF32, 2>(d, make_loss::<f32>(k).as_ref())
        })
    });
}
