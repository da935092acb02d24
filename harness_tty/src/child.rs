//! The watched process: one search with its progress display on, and a log of what it really found on stdout.
use dynamic_expressions::operator_enum::presets::{BuiltinOpsF32, BuiltinOpsF64};
use dynamic_expressions::OperatorSet;
use fastrand::Rng;
use ndarray::{Array1, Array2};
use num_traits::Float;
use std::fmt::{Display, Write as _};
use std::time::Instant;
use symbolic_regression::*;

dynamic_expressions::custom_opset! {
    pub struct Wordy<f64> {
        1 {
            größenveränderung_der_eingabe { eval: |a: &[f64; 1]| (a[0] * 0.7).sin(), partial: |a: &[f64; 1], _i: usize| 0.7 * (a[0] * 0.7).cos(), }
        }
        2 {
            unterschied_zweier_größen { eval: |a: &[f64; 2]| a[0] - a[1], partial: |_a: &[f64; 2], i: usize| [1.0, -1.0][i], }
            mal { infix: "×", eval: |a: &[f64; 2]| a[0] * a[1], partial: |a: &[f64; 2], i: usize| [a[1], a[0]][i], }
        }
    }
}

/// The Pareto front by its definition, as (complexity, loss, equation).
fn front<T: Float + Display, O: OperatorSet<T = T>, const D: usize>(h: &HallOfFame<T, O, D>) -> Vec<(usize, f64, String)> {
    let mut all: Vec<_> = h.members().map(|m| (m.complexity, m.loss.to_f64().unwrap(), m.expr.to_string())).collect();
    all.sort_by_key(|m| m.0);
    let mut best = f64::INFINITY;
    all.retain(|m| {
        let keep = m.1 < best;
        if keep {
            best = m.1;
        }
        keep
    });
    all
}

/// `when`: the cycle ended between these two times, in seconds since the display appeared.
fn log<T: Float + Display, O: OperatorSet<T = T>, const D: usize>(
    out: &mut String,
    cycle: usize,
    evals: Option<u64>,
    when: (f64, f64),
    h: &HallOfFame<T, O, D>,
) {
    writeln!(out, "cycle\t{cycle}\t{}\t{}\t{}", evals.map_or(-1, |e| e as i64), when.0, when.1).unwrap();
    for (c, l, e) in front(h) {
        writeln!(out, "entry\t{c}\t{:x}\t{e}", l.to_bits()).unwrap();
    }
}

fn search<T, O, const D: usize>(rng: &mut Rng, mode: &str, un: &[&str], bin: &[&str])
where
    T: Float + std::ops::AddAssign + num_traits::FromPrimitive + num_traits::ToPrimitive + Display + Send + Sync + 'static,
    O: OperatorSet<T = T> + Send + Sync + 'static,
{
    let v = |x: f64| T::from_f64(x).unwrap();
    let nf = 1 + rng.usize(..3);
    let rows = 1 + rng.usize(..30);
    let scale = [1.0, 1.0, 1e-4, 1e6, 1e30][rng.usize(..5)];
    let x = Array2::from_shape_fn((nf, rows), |_| v(rng.f64() * 4.0 - 2.0));
    let y = Array1::from_shape_fn(rows, |i| v(scale * ((x[(0, i)] * x[(nf - 1, i)]).to_f64().unwrap() + 0.5 * rng.f64())));
    let data = Dataset::new(x, y);
    let mut o = Options::<T, D> {
        operators: Operators::from_names_by_arity::<O>(un, bin, &[]).unwrap(),
        populations: 1 + rng.usize(..4),
        population_size: 4 + rng.usize(..30),
        niterations: if mode == "paced" { 4 + rng.usize(..12) } else { 1 + rng.usize(..4) },
        ncycles_per_iteration: 5 + rng.usize(..60),
        maxsize: 5 + rng.usize(..40),
        tournament_selection_n: 4,
        should_optimize_constants: rng.bool(),
        parsimony: 0.0,
        seed: rng.u64(..),
        ..Default::default()
    };
    o.output_style = [OutputStyle::Auto, OutputStyle::Plain, OutputStyle::Ansi][rng.usize(..3)];
    if rng.u8(..4) == 0 {
        o.complexity_of_constants = 1 + rng.u16(..3);
    }
    if mode == "quiet" {
        o.progress = false;
    }
    let mut out = String::new();
    writeln!(out, "setup\t{}\t{}", o.niterations, o.populations).unwrap();
    let before = Instant::now();
    if mode == "parallel" {
        let r = equation_search::<T, O, D>(&data, &o);
        let end = before.elapsed().as_secs_f64();
        log(&mut out, o.niterations * o.populations, None, (0.0, end), &r.hall_of_fame);
    } else {
        let mut e = SearchEngine::<T, O, D>::new(data, o);
        // the clock of the display started somewhere between `before` and `after`
        let after = Instant::now();
        log(&mut out, 0, Some(e.total_evals()), (0.0, before.elapsed().as_secs_f64()), e.hall_of_fame());
        loop {
            if mode == "paced" {
                std::thread::sleep(std::time::Duration::from_millis(60 + rng.u64(..200)));
            }
            // frames may show any cycle
            let from = after.elapsed().as_secs_f64();
            if e.step(1) == 0 {
                break;
            }
            log(&mut out, e.cycles_completed(), Some(e.total_evals()), (from, before.elapsed().as_secs_f64()), e.hall_of_fame());
        }
        if rng.bool() {
            e.step(1);
        }
    }
    print!("{out}end\n");
}

pub fn run(seed: u64, mode: &str) {
    let mut rng = Rng::with_seed(seed);
    let r = &mut rng;
    match r.u8(..4) {
        0 => search::<f32, BuiltinOpsF32, 3>(r, mode, &["cos", "exp"], &["+", "-", "*", "/"]),
        1 => search::<f64, BuiltinOpsF64, 3>(r, mode, &["cos", "exp", "neg"], &["+", "-", "*", "/"]),
        _ => search::<f64, Wordy, 2>(r, mode, &["größenveränderung_der_eingabe"], &["unterschied_zweier_größen", "mal"]),
    }
}
