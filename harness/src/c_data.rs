//! P15: datasets in every memory layout, and batches resampled from them.
use crate::ast::Fl;
use crate::c_search::{gen_search, print_engine, Num};
use crate::common::*;
use crate::gen::*;
use dynamic_expressions::operator_enum::presets::{BuiltinOpsF32, BuiltinOpsF64};
use dynamic_expressions::OperatorSet;
use crate::sgen::operators_from;
use ndarray::{s, Array1, Array2, Axis, ShapeBuilder};
use std::cell::RefCell;
use symbolic_regression::{Dataset, Options, SearchEngine};

thread_local! {
    static ROWS_SEEN: RefCell<Vec<u32>> = const { RefCell::new(Vec::new()) };
}

const MARK: f64 = 4096.0;

/// Passes on the row marker among its arguments and records it.
fn tap(a: &[f64; 2]) -> f64 {
    for &v in a {
        if v >= MARK && v.fract() == 0.0 {
            ROWS_SEEN.with(|r| r.borrow_mut().push((v - MARK) as u32));
            return v;
        }
    }
    a[0].clamp(-100.0, 100.0)
}

dynamic_expressions::custom_opset! {
    struct Tapping<f64> {
        2 {
            tap { eval: |a: &[f64; 2]| tap(a), partial: |_a: &[f64; 2], _i: usize| 0.0, }
        }
    }
}

/// The same matrix in some memory layout.
fn lay2<T: Fl>(rng: &mut Rng, a: &Array2<T>) -> (Array2<T>, &'static str) {
    let (f, n) = a.dim();
    match rng.u8(..8) {
        0 => (a.clone(), "row-major"),
        1 => {
            let mut b = Array2::<T>::zeros((f, n).f());
            b.assign(a);
            (b, "column-major")
        }
        2 => {
            let mut b = Array2::<T>::from_elem((f, 2 * n + 1), T::of(777.0));
            b.slice_mut(s![.., 1..2 * n + 1; 2]).assign(a);
            (b.slice_move(s![.., 1..2 * n + 1; 2]), "every second column")
        }
        3 => {
            let mut b = Array2::<T>::from_elem((2 * f + 1, n), T::of(777.0));
            b.slice_mut(s![1..2 * f + 1; 2, ..]).assign(a);
            (b.slice_move(s![1..2 * f + 1; 2, ..]), "every second row")
        }
        4 => {
            let mut b = a.clone();
            b.invert_axis(Axis(1));
            let mut c = b.as_standard_layout().to_owned();
            c.invert_axis(Axis(1));
            (c, "reversed rows of data")
        }
        5 => {
            let mut b = a.clone();
            b.invert_axis(Axis(0));
            let mut c = b.as_standard_layout().to_owned();
            c.invert_axis(Axis(0));
            (c, "reversed features")
        }
        6 => {
            let t = a.t().as_standard_layout().to_owned();
            (t.reversed_axes(), "transposed")
        }
        _ => {
            let mut b = Array2::<T>::from_elem((f + 2, n + 3), T::of(777.0));
            b.slice_mut(s![1..f + 1, 2..n + 2]).assign(a);
            (b.slice_move(s![1..f + 1, 2..n + 2]), "window")
        }
    }
}

fn lay1<T: Fl>(rng: &mut Rng, a: &Array1<T>) -> (Array1<T>, &'static str) {
    let n = a.len();
    match rng.u8(..4) {
        0 => (a.clone(), "contiguous"),
        1 => {
            let mut b = Array1::<T>::from_elem(3 * n + 2, T::of(777.0));
            b.slice_mut(s![2..3 * n + 2; 3]).assign(a);
            (b.slice_move(s![2..3 * n + 2; 3]), "strided")
        }
        2 => {
            let mut b = Array1::from_iter(a.iter().rev().copied());
            b.invert_axis(Axis(0));
            (b, "reversed")
        }
        _ => {
            let mut b = Array2::<T>::from_elem((n, 3), T::of(777.0));
            b.column_mut(1).assign(a);
            (b.slice_move(s![.., 1]), "column of a matrix")
        }
    }
}

fn key<T: Fl>(v: T) -> u64 {
    // bitwise: also for NaN payload-independent comparison
    if v.is_nan() {
        u64::MAX
    } else {
        v.key()
    }
}

fn gen_any<T: Fl>(rng: &mut Rng) -> T {
    T::of(match rng.u8(..20) {
        0 => f64::NAN,
        1 => f64::INFINITY,
        2 => f64::NEG_INFINITY,
        3 => -0.0,
        _ => (rng.f64() - 0.5) * 10f64.powi(rng.i32(-2..3)),
    })
}

fn p15_layout<T: Fl>(c: &mut Case) {
    let f = sized(&mut c.rng, 0..5, 20, 5..70);
    let n = if c.rng.u8(..20) == 0 { 60 + c.rng.usize(..1200) } else { [0, 1, 2, 3, 7, 16, 33][c.rng.usize(..7)] + c.rng.usize(..2) };
    let finite = c.rng.bool();
    let val = |r: &mut Rng| if finite { T::of(r.f64() * 9.0 - 4.0) } else { gen_any::<T>(r) };
    let x = Array2::from_shape_fn((f, n), |_| val(&mut c.rng));
    let y = Array1::from_shape_fn(n, |_| val(&mut c.rng));
    let w = c.rng.bool().then(|| Array1::from_shape_fn(n, |_| T::of(0.01 + c.rng.f64())));
    let names: Vec<String> = (0..f).map(|i| format!("feature {i}")).collect();
    let (lx, how_x) = lay2(&mut c.rng, &x);
    let (ly, how_y) = lay1(&mut c.rng, &y);
    let lw = w.as_ref().map(|w| lay1(&mut c.rng, w));
    let how_w = lw.as_ref().map_or("none", |w| w.1);
    let ctx = || format!("{f} features x {n} rows, x {how_x}, y {how_y}, weights {how_w}");
    if lx.dim() != (f, n) || ly.len() != n {
        panic!("layout helper is wrong");
    }
    let d = if w.is_none() && c.rng.bool() {
        Dataset::new(lx, ly)
    } else {
        Dataset::with_weights_and_names(lx, ly, lw.map(|w| w.0), names.clone())
    };
    c.eval();
    c.count("datasets built", 1);
    c.distinct(hash_of(&(how_x, how_y, how_w, f, n)));
    if d.n_rows != n || d.n_features != f || d.x.dim() != (f, n) || d.y.len() != n {
        c.fail("a dataset has the wrong shape", ctx());
        return;
    }
    if !d.variable_names.is_empty() && d.variable_names != names {
        c.fail("a dataset has the wrong names", ctx());
    }
    let mut bad = false;
    for i in 0..n {
        for j in 0..f {
            bad |= key(d.x[[j, i]]) != key(x[[j, i]]);
        }
        bad |= key(d.y[i]) != key(y[i]) || key(d.y_slice()[i]) != key(y[i]);
    }
    if let Some(xs) = d.x.as_slice() {
        // features must be contiguous over rows for the evaluator
        for i in 0..n {
            for j in 0..f {
                bad |= key(xs[j * n + i]) != key(x[[j, i]]);
            }
        }
    } else {
        bad = true;
    }
    match (&w, d.weights_slice()) {
        (None, None) => {}
        (Some(w), Some(s)) => bad |= s.len() != n || (0..n).any(|i| key(s[i]) != key(w[i])),
        _ => {
            c.fail("a dataset lost or invented weights", ctx());
            return;
        }
    }
    if bad {
        c.fail("a dataset does not hold the given values in place", ctx());
        return;
    }
    // mean target
    if finite && n > 0 {
        let (mut num, mut den, mut mag) = (0.0, 0.0, 0.0);
        for i in 0..n {
            let wi = w.as_ref().map_or(1.0, |w| w[i].f());
            num += wi * y[i].f();
            mag += wi * y[i].f().abs();
            den += wi;
        }
        let want = num / den;
        let tol = T::eps() * (4.0 * n as f64 + 8.0) * mag / den;
        c.eval();
        if (d.avg_y.f() - want).abs() > tol {
            c.fail("the mean target is wrong", format!("{} against {want}: {}", d.avg_y.f(), ctx()));
        }
        let again = Dataset::<T>::compute_avg_y(d.y_slice(), d.weights_slice());
        if (again.f() - want).abs() > tol {
            c.fail("the mean target is wrong", format!("compute_avg_y {} against {want}: {}", again.f(), ctx()));
        }
    }
    c.sample(ctx);
}

fn p15_batch<T: Fl>(c: &mut Case) {
    let f = sized(&mut c.rng, 0..5, 20, 5..70);
    let n = sized(&mut c.rng, 1..31, 16, 60..6000);
    // the target identifies the row; everything else may repeat
    let x = Array2::from_shape_fn((f, n), |_| gen_any::<T>(&mut c.rng));
    let y = Array1::from_shape_fn(n, |i| T::of(100.0 + i as f64));
    let w = c.rng.bool().then(|| Array1::from_shape_fn(n, |_| T::of(0.01 + c.rng.f64())));
    let names: Vec<String> = (0..f).map(|i| format!("v{i}")).collect();
    let full = Dataset::with_weights_and_names(x, y, w, names);
    let before = full.clone();
    let bs = match c.rng.u8(..4) {
        0 => 1,
        1 => n,
        2 => 2 * n + 1,
        _ => 1 + c.rng.usize(..n),
    };
    let mut batch = Dataset::make_batch_buffer(&full, bs);
    let ctx = || format!("{f} features x {n} rows, batch {bs}, weights {}", full.weights.is_some());
    if batch.n_rows != bs || batch.n_features != f || batch.weights.is_some() != full.weights.is_some() {
        c.fail("a batch buffer has the wrong shape", ctx());
        return;
    }
    let rounds = 1 + 6000 / bs;
    let mut counts = vec![0u64; n];
    // by position in the batch and by successive draw
    let mut first = vec![0u64; n];
    let mut last = vec![0u64; n];
    let mut pairs = vec![0u64; if n <= 300 { n * n } else { 0 }];
    let mut prev = None;
    let mut rng = Rng::with_seed(c.rng.u64(..));
    for round in 0..rounds {
        batch.resample_from(&full, &mut rng);
        c.eval();
        if batch.n_rows != bs || batch.y.len() != bs || batch.x.dim() != (f, bs) {
            c.fail("resampling changes the size of a batch", ctx());
            return;
        }
        for i in 0..bs {
            let k = batch.y_slice()[i].f() - 100.0;
            if !(k >= 0.0 && k < n as f64 && k.fract() == 0.0) {
                c.fail("a batch row has a target of no source row", format!("{k}: {}", ctx()));
                return;
            }
            let k = k as usize;
            let xs = batch.x.as_slice().expect("batch features are contiguous");
            let same = (0..f).all(|j| key(batch.x[[j, i]]) == key(full.x[[j, k]]) && key(xs[j * bs + i]) == key(full.x[[j, k]]))
                && match (batch.weights_slice(), full.weights_slice()) {
                    (Some(a), Some(b)) => key(a[i]) == key(b[k]),
                    (None, None) => true,
                    _ => false,
                };
            if !same {
                c.fail("a batch row is not a copy of one source row", format!("round {round} row {i} from {k}: {}", ctx()));
                return;
            }
            counts[k] += 1;
            if i == 0 {
                first[k] += 1;
            }
            if i + 1 == bs {
                last[k] += 1;
            }
            if let (Some(p), true) = (prev, n <= 300) {
                pairs[p * n + k] += 1;
            }
            prev = Some(k);
        }
    }
    let mut uniform = |v: &[u64], what: &str| {
        let total: u64 = v.iter().sum();
        // rows next to each other are pooled until they are frequent enough
        let pool = if total == 0 { return } else { (30 * v.len()).div_ceil(total as usize).max(1) };
        let share = |b: &[u64]| total as f64 * b.len() as f64 / v.len() as f64;
        if v.len() < 2 * pool {
            return;
        }
        let z = v.chunks(pool).map(|b| {
            let e = share(b);
            (b.iter().sum::<u64>() as f64 - e).abs() / (e * (1.0 - e / total as f64)).sqrt().max(3.0)
        });
        let z = z.fold(0.0, f64::max);
        let chi: f64 = v.chunks(pool).map(|b| (b.iter().sum::<u64>() as f64 - share(b)).powi(2) / share(b)).sum();
        let v: Vec<u64> = v.chunks(pool).map(|b| b.iter().sum()).collect();
        let dof = v.len() as f64 - 1.0;
        c.count("row frequencies judged", v.len() as u64);
        if z > 7.5 || chi > dof + 8.0 * (2.0 * dof).sqrt() + 40.0 {
            c.fail(
                "source rows are not equally likely in batches",
                format!("{what}: {v:?} of {total}, chi2 {chi:.1} for {dof}: {}", ctx()),
            );
        }
    };
    uniform(&counts, "all positions");
    uniform(&first, "first position");
    uniform(&last, "last position");
    uniform(&pairs, "successive rows");
    c.count("batches drawn", rounds as u64);
    let same = full.x.iter().zip(before.x.iter()).all(|(a, b)| key(*a) == key(*b))
        && full.y == before.y
        && full.weights == before.weights
        && full.variable_names == before.variable_names
        && full.n_rows == before.n_rows;
    if !same {
        c.fail("resampling modified the source dataset", ctx());
    }
    c.distinct(hash_of(&(f, n, bs, counts)));
    c.sample(ctx);
}

/// A search cannot tell the memory layout of its data.
fn p15_search<T: Num, O: OperatorSet<T = T> + Send + Sync, const D: usize>(c: &mut Case) {
    let s = gen_search::<T, O, D>(&mut c.rng);
    let (x, how_x) = lay2(&mut c.rng, &s.data.x);
    let (y, how_y) = lay1(&mut c.rng, &s.data.y);
    let w = s.data.weights.as_ref().map(|w| lay1(&mut c.rng, w).0);
    let d = Dataset::with_weights_and_names(x, y, w, Vec::new());
    let mut a = SearchEngine::<T, O, D>::new(s.data.clone(), s.options.clone());
    let mut b = SearchEngine::<T, O, D>::new(d, s.options.clone());
    a.step(3);
    b.step(3);
    c.eval();
    c.count("searches on rearranged memory", 1);
    c.distinct(hash_of(&(how_x, how_y, s.options.seed)));
    if print_engine(&a) != print_engine(&b) {
        c.fail("the memory layout of the data changes a search", format!("x {how_x}, y {how_y}"));
    }
}

/// Every cycle of a search with batches works on freshly drawn rows, the optimiser on others.
fn p15_live(c: &mut Case) {
    let n = 30 + c.rng.usize(..40);
    let bs = 6 + c.rng.usize(..60);
    let nf = 1 + c.rng.usize(..2);
    let x = Array2::from_shape_fn((nf, n), |(_, r)| MARK + r as f64);
    let y = Array1::from_vec((0..n).map(|_| c.rng.f64()).collect());
    let w = c.rng.bool().then(|| Array1::from_vec((0..n).map(|_| 0.5 + c.rng.f64()).collect()));
    let ops = all_ops::<Tapping>(2);
    let optimizing = c.rng.bool();
    let o = Options::<f64, 2> {
        operators: operators_from(&ops),
        progress: false,
        seed: c.rng.u64(..),
        populations: 1,
        population_size: 4 + c.rng.usize(..12),
        niterations: 8,
        ncycles_per_iteration: 1 + c.rng.usize(..4),
        tournament_selection_n: 2,
        maxsize: 9,
        batching: true,
        batch_size: bs,
        should_simplify: c.rng.bool(),
        should_optimize_constants: optimizing,
        optimizer_probability: 1.0,
        ..Default::default()
    };
    let mut o = o;
    o.mutation_weights.optimize = 0.0;
    let ctx = format!("{n} rows, batches of {bs}, seed {}, optimizing {optimizing}", o.seed);
    let mut e = SearchEngine::<f64, Tapping, 2>::new(Dataset::with_weights_and_names(x, y, w, Vec::new()), o);
    let mut counts = vec![0u64; n];
    let mut drawn = 0u64;
    let mut last: Vec<u32> = Vec::new();
    loop {
        ROWS_SEEN.with(|r| r.borrow_mut().clear());
        if e.step(1) == 0 {
            break;
        }
        let seen = ROWS_SEEN.with(|r| r.take());
        let mut batches: Vec<&[u32]> = Vec::new();
        let mut i = 0;
        while i < seen.len() {
            if i + n <= seen.len() && (0..n).all(|k| seen[i + k] as usize == k) {
                i += n;
                continue;
            }
            if i + bs > seen.len() || seen[i..i + bs].iter().any(|&r| r as usize >= n) {
                c.fail("an evaluation saw neither the dataset nor a batch of the configured size", format!("{ctx}: {:?}", &seen[i..]));
                return;
            }
            let b = &seen[i..i + bs];
            if batches.last() != Some(&b) {
                batches.push(b);
            }
            i += bs;
        }
        c.eval();
        if batches.len() > 1 + optimizing as usize {
            c.fail("the batch changes within a phase of a cycle", format!("{ctx}: {} batches", batches.len()));
            return;
        }
        c.count("cycles that optimise on another batch", (batches.len() == 2) as u64);
        for b in batches {
            if b == &last[..] {
                c.fail("a batch is used for more than one phase", format!("{ctx}: {b:?}"));
                return;
            }
            last = b.to_vec();
            drawn += 1;
            for &r in b {
                counts[r as usize] += 1;
            }
        }
    }
    c.count("batches seen in searches", drawn);
    let total = (drawn * bs as u64) as f64;
    let (mean, sd) = (total / n as f64, (total / n as f64 * (1.0 - 1.0 / n as f64)).sqrt());
    if total > 0.0 && counts.iter().any(|&k| k as f64 > mean + 9.0 * sd + 9.0) {
        c.fail("batches of a search prefer some rows", format!("{ctx}: {counts:?}"));
    }
    c.distinct(hash_of(&(n, bs, counts)));
}

pub fn p15(m: &Mon) {
    m.rule("distinct (layout, shape) datasets, batch sequences and searches; every element compared with the source, row frequencies judged at 7.5 standard deviations");
    m.require("datasets built", 1000);
    m.require("batches drawn", 10_000);
    m.require("row frequencies judged", 1000);
    m.require("searches on rearranged memory", 50);
    let n = m.scale(20_000, 400_000);
    m.cases("layout64", n, p15_layout::<f64>);
    m.cases("layout32", n, p15_layout::<f32>);
    let n = m.scale(600, 10_000);
    m.cases("batch64", n, p15_batch::<f64>);
    m.cases("batch32", n / 2, p15_batch::<f32>);
    let n = m.scale(200, 4000);
    m.cases("search64", n, p15_search::<f64, BuiltinOpsF64, 3>);
    m.cases("search32", n / 2, p15_search::<f32, BuiltinOpsF32, 2>);
    m.cases("search-mixed", n / 2, p15_search::<f64, Mix4, 4>);
    m.require("batches seen in searches", 1000);
    m.require("cycles that optimise on another batch", 200);
    m.cases("live", m.scale(600, 6000), p15_live);
}
