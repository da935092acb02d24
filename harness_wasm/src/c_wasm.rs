//! P19: tables, column selection, splits, metrics, options and reports of the browser interface.
use crate::ast::*;
use crate::common::*;
use crate::gen::sized;
use crate::spec;
use dynamic_expressions::operator_enum::presets::BuiltinOpsF64;
use dynamic_expressions::strings::{string_tree, StringTreeOptions};
use dynamic_expressions::{compile_plan, eval_plan_array_into, EvalOptions, OpId, OperatorSet};
use ndarray::{Array1, Array2};
use serde_json::{json, Value};
use symbolic_regression::{Dataset, LossKind, Operators, Options};
use symbolic_regression_wasm::verif as w;
use symbolic_regression_wasm::WasmSearchOptions;
#[cfg(sr_verif_host)]
use symbolic_regression_wasm::{
    builtin_operator_registry, default_core_options, default_search_options, host::JsValue, EquationSummary, SearchSnapshot, WasmEvalResult, WasmOpInfo, WasmSearch,
    WasmSplitIndices,
};

fn gen_number(rng: &mut Rng) -> f64 {
    match rng.u8(..10) {
        0 => 0.0,
        1 => rng.i32(-9..10) as f64,
        2 => rng.i32(..) as f64,
        3 => f64::from_bits(rng.u64(..) & !(1 << 62)), // tiny to huge, finite
        4 => 1e300 * rng.f64(),
        5 => 1e-300 * rng.f64(),
        _ => (rng.f64() - 0.5) * 20.0,
    }
}

/// One of the ways of writing a number in a table.
fn write_number(rng: &mut Rng, v: f64) -> String {
    let mut s = match rng.u8(..5) {
        0 => format!("{v:e}"),
        1 => format!("{v:E}"),
        2 if v.abs() < 1e15 && v.fract() == 0.0 => format!("{v:.0}"),
        3 if v.abs() < 1e15 && v.fract() == 0.0 => format!("{v:.0}."),
        _ => format!("{v:?}"),
    };
    if v >= 0.0 && !s.starts_with('-') && rng.u8(..8) == 0 {
        s.insert(0, '+');
    }
    if rng.u8(..8) == 0 && !s.contains(['e', 'E']) && s.contains('.') {
        s.push_str("00");
    }
    s
}

fn decorate(rng: &mut Rng, s: &str) -> String {
    match rng.u8(..10) {
        0 => format!(" {s}"),
        1 => format!("{s}\t "),
        2 => format!("\"{s}\""),
        3 => format!("\" {s} \""),
        4 => format!("  {s}  "),
        _ => s.to_string(),
    }
}

fn gen_name(rng: &mut Rng, i: usize) -> (String, String) {
    // (name, as written)
    match rng.u8(..10) {
        0 => (format!("a,b{i}"), format!("\"a,b{i}\"")),
        1 => (format!("say \"{i}\""), format!("\"say \"\"{i}\"\"\"")),
        2 => (format!("two words {i}"), format!(" two words {i} ")),
        3 => (format!("größe{i}"), format!("größe{i}")),
        4 => (format!("line\nbreak{i}"), format!("\"line\nbreak{i}\"")),
        5 => ("same".into(), "same".into()),
        6 => (format!("{i}"), format!("{i}")),
        7 => (format!("Ab{i}C"), format!("Ab{i}C")),
        _ => (format!("c{i}"), format!("c{i}")),
    }
}

struct Table {
    text: String,
    headers: Vec<String>,
    rows: Vec<Vec<f64>>,
    has_headers: bool,
}

fn gen_table(rng: &mut Rng) -> Table {
    let n_cols = sized(rng, 1..7, 24, 7..1200);
    let n_rows = if n_cols < 7 { sized(rng, 0..12, 24, 12..3000) } else { rng.usize(..6) };
    let has_headers = rng.bool();
    let eol = ["\n", "\r\n"][rng.usize(..2)];
    let mut text = String::new();
    let mut headers = Vec::new();
    if has_headers {
        let mut cells = Vec::new();
        for i in 0..n_cols {
            let (n, s) = gen_name(rng, i);
            headers.push(n);
            cells.push(s);
        }
        text.push_str(&cells.join(","));
        text.push_str(eol);
    }
    let mut rows = Vec::new();
    for _ in 0..n_rows {
        let row: Vec<f64> = (0..n_cols).map(|_| gen_number(rng)).collect();
        let cells: Vec<String> = row
            .iter()
            .map(|&v| {
                let s = write_number(rng, v);
                decorate(rng, &s)
            })
            .collect();
        text.push_str(&cells.join(","));
        text.push_str(eol);
        if rng.u8(..12) == 0 {
            text.push_str(eol); // blank lines are no records
        }
        rows.push(row);
    }
    if rng.u8(..3) == 0 {
        // no newline at the end
        while text.ends_with(['\n', '\r']) {
            text.pop();
        }
    }
    Table {
        text,
        headers,
        rows,
        has_headers,
    }
}

fn same_rows(a: &[Vec<f64>], b: &[Vec<f64>]) -> bool {
    a.len() == b.len()
        && a.iter()
            .zip(b)
            .all(|(x, y)| x.len() == y.len() && x.iter().zip(y).all(|(p, q)| p.same(*q) || p == q))
}

fn csv(c: &mut Case) {
    let t = gen_table(&mut c.rng);
    c.eval();
    match w::parse_csv(&t.text, t.has_headers) {
        Ok((h, r)) => {
            if h != t.headers {
                c.fail("column names changed", format!("{:?} read as {h:?}\n{}", t.headers, t.text));
            }
            if !same_rows(&r, &t.rows) {
                c.fail("numbers changed", format!("{:?} read as {r:?}\n{}", t.rows, t.text));
            }
            if !t.rows.is_empty() {
                c.distinct(hash_of(&t.text));
                c.count("tables_read", 1);
                c.count("cells_read", r.iter().map(|r| r.len() as u64).sum());
            }
        }
        Err(e) => c.fail("well-formed table refused", format!("{e}\n{}", t.text)),
    }
    // special values
    for (s, v) in [("NaN", f64::NAN), ("inf", f64::INFINITY), ("-inf", f64::NEG_INFINITY)] {
        if let Ok((_, r)) = w::parse_csv(&format!("1,{s}\n"), false) {
            if r.len() != 1 || r[0].len() != 2 || !(r[0][1] == v || (r[0][1].is_nan() && v.is_nan())) {
                c.fail("numbers changed", format!("{s} read as {r:?}"));
            }
        }
    }
}

/// One cell or row of a good table is damaged.
fn bad_csv(c: &mut Case) {
    let rng = &mut c.rng;
    let n_cols = 2 + rng.usize(..4);
    let n_rows = 2 + rng.usize(..8);
    let has_headers = rng.bool();
    let mut cells: Vec<Vec<String>> = (0..n_rows)
        .map(|_| {
            (0..n_cols)
                .map(|_| {
                    let v = gen_number(rng);
                    write_number(rng, v)
                })
                .collect()
        })
        .collect();
    if has_headers {
        cells.insert(0, (0..n_cols).map(|i| format!("h{i}")).collect());
    }
    let first = has_headers as usize;
    let row = first + rng.usize(..n_rows);
    let col = rng.usize(..n_cols);
    let what = rng.u8(..6);
    match what {
        0 => cells[row][col] = ["abc", "1.2.3", "--1", "1e", "0x10", "1 2", "1_000", "NA", "null", "1,5"][rng.usize(..9)].into(),
        1 => cells[row][col] = String::new(),
        2 => {
            cells[row].remove(col);
        }
        3 => cells[row].push("7".into()),
        4 => cells[row][col] = "\"\"".into(),
        _ => {
            cells[row].truncate(1);
        }
    }
    let text: String = cells.iter().map(|r| r.join(",") + "\n").collect();
    c.eval();
    // The whole pipeline must refuse it; where exactly is not prescribed.
    let opts = WasmSearchOptions {
        has_headers,
        ..Default::default()
    };
    if let Ok((h, r)) = w::parse_csv(&text, has_headers) {
        if w::full_dataset(&h, &r, &opts).is_ok() {
            c.fail("malformed table accepted", format!("damage {what} at row {row} column {col}:\n{text}"));
        }
    }
    c.count("malformed_tables_refused", 1);
    c.distinct(hash_of(&text));
}

/// What the columns stand for: Ok((x columns, y, weights)) or Err.
fn expected_columns(o: &WasmSearchOptions, n: usize) -> Result<(Vec<usize>, usize, Option<usize>), ()> {
    if n < 2 {
        return Err(());
    }
    let y = o.y_column.unwrap_or(n - 1);
    if y >= n {
        return Err(());
    }
    if let Some(wc) = o.weights_column {
        if wc >= n || wc == y {
            return Err(());
        }
    }
    let mut x = match &o.x_columns {
        Some(v) => v.clone(),
        None => (0..n).filter(|c| *c != y && Some(*c) != o.weights_column).collect(),
    };
    x.sort();
    x.dedup();
    if x.is_empty() || x.iter().any(|c| *c >= n || *c == y || Some(*c) == o.weights_column) {
        return Err(());
    }
    Ok((x, y, o.weights_column))
}

fn gen_columns(rng: &mut Rng, o: &mut WasmSearchOptions, n_cols: usize) {
    let any = |rng: &mut Rng| {
        let beyond = (rng.u8(..8) == 0) as usize * 2;
        rng.usize(..n_cols + beyond)
    };
    o.y_column = rng.bool().then(|| any(rng));
    o.weights_column = (rng.u8(..3) == 0).then(|| any(rng));
    if rng.bool() {
        let k = rng.usize(..4);
        o.x_columns = Some((0..k).map(|_| any(rng)).collect());
    }
    if rng.bool() {
        // repaired to a consistent choice most of the time
        let y = o.y_column.unwrap_or(n_cols.saturating_sub(1));
        if o.weights_column == Some(y) {
            o.weights_column = None;
        }
        let wc = o.weights_column;
        if let Some(x) = &mut o.x_columns {
            x.retain(|c| *c != y && Some(*c) != wc && *c < n_cols);
        }
    }
}

fn column_mapping(c: &mut Case) {
    let rng = &mut c.rng;
    let n_cols = sized(rng, 1..8, 24, 8..600);
    let n_rows = if rng.u8(..12) == 0 { 0 } else { sized(rng, 1..10, 24, 10..400) };
    let mut rows: Vec<Vec<f64>> = (0..n_rows).map(|_| (0..n_cols).map(|_| gen_number(rng)).collect()).collect();
    let mut ragged = false;
    if n_rows > 0 && rng.u8(..12) == 0 {
        let r = rng.usize(..n_rows);
        if rng.bool() {
            rows[r].push(1.0);
        } else {
            rows[r].pop();
        }
        ragged = n_rows > 1;
        if n_rows == 1 && rows[0].is_empty() {
            return;
        }
    }
    let n_cols = rows.first().map_or(n_cols, |r| r.len());
    let headers: Vec<String> = match rng.u8(..4) {
        0 => Vec::new(),
        1 if n_cols > 1 => (0..n_cols - 1).map(|i| format!("h{i}")).collect(),
        _ => (0..n_cols).map(|i| format!("h{i}")).collect(),
    };
    let mut o = WasmSearchOptions {
        has_headers: rng.u8(..4) != 0,
        ..Default::default()
    };
    gen_columns(rng, &mut o, n_cols.max(1));
    let want = if ragged || n_rows == 0 { Err(()) } else { expected_columns(&o, n_cols) };
    c.eval();
    let got = w::full_dataset(&headers, &rows, &o);
    let what = format!(
        "x_columns {:?} y_column {:?} weights_column {:?} has_headers {} headers {headers:?} rows {rows:?}",
        o.x_columns, o.y_column, o.weights_column, o.has_headers
    );
    match (want, got) {
        (Err(()), Err(_)) => {
            c.count("inconsistent_choices_refused", 1);
        }
        (Err(()), Ok(_)) => c.fail("inconsistent choice accepted", what),
        (Ok(_), Err(e)) => c.fail("consistent choice refused", format!("{e}: {what}")),
        (Ok((x, y, wc)), Ok((d, names, wt))) => {
            let names_want: Vec<String> = if o.has_headers && headers.len() == n_cols {
                x.iter().map(|&c| headers[c].clone()).collect()
            } else {
                (0..x.len()).map(|i| format!("x{i}")).collect()
            };
            let shape = d.x.dim() == (x.len(), n_rows) && d.y.len() == n_rows && d.n_features == x.len() && d.n_rows == n_rows;
            if !shape {
                c.fail("wrong shape", format!("{:?}: {what}", d.x.dim()));
                return;
            }
            for (r, row) in rows.iter().enumerate() {
                for (j, &col) in x.iter().enumerate() {
                    if !d.x[[j, r]].same(row[col]) {
                        c.fail("wrong feature value", format!("feature {j} row {r}: {} instead of {}: {what}", d.x[[j, r]], row[col]));
                    }
                }
                if !d.y[r].same(row[y]) {
                    c.fail("wrong target value", format!("row {r}: {} instead of {}: {what}", d.y[r], row[y]));
                }
                if let (Some(wc), Some(wt)) = (wc, &wt) {
                    if !wt[r].same(row[wc]) {
                        c.fail("wrong weight", format!("row {r}: {} instead of {}: {what}", wt[r], row[wc]));
                    }
                }
            }
            if wc.is_some() != wt.is_some() || wt.as_ref().is_some_and(|v| v.len() != n_rows) {
                c.fail("wrong weight", format!("weights {wt:?}: {what}"));
            }
            if names != names_want || d.variable_names != names_want {
                c.fail("wrong names", format!("{names:?} / {:?} instead of {names_want:?}: {what}", d.variable_names));
            }
            c.count("datasets_mapped", 1);
            c.distinct(hash_of(&(x, y, wc, n_rows, n_cols)));
        }
    }
}

fn split(c: &mut Case) {
    let rng = &mut c.rng;
    let n_rows = match rng.u8(..6) {
        0 => rng.usize(..3),
        1 => rng.usize(..2000),
        _ => 1 + rng.usize(..60),
    };
    let vf = match rng.u8(..12) {
        0 => 0.0,
        1 => 0.9,
        2 => 1.0,
        3 => -0.5,
        4 => 7.0,
        5 => f64::NAN,
        6 => f64::INFINITY,
        7 => 0.5,
        8 => 1.0 / n_rows.max(1) as f64,
        _ => rng.f64(),
    };
    let seed = if rng.bool() { rng.u64(..4) } else { rng.u64(..) };
    let s = w::split_indices(n_rows, vf, seed);
    c.eval();
    let what = format!("{n_rows} rows, fraction {vf}, seed {seed}: train {:?} val {:?}", s.train, s.val);
    let mut seen = vec![0u8; n_rows];
    for &i in s.train.iter().chain(&s.val) {
        if i >= n_rows {
            c.fail("row that does not exist", what.clone());
            return;
        }
        seen[i] += 1;
    }
    if seen.iter().any(|k| *k != 1) {
        c.fail("not a partition", what.clone());
    }
    if n_rows > 0 && s.train.is_empty() {
        c.fail("empty training set", what.clone());
    }
    let f = if vf.is_nan() { 0.0 } else { vf.clamp(0.0, 0.9) };
    let exact = f * n_rows as f64;
    let most = n_rows.saturating_sub(1);
    let nearest: Vec<usize> = [exact.floor(), exact.ceil()]
        .into_iter()
        .filter(|k| (k - exact).abs() <= 0.5 + 1e-9)
        .map(|k| (k as usize).min(most))
        .collect();
    if !nearest.contains(&s.val.len()) {
        c.fail("wrong validation size", what.clone());
    }
    let again = w::split_indices(n_rows, vf, seed);
    if again.train != s.train || again.val != s.val {
        c.fail("split not reproducible", what.clone());
    }
    if !s.val.is_empty() {
        c.count("splits_with_validation", 1);
        c.distinct(hash_of(&(&s.train, &s.val)));
    }
    // the rows that are copied
    if n_rows > 0 && n_rows < 200 {
        let nf = 1 + c.rng.usize(..3);
        let x = Array2::from_shape_fn((nf, n_rows), |(j, i)| (1000 * j + i) as f64 + 0.25);
        let y = Array1::from_shape_fn(n_rows, |i| -(i as f64) - 0.5);
        let wt = c.rng.bool().then(|| Array1::from_shape_fn(n_rows, |i| 1.0 + i as f64 * 0.125));
        let names: Vec<String> = (0..nf).map(|j| format!("n{j}")).collect();
        let full = Dataset::with_weights_and_names(x.clone(), y.clone(), None, names.clone());
        match w::split(&full, wt.as_ref(), &names, &s) {
            Err(e) => c.fail("split refused", format!("{e}: {what}")),
            Ok((train, val)) => {
                if val.is_some() == s.val.is_empty() {
                    c.fail("validation set presence", what.clone());
                }
                for (part, idx) in [(Some(&train), &s.train), (val.as_ref(), &s.val)] {
                    let Some(d) = part else { continue };
                    let mut ok = d.x.dim() == (nf, idx.len())
                        && d.n_rows == idx.len()
                        && d.n_features == nf
                        && d.y.len() == idx.len()
                        && d.weights.is_some() == wt.is_some()
                        && d.variable_names == names;
                    if ok {
                        for (k, &i) in idx.iter().enumerate() {
                            ok &= (0..nf).all(|j| d.x[[j, k]] == x[[j, i]]) && d.y[k] == y[i];
                            if let (Some(a), Some(b)) = (&d.weights, &wt) {
                                ok &= a[k] == b[i];
                            }
                        }
                    }
                    if !ok {
                        c.fail("rows changed by the split", format!("{what}: x {:?} y {:?} weights {:?} names {:?}", d.x, d.y, d.weights, d.variable_names));
                    }
                    c.count("rows_compared", idx.len() as u64);
                }
            }
        }
    }
}

/// Which rows are held out varies with the seed and favours none.
fn split_spread(c: &mut Case) {
    let n = 5 + c.rng.usize(..30);
    let vf = 0.1 + 0.6 * c.rng.f64();
    let base = c.rng.u64(..);
    let trials = 3000u64;
    let mut hits = vec![0u64; n];
    let mut k = 0;
    let mut variants = std::collections::HashSet::new();
    for s in 0..trials {
        let sp = w::split_indices(n, vf, base.wrapping_add(s));
        k = sp.val.len();
        for &i in &sp.val {
            hits[i] += 1;
        }
        variants.insert(sp.val);
    }
    c.evals(trials);
    if k == 0 {
        return;
    }
    let p = k as f64 / n as f64;
    let sd = (trials as f64 * p * (1.0 - p)).sqrt();
    for (i, h) in hits.iter().enumerate() {
        if (*h as f64 - trials as f64 * p).abs() > 7.0 * sd + 1.0 {
            c.fail("rows held out unevenly", format!("row {i} of {n} held out {h} times in {trials} splits of {k} rows"));
        }
    }
    c.count("distinct_splits_over_seeds", variants.len() as u64);
}

fn metrics(c: &mut Case) {
    let rng = &mut c.rng;
    let n = match rng.u8(..8) {
        0 => 1,
        1 => 2,
        _ => 1 + rng.usize(..40),
    };
    let scale = 10f64.powi(rng.i32(-6..7));
    let shift = if rng.u8(..4) == 0 { scale * 3.0 } else { 0.0 };
    let y: Vec<f64> = match rng.u8(..6) {
        0 => vec![2.0; n],
        _ => (0..n).map(|_| (rng.f64() - 0.5) * scale + shift).collect(),
    };
    let yhat: Vec<f64> = match rng.u8(..6) {
        0 => y.clone(),
        1 => vec![1.0; n],
        2 => y.iter().map(|v| -2.0 * v + 1.0).collect(),
        _ => y.iter().map(|v| v + (rng.f64() - 0.5) * scale).collect(),
    };
    let wt: Option<Vec<f64>> = match rng.u8(..5) {
        0 => Some(vec![0.0; n]),
        1 | 2 => Some((0..n).map(|_| if rng.u8(..5) == 0 { 0.0 } else { 3.0 * rng.f64() }).collect()),
        _ => None,
    };
    let d = Dataset::with_weights_and_names(
        Array2::zeros((1, n)),
        Array1::from_vec(y.clone()),
        wt.clone().map(Array1::from_vec),
        vec!["x".into()],
    );
    c.eval();
    let m = w::metrics(&yhat, &d);
    let what = format!("yhat {yhat:?} y {y:?} weights {wt:?}: {m:?}");
    let one = vec![1.0; n];
    let ws = wt.as_ref().unwrap_or(&one);
    let sw: f64 = ws.iter().sum();
    let mean = |f: &dyn Fn(usize) -> f64| if sw > 0.0 { (0..n).map(|i| ws[i] * f(i)).sum::<f64>() / sw } else { 0.0 };
    let mse = mean(&|i| (yhat[i] - y[i]).powi(2));
    let mae = mean(&|i| (yhat[i] - y[i]).abs());
    let near = |a: f64, b: f64, tol: f64| (a - b).abs() <= tol || a == b;
    let rel = |v: f64| 1e-10 * v.abs() + 1e-300;
    let mut bad = |k: &str, got: f64, want: f64, tol: f64| {
        if !near(got, want, tol) {
            c.fail(format!("metric {k}"), format!("{got} instead of {want}: {what}"));
        }
    };
    bad("n", m.n as f64, n as f64, 0.0);
    bad("mse", m.mse, mse, rel(mse));
    bad("mae", m.mae, mae, rel(mae));
    bad("rmse", m.rmse, mse.sqrt(), rel(mse.sqrt()));
    let errs: Vec<f64> = (0..n).map(|i| (yhat[i] - y[i]).abs()).collect();
    bad("min_abs_err", m.min_abs_err, errs.iter().copied().fold(f64::INFINITY, f64::min), 0.0);
    bad("max_abs_err", m.max_abs_err, errs.iter().copied().fold(0.0, f64::max), 0.0);
    let wy = mean(&|i| y[i]);
    let sse: f64 = (0..n).map(|i| ws[i] * (yhat[i] - y[i]).powi(2)).sum();
    let sst: f64 = (0..n).map(|i| ws[i] * (y[i] - wy).powi(2)).sum();
    let syy: f64 = (0..n).map(|i| ws[i] * y[i] * y[i]).sum();
    let mut judged = 0;
    if sst == 0.0 && (y.iter().all(|v| *v == y[0]) || sw == 0.0) {
        bad("r2", m.r2, 0.0, 0.0);
        judged += 1;
    } else if sst > 1e-6 * syy {
        bad("r2", m.r2, 1.0 - sse / sst, 1e-8 * (1.0 + sse / sst));
        judged += 1;
    }
    let my = y.iter().sum::<f64>() / n as f64;
    let mh = yhat.iter().sum::<f64>() / n as f64;
    let vy: f64 = y.iter().map(|v| (v - my).powi(2)).sum();
    let vh: f64 = yhat.iter().map(|v| (v - mh).powi(2)).sum();
    let cov: f64 = (0..n).map(|i| (y[i] - my) * (yhat[i] - mh)).sum();
    let flat = |v: &[f64]| v.iter().all(|a| *a == v[0]) && (v[0] == 1.0 || v[0] == 2.0 || v.len() == 1);
    if flat(&y) || flat(&yhat) {
        bad("corr", m.corr, 0.0, 0.0);
        judged += 1;
    } else if vy > 1e-6 * y.iter().map(|v| v * v).sum::<f64>() && vh > 1e-6 * yhat.iter().map(|v| v * v).sum::<f64>() {
        bad("corr", m.corr, cov / (vy * vh).sqrt(), 1e-8);
        judged += 1;
    }
    c.count("r2_and_corr_judged", judged);
    c.distinct(hash_of(&what));
    // nothing to score
    let empty = Dataset::with_weights_and_names(Array2::zeros((1, 0)), Array1::zeros(0), None, vec!["x".into()]);
    let e = w::metrics(&[], &empty);
    if e.n != 0 || !e.r2.is_nan() || !e.corr.is_nan() {
        c.fail("metrics of nothing", format!("{e:?}"));
    }
}

trait Pick: Sized + PartialEq + std::fmt::Debug {
    fn pick(rng: &mut Rng) -> (Self, Value);
}
impl Pick for u64 {
    fn pick(rng: &mut Rng) -> (Self, Value) {
        let v = if rng.bool() { rng.u64(..) } else { rng.u64(..10) };
        (v, json!(v))
    }
}
impl Pick for usize {
    fn pick(rng: &mut Rng) -> (Self, Value) {
        let v = rng.usize(..100_000);
        (v, json!(v))
    }
}
impl Pick for u16 {
    fn pick(rng: &mut Rng) -> (Self, Value) {
        let v = rng.u16(..);
        (v, json!(v))
    }
}
impl Pick for f32 {
    fn pick(rng: &mut Rng) -> (Self, Value) {
        let v = (rng.u32(..4096) as f32) / 4096.0;
        (v, json!(v as f64))
    }
}
impl Pick for f64 {
    fn pick(rng: &mut Rng) -> (Self, Value) {
        let v = rng.f64() * 10.0;
        (v, json!(v))
    }
}
impl Pick for bool {
    fn pick(rng: &mut Rng) -> (Self, Value) {
        let v = rng.bool();
        (v, json!(v))
    }
}

type Checks = Vec<Box<dyn Fn(&Options<f64, 3>) -> Option<String>>>;

macro_rules! core_fields {
    ($rng:expr, $obj:expr, $checks:expr, $p:expr; $($name:ident: $ty:ty = $default:expr,)*) => {
        $({
            let set = $rng.f64() < $p;
            let (v, j) = <$ty as Pick>::pick($rng);
            let want: $ty = if set { $obj.insert(stringify!($name).into(), j); v } else { $default };
            $checks.push(Box::new(move |o: &Options<f64, 3>| {
                (o.$name != want).then(|| format!("{}: {:?} instead of {:?} ({})", stringify!($name), o.$name, want, if set { "set" } else { "left at its default" }))
            }));
        })*
    };
}

macro_rules! weight_fields {
    ($rng:expr, $obj:expr, $checks:expr, $p:expr; $($name:ident = $default:expr,)*) => {
        $({
            let set = $rng.f64() < $p;
            let (v, j) = <f64 as Pick>::pick($rng);
            let want: f64 = if set { $obj.insert(stringify!($name).into(), j); v } else { $default };
            $checks.push(Box::new(move |o: &Options<f64, 3>| {
                (o.mutation_weights.$name != want).then(|| format!("mutation_weights.{}: {:?} instead of {:?}", stringify!($name), o.mutation_weights.$name, want))
            }));
        })*
    };
}

/// Options arrive as a JSON-like object with any subset of the fields.
fn options(c: &mut Case) {
    let rng = &mut c.rng;
    let mut obj = serde_json::Map::new();
    let mut checks: Checks = Vec::new();
    let p = [0.0, 0.1, 0.5, 1.0][rng.usize(..4)];
    core_fields!(rng, obj, checks, p;
        seed: u64 = 0, niterations: usize = 100, populations: usize = 31, population_size: usize = 27,
        ncycles_per_iteration: usize = 380, batch_size: usize = 50, complexity_of_constants: u16 = 1,
        complexity_of_variables: u16 = 1, maxsize: usize = 30, maxdepth: usize = 30, warmup_maxsize_by: f32 = 0.0,
        parsimony: f64 = 0.0, adaptive_parsimony_scaling: f64 = 1040.0, crossover_probability: f64 = 0.0259,
        perturbation_factor: f64 = 0.129, probability_negate_constant: f64 = 0.00743, tournament_selection_n: usize = 15,
        tournament_selection_p: f32 = 0.982, alpha: f64 = 3.17, optimizer_nrestarts: usize = 2,
        optimizer_probability: f64 = 0.14, optimizer_iterations: usize = 8, optimizer_f_calls_limit: usize = 10_000,
        fraction_replaced: f64 = 0.00036, fraction_replaced_hof: f64 = 0.0614, fraction_replaced_guesses: f64 = 0.001,
        topn: usize = 12, use_frequency: bool = true, use_frequency_in_tournament: bool = true,
        skip_mutation_failures: bool = true, annealing: bool = true, should_optimize_constants: bool = true,
        migration: bool = true, hof_migration: bool = true, use_baseline: bool = true, should_simplify: bool = true,
        batching: bool = false,
    );
    if rng.bool() {
        let mut wobj = serde_json::Map::new();
        weight_fields!(rng, wobj, checks, p;
            mutate_constant = 0.0346, mutate_operator = 0.293, mutate_feature = 0.1, swap_operands = 0.198,
            rotate_tree = 4.26, add_node = 2.47, insert_node = 0.0112, delete_node = 0.870, simplify = 0.00209,
            randomize = 0.000502, do_nothing = 0.273, optimize = 0.0, form_connection = 0.5, break_connection = 0.1,
        );
        obj.insert("mutation_weights".into(), Value::Object(wobj));
    }
    let mut table = Vec::new();
    if rng.bool() {
        let v = rng.bool();
        obj.insert("progress".into(), json!(v));
    }
    if rng.bool() {
        obj.insert("validation_fraction".into(), json!(0.25));
        table.push("validation_fraction");
    }
    if rng.bool() {
        obj.insert("x_columns".into(), json!([2, 0]));
        table.push("x_columns");
    }
    if rng.bool() {
        obj.insert("y_column".into(), json!(1));
        table.push("y_column");
    }
    if rng.bool() {
        obj.insert("weights_column".into(), json!(3));
        table.push("weights_column");
    }
    if rng.bool() {
        obj.insert("has_headers".into(), json!(false));
        table.push("has_headers");
    }
    let text = Value::Object(obj.clone()).to_string();
    let o: WasmSearchOptions = match serde_json::from_value(Value::Object(obj)) {
        Ok(o) => o,
        Err(e) => {
            c.fail("options refused", format!("{e}: {text}"));
            return;
        }
    };
    c.eval();
    let on = |k: &str| table.contains(&k);
    if o.validation_fraction != if on("validation_fraction") { 0.25 } else { 0.0 }
        || o.x_columns != on("x_columns").then(|| vec![2, 0])
        || o.y_column != on("y_column").then_some(1)
        || o.weights_column != on("weights_column").then_some(3)
        || o.has_headers == on("has_headers")
    {
        c.fail("table option lost", format!("{text} became {o:?}"));
    }
    let Some(opt) = w::options(&o, Operators::new()) else {
        c.fail("options refused", text);
        return;
    };
    let n = checks.len() as u64;
    for f in &checks {
        if let Some(e) = f(&opt) {
            c.fail(format!("option {}", e.split(':').next().unwrap_or("")), e);
        }
    }
    if opt.progress {
        c.fail("option progress", "progress bars on in the browser");
    }
    c.count("option_fields_compared", n);
    c.distinct(hash_of(&text));
    // the object sent to the browser comes back unchanged
    let v = serde_json::to_value(&o).unwrap();
    let back: WasmSearchOptions = match serde_json::from_value(v.clone()) {
        Ok(b) => b,
        Err(e) => {
            c.fail("own options refused", format!("{e}: {v}"));
            return;
        }
    };
    if serde_json::to_value(&back).unwrap() != v {
        c.fail("options change in transit", v.to_string());
    }
}

fn gen_kind(rng: &mut Rng, o: &mut WasmSearchOptions) -> LossKind {
    o.huber_delta = 0.2 + rng.f64() * 3.0;
    o.lp_p = 1.0 + rng.f64() * 2.0;
    o.quantile_tau = [0.02 + 0.08 * rng.f64(), 0.9 + 0.08 * rng.f64(), 0.1 + 0.8 * rng.f64()][rng.usize(..3)];
    o.epsilon_insensitive_eps = rng.f64();
    let (name, kind) = match rng.u8(..11) {
        0 => ("mae", LossKind::Mae),
        1 => ("rmse", LossKind::Rmse),
        2 => ("huber", LossKind::Huber { delta: o.huber_delta }),
        3 => ("logcosh", LossKind::LogCosh),
        4 => ("lp", LossKind::Lp { p: o.lp_p }),
        5 => ("quantile", LossKind::Quantile { tau: o.quantile_tau }),
        k @ 6..=9 => (
            ["epsilon-insensitive", "epsilon_insensitive", "eps-insensitive", "eps_insensitive"][k as usize - 6],
            LossKind::EpsilonInsensitive {
                eps: o.epsilon_insensitive_eps,
            },
        ),
        _ => ("mse", LossKind::Mse),
    };
    o.loss_kind = match rng.u8(..4) {
        0 => name.to_uppercase(),
        1 => format!(" {name}\t"),
        _ => name.to_string(),
    };
    kind
}

/// A table, a choice of its columns, options and operators.
struct Scenario {
    text: String,
    rows: Vec<Vec<f64>>,
    names: Vec<String>,
    columns: (Vec<usize>, usize, Option<usize>),
    o: WasmSearchOptions,
    kind: LossKind,
    by: [Vec<&'static str>; 3],
}

impl Scenario {
    /// The data the search must see, taken from the table itself.
    fn part(&self, idx: &[usize]) -> Dataset<f64> {
        let (xc, yc, wc) = &self.columns;
        Dataset::with_weights_and_names(
            Array2::from_shape_fn((xc.len(), idx.len()), |(j, k)| self.rows[idx[k]][xc[j]]),
            Array1::from_shape_fn(idx.len(), |k| self.rows[idx[k]][*yc]),
            wc.map(|wc| Array1::from_shape_fn(idx.len(), |k| self.rows[idx[k]][wc])),
            self.names.clone(),
        )
    }
}

fn gen_scenario(rng: &mut Rng) -> Scenario {
    let wide = if rng.u8(..6) == 0 { 14 } else { 4 };
    let n_cols = 2 + rng.usize(..wide);
    let n_rows = 2 + rng.usize(..25);
    let mut o = WasmSearchOptions {
        has_headers: rng.bool(),
        ..Default::default()
    };
    loop {
        gen_columns(rng, &mut o, n_cols);
        if expected_columns(&o, n_cols).is_ok() {
            break;
        }
    }
    let (xc, yc, wc) = expected_columns(&o, n_cols).unwrap();
    let mut rows: Vec<Vec<f64>> = (0..n_rows)
        .map(|_| (0..n_cols).map(|_| ((rng.f64() - 0.5) * 64.0).round() / 8.0).collect())
        .collect();
    let noisy = rng.u8(..3) == 0;
    for r in &mut rows {
        let v = match n_cols % 3 {
            _ if noisy => (rng.f64() - 0.5) * 8.0,
            0 => 1.5 * r[xc[0]] + 0.25,
            1 => r[xc[0]] * r[xc[xc.len() - 1]],
            _ => (r[xc[0]] / 2.0).sin(),
        };
        r[yc] = v;
        if let Some(wc) = wc {
            r[wc] = 0.125 + (rng.u8(..16) as f64) / 8.0;
        }
    }
    let mut text = String::new();
    if o.has_headers {
        text.push_str(&(0..n_cols).map(|i| format!("Col{i}q")).collect::<Vec<_>>().join(","));
        text.push('\n');
    }
    for r in &rows {
        text.push_str(&r.iter().map(|v| format!("{v}")).collect::<Vec<_>>().join(","));
        text.push('\n');
    }
    o.validation_fraction = [0.0, 0.2, 0.5, 0.95][rng.usize(..4)];
    let kind = gen_kind(rng, &mut o);
    o.core.seed = rng.u64(..);
    o.core.niterations = 1 + rng.usize(..3);
    o.core.populations = 1 + rng.usize(..3);
    o.core.population_size = 4 + rng.usize(..12);
    o.core.ncycles_per_iteration = 1 + rng.usize(..12);
    o.core.tournament_selection_n = 3;
    o.core.maxsize = 5 + rng.usize(..12);
    o.core.parsimony = [0.0, 0.01][rng.usize(..2)];
    let pool = [
        ("sin", 1), ("cos", 1), ("exp", 1), ("abs", 1), ("neg", 1), ("-", 1), ("log", 1), ("+", 2), ("-", 2), ("*", 2), ("/", 2), ("fma", 3), ("clamp", 3),
    ];
    let mut by: [Vec<&str>; 3] = Default::default();
    for (n, a) in pool {
        if rng.u8(..3) != 0 && !(n == "-" && a == 1 && by[0].contains(&"neg")) {
            by[a - 1].push(n);
        }
    }
    if by.iter().all(|v| v.is_empty()) {
        by[1].push("+");
    }
    let names = xc
        .iter()
        .enumerate()
        .map(|(j, col)| if o.has_headers { format!("Col{col}q") } else { format!("x{j}") })
        .collect();
    Scenario {
        text,
        rows,
        names,
        columns: (xc, yc, wc),
        o,
        kind,
        by,
    }
}

/// From a table to the reported equations.
fn search(c: &mut Case) {
    let s = gen_scenario(&mut c.rng);
    let Scenario { text, by, o, kind, .. } = &s;
    let (text, kind, n_cols, n_rows) = (text.clone(), *kind, s.rows[0].len(), s.rows.len());
    let want_names = s.names.clone();
    let ops = match Operators::<3>::from_names_by_arity::<BuiltinOpsF64>(&by[0], &by[1], &by[2]) {
        Ok(v) => v,
        Err(e) => {
            c.fail("operators refused", format!("{by:?}: {e}"));
            return;
        }
    };
    let allowed: Vec<OpId> = (1..=3u8)
        .flat_map(|a| {
            BuiltinOpsF64::ops_with_arity(a)
                .iter()
                .map(move |&id| OpId { arity: a, id })
                .collect::<Vec<_>>()
        })
        .filter(|op| {
            by[op.arity as usize - 1]
                .iter()
                .any(|n| *n == BuiltinOpsF64::name(*op) || *n == BuiltinOpsF64::display(*op) || BuiltinOpsF64::infix(*op) == Some(*n))
        })
        .collect();
    let Ok((headers, parsed)) = w::parse_csv(&text, o.has_headers) else {
        c.fail("well-formed table refused", text);
        return;
    };
    let Ok((all, names, weights)) = w::full_dataset(&headers, &parsed, o) else {
        c.fail("consistent choice refused", text);
        return;
    };
    let idx = w::split_indices(all.n_rows, o.validation_fraction, o.core.seed);
    let Ok((train, val)) = w::split(&all, weights.as_ref(), &names, &idx) else {
        c.fail("split refused", text);
        return;
    };
    let my_train = s.part(&idx.train);
    let my_val = val.as_ref().map(|_| s.part(&idx.val));
    let Some(opt) = w::options(o, ops) else {
        c.fail("options refused", format!("{o:?}"));
        return;
    };
    let mut engine = w::Engine::new(train, opt.clone());
    let total = engine.total_cycles();
    c.eval();
    let mut last_done = 0;
    let mut last_evals = 0;
    while !engine.is_finished() {
        let _ = engine.step(1 + c.rng.usize(..2));
        let k = if c.rng.bool() { 250 } else { c.rng.usize(..4) };
        let snap = w::search_snapshot(&engine, k);
        let mut front = engine.hall_of_fame().pareto_front();
        if front.len() > k {
            front.drain(..front.len() - k);
        }
        let got: Vec<(String, usize, u64, u64)> = snap
            .pareto_points
            .iter()
            .map(|p| (p.id.clone(), p.complexity, p.loss.to_bits(), p.cost.to_bits()))
            .collect();
        let want: Vec<(String, usize, u64, u64)> = front
            .iter()
            .map(|m| (m.id.0.to_string(), m.complexity, m.loss.to_bits(), m.cost.to_bits()))
            .collect();
        if got != want {
            c.fail("reported front", format!("{:?} instead of {want:?}", snap.pareto_points));
        }
        if snap.total_cycles != total || snap.cycles_completed != engine.cycles_completed() || snap.cycles_completed < last_done || snap.total_evals < last_evals || snap.total_evals != engine.total_evals() {
            c.fail("reported progress", format!("{} of {} cycles, {} evaluations after {last_done} cycles and {last_evals}", snap.cycles_completed, snap.total_cycles, snap.total_evals));
        }
        last_done = snap.cycles_completed;
        last_evals = snap.total_evals;
        let b = engine.best();
        if snap.best.id != b.id.0.to_string() || snap.best.complexity != b.complexity || snap.best.loss.to_bits() != b.loss.to_bits() || snap.best.cost.to_bits() != b.cost.to_bits() {
            c.fail("reported best", format!("{:?}", snap.best));
        }
        for m in front.iter().chain([b]) {
            for op in m.expr.nodes.iter().filter_map(|n| match n {
                dynamic_expressions::PNode::Op { arity, op } => Some(OpId { arity: *arity, id: *op }),
                _ => None,
            }) {
                if !allowed.contains(&op) {
                    c.fail("operator that was not chosen", format!("{}", BuiltinOpsF64::name(op)));
                }
            }
            let sum = w::summary(&engine, m);
            let text = string_tree::<f64, BuiltinOpsF64, 3>(
                &m.expr,
                StringTreeOptions {
                    variable_names: Some(&want_names),
                    pretty: false,
                },
            );
            if sum.equation != text || sum.id != m.id.0.to_string() || sum.complexity != m.complexity || sum.loss.to_bits() != m.loss.to_bits() || sum.cost.to_bits() != m.cost.to_bits() {
                c.fail("reported equation", format!("{sum:?} for {text}"));
            }
            // the id leads back to the very equation it was reported for
            let Some(f) = w::find_member(&engine, m.id.0) else {
                c.fail("reported equation cannot be found", format!("id {}", m.id.0));
                continue;
            };
            if f.expr.nodes != m.expr.nodes || f.expr.consts != m.expr.consts || f.complexity != m.complexity {
                c.fail("id leads to another equation", format!("{} instead of {text}", w::summary(&engine, &f).equation));
            }
            if m.loss.is_finite() && spec::loss_agrees::<f64, BuiltinOpsF64, 3>(&m.expr, &my_train, kind, m.loss).is_some_and(|r| r.is_err()) && !opt.batching {
                c.fail(
                    "loss is not the chosen one",
                    format!("{:?} {kind:?}: {text} reported {} is {}", o.loss_kind, m.loss, spec::loss_of(&m.expr, &my_train, kind, &mut None)),
                );
            }
            let ast = Ast::from_postfix(&m.expr.nodes).unwrap();
            for (d, mine) in [(Some(engine.dataset()), Some(&my_train)), (val.as_ref(), my_val.as_ref())] {
                let (Some(d), Some(mine)) = (d, mine) else { continue };
                let (p, ok) = spec::predict::<f64, BuiltinOpsF64>(&ast, &m.expr.consts, &mine.x, &mut None);
                // The refusal of values that are not finite needs a JavaScript host (it aborts natively).
                let (mut direct, mut scratch) = (vec![0.0; d.n_rows], Array2::zeros((0, 0)));
                let strict = EvalOptions {
                    check_finite: true,
                    early_exit: false,
                };
                let plan = compile_plan::<3>(&m.expr.nodes, d.n_features, m.expr.consts.len());
                let complete = eval_plan_array_into(&mut direct, &plan, &m.expr, d.x.view(), &mut scratch, &strict);
                if !complete {
                    if ok && p.iter().all(|v| v.abs() < 1e150) {
                        c.count("borderline_evaluations", 1);
                    }
                    continue;
                }
                match w::eval_member(d, m) {
                    None => c.fail("evaluation failed", text.clone()),
                    Some(yhat) => {
                        if yhat.len() != p.len() {
                            c.fail("prediction length", format!("{} instead of {}", yhat.len(), p.len()));
                            continue;
                        }
                        for (r, (g, want)) in yhat.iter().zip(&p).enumerate() {
                            let v = agrees::<f64, BuiltinOpsF64>(&ast, &|f| mine.x[[f, r]], &m.expr.consts, Dir::None, 0, &|q| q.val, *want, *g);
                            if v == Some(false) {
                                c.fail("prediction", format!("{text} row {r}: {g} instead of {want}"));
                            }
                        }
                        c.count("predictions_compared", p.len() as u64);
                    }
                }
            }
            c.count("equations_followed", 1);
            c.distinct(hash_of(&text));
        }
        if w::find_member(&engine, u64::MAX).is_some() {
            c.fail("equation for an unknown id", "");
        }
    }
    let d = engine.dataset();
    if d.x != my_train.x || d.y != my_train.y || d.weights != my_train.weights || d.variable_names != want_names {
        c.fail("search sees other data", format!("{d:?} instead of {my_train:?}"));
    }
    c.sample(|| format!("{} columns, {} rows, validation {}, {:?}: best {}", n_cols, n_rows, idx.val.len(), kind, w::summary(&engine, engine.best()).equation));
}

/// A whole visit of the browser: every answer of the session object is compared with a search of our own.
#[cfg(sr_verif_host)]
fn session(c: &mut Case) {
    let s = gen_scenario(&mut c.rng);
    let mut o = s.o.clone();
    o.core.populations = 1 + c.rng.usize(..2);
    o.core.population_size = 4 + c.rng.usize(..8);
    let mut most = 4;
    let mut spacing = 1;
    match c.rng.u8(..40) {
        // fronts of many sizes
        0..=1 => {
            o.core.maxsize = 30 + c.rng.usize(..40);
            o.core.population_size = 60;
            o.core.parsimony = 0.0;
            o.core.ncycles_per_iteration = 150;
            o.core.niterations = 6 + c.rng.usize(..6);
            (o.loss_kind, o.validation_fraction) = ("mse".into(), 0.0);
        }
        // many cycles in one step
        2..=3 => {
            o.core.populations = 8;
            o.core.niterations = 40;
            o.core.population_size = 4;
            o.core.ncycles_per_iteration = 1;
            most = 300;
        }
        // many evaluations
        4 => {
            o.core.population_size = 40;
            o.core.ncycles_per_iteration = 1500;
            o.core.niterations = 3;
            spacing = 2;
        }
        _ => {}
    }
    let lists: Vec<Vec<String>> = s.by.iter().map(|l| l.iter().map(|n| n.to_string()).collect()).collect();
    let js = |l: &Vec<String>| JsValue::new(l.clone());
    let open = |text: &str, o: &WasmSearchOptions, l: &[Vec<String>]| WasmSearch::new(text.to_string(), JsValue::new(o.clone()), js(&l[0]), js(&l[1]), js(&l[2]));
    c.eval();
    // what cannot be searched is refused
    match c.rng.u8(..8) {
        0 => {
            let mut l = lists.clone();
            l[c.rng.usize(..3)].push("no such operator".into());
            if open(&s.text, &o, &l).is_ok() {
                c.fail("a session with an unknown operator opens", format!("{l:?}"));
            }
            c.count("sessions_refused", 1);
        }
        1 => {
            let text = format!("{}1,x{}\n", s.text, ",2".repeat(s.rows[0].len().saturating_sub(2)));
            if open(&text, &o, &lists).is_ok() {
                c.fail("a session with a malformed table opens", text);
            }
            c.count("sessions_refused", 1);
        }
        2 => {
            let bad = WasmSearchOptions {
                loss_kind: "no such loss".into(),
                ..o.clone()
            };
            if open(&s.text, &bad, &lists).is_ok() {
                c.fail("a session with an unknown loss opens", s.text.clone());
            }
            c.count("sessions_refused", 1);
        }
        3 => {
            // an operator of one arity among those of another
            let mut l = lists.clone();
            l[0].push("fma".into());
            if open(&s.text, &o, &l).is_ok() {
                c.fail("a session with an operator of another arity opens", format!("{l:?}"));
            }
            c.count("sessions_refused", 1);
        }
        4 => {
            // options that cannot be read are replaced by the defaults
            let d = WasmSearchOptions::default();
            if d.has_headers != o.has_headers {
                return;
            }
            let got = WasmSearch::new(s.text.clone(), JsValue::from_str("?"), js(&lists[0]), js(&lists[1]), js(&lists[2]))
                .ok()
                .and_then(|mut w| w.step(0).ok())
                .and_then(|v| v.get::<SearchSnapshot>());
            if got.as_ref().map(|s| s.total_cycles) != Some(d.core.niterations.max(1) * d.core.populations.max(1)) {
                c.fail("unreadable options are not replaced by the defaults", format!("{got:?}"));
            }
            c.count("sessions_on_defaults", 1);
        }
        _ => {}
    }
    let mut web = match open(&s.text, &o, &lists) {
        Ok(w) => w,
        Err(e) => {
            c.fail("a session does not open", format!("{:?}: {}", e.get::<String>(), s.text));
            return;
        }
    };
    let Some(idx) = web.get_split_indices().ok().and_then(|v| v.get::<WasmSplitIndices>()) else {
        c.fail("a session does not tell its split", "");
        return;
    };
    let want_idx = w::split_indices(s.rows.len(), o.validation_fraction, o.core.seed);
    if idx.train != want_idx.train || idx.val != want_idx.val {
        c.fail("a session splits the data in another way", format!("{idx:?} instead of {want_idx:?}"));
        return;
    }
    let train = s.part(&idx.train);
    let val = (!idx.val.is_empty()).then(|| s.part(&idx.val));
    let ops = Operators::<3>::from_names_by_arity::<BuiltinOpsF64>(&s.by[0], &s.by[1], &s.by[2]).unwrap();
    let Some(opt) = w::options(&o, ops) else {
        c.fail("options refused", format!("{o:?}"));
        return;
    };
    let mut mine = w::Engine::new(train.clone(), opt);
    let mut k = 250;
    let mut extra = 1;
    loop {
        if c.rng.u8(..3) == 0 {
            k = if most == 300 || c.rng.bool() { c.rng.usize(..6) } else { 6 + c.rng.usize(..40) };
            web.set_pareto_k(k);
        }
        let n = spacing * c.rng.usize(..most);
        let Some(got) = web.step(n).ok().and_then(|v| v.get::<SearchSnapshot>()) else {
            c.fail("a step gives no snapshot", "");
            return;
        };
        mine.step(n);
        let ctx = || format!("after {} of {} cycles, {} columns, {} rows, {:?}", mine.cycles_completed(), mine.total_cycles(), s.rows[0].len(), s.rows.len(), s.kind);
        let front = mine.hall_of_fame().pareto_front();
        let last = |k: usize| &front[front.len() - k.min(front.len())..];
        let points: Vec<_> = got.pareto_points.iter().map(|p| (p.id.clone(), p.complexity, p.loss.to_bits(), p.cost.to_bits())).collect();
        let want: Vec<_> = last(k).iter().map(|m| (m.id.0.to_string(), m.complexity, m.loss.to_bits(), m.cost.to_bits())).collect();
        c.eval();
        if points != want {
            c.fail("a session shows another front", format!("{points:?} instead of {want:?} ({k} wanted) {}", ctx()));
            return;
        }
        if got.total_cycles != mine.total_cycles() || got.cycles_completed != mine.cycles_completed() || got.total_evals != mine.total_evals() || web.is_finished() != mine.is_finished() {
            c.fail("a session shows other progress", format!("{} of {}, {} evaluations, finished {}: {}", got.cycles_completed, got.total_cycles, got.total_evals, web.is_finished(), ctx()));
            return;
        }
        let describe = |m: &w::Member| {
            let names = StringTreeOptions {
                variable_names: Some(&s.names),
                pretty: false,
            };
            (m.id.0.to_string(), m.complexity, m.loss.to_bits(), m.cost.to_bits(), string_tree::<f64, BuiltinOpsF64, 3>(&m.expr, names))
        };
        let told = |e: &EquationSummary| (e.id.clone(), e.complexity, e.loss.to_bits(), e.cost.to_bits(), e.equation.clone());
        if told(&got.best) != describe(mine.best()) {
            c.fail("a session shows another best equation", format!("{:?} instead of {:?} {}", got.best, describe(mine.best()), ctx()));
            return;
        }
        let many = [1, 2, 3, 250, 0][c.rng.usize(..5)];
        let list = web.best_equations(many).ok().and_then(|v| v.get::<Vec<EquationSummary>>()).unwrap_or_default();
        let list: Vec<_> = list.iter().map(told).collect();
        let want: Vec<_> = last(many).iter().map(describe).collect();
        c.count("equation_lists_compared", 1);
        if list != want {
            c.fail("the best equations of a session are others", format!("{list:?} instead of {want:?} ({many} wanted) {}", ctx()));
            return;
        }
        let hall: Vec<_> = mine.hall_of_fame().members().cloned().collect();
        if hall.len() > front.len() {
            c.count("members_off_the_front", (hall.len() - front.len()) as u64);
        }
        if front.len() > 16 {
            c.count("fronts_longer_than_16_shown", 1);
        }
        if got.total_evals > 65536 {
            c.count("snapshots_beyond_65536_evaluations", 1);
        }
        for m in hall.iter().chain([mine.best()]) {
            let ast = Ast::from_postfix(&m.expr.nodes).unwrap();
            for (which, d) in [("train", Some(&train)), ("val", val.as_ref())] {
                let ans = web.evaluate_member(m.id.0.to_string(), which.to_string()).ok().and_then(|v| v.get::<WasmEvalResult>());
                let Some(d) = d else {
                    if ans.is_some() {
                        c.fail("a session evaluates on validation rows it does not have", ctx());
                    }
                    continue;
                };
                let (p, _) = spec::predict::<f64, BuiltinOpsF64>(&ast, &m.expr.consts, &d.x, &mut None);
                let (mut direct, mut scratch) = (vec![0.0; d.n_rows], Array2::zeros((0, 0)));
                let strict = EvalOptions {
                    check_finite: true,
                    early_exit: false,
                };
                let plan = compile_plan::<3>(&m.expr.nodes, d.n_features, m.expr.consts.len());
                let complete = eval_plan_array_into(&mut direct, &plan, &m.expr, d.x.view(), &mut scratch, &strict);
                if ans.is_some() != complete {
                    c.fail("a session answers for values that are not finite, or refuses finite ones", format!("{which}: {} {}", show_expr(&m.expr), ctx()));
                    continue;
                }
                let Some(ans) = ans else {
                    c.count("evaluations_refused", 1);
                    continue;
                };
                if ans.yhat.len() != p.len() {
                    c.fail("prediction length", format!("{which}: {} instead of {}", ans.yhat.len(), p.len()));
                    continue;
                }
                for (r, (g, want)) in ans.yhat.iter().zip(&p).enumerate() {
                    let v = agrees::<f64, BuiltinOpsF64>(&ast, &|f| d.x[[f, r]], &m.expr.consts, Dir::None, 0, &|q| q.val, *want, *g);
                    if v == Some(false) {
                        c.fail("prediction", format!("{which} row {r}: {g} instead of {want}, {} {}", show_expr(&m.expr), ctx()));
                        return;
                    }
                }
                let a = serde_json::to_value(&ans.metrics).unwrap();
                let b = serde_json::to_value(w::metrics(&ans.yhat, d)).unwrap();
                if a != b {
                    c.fail("a session scores a member on other rows", format!("{which}: {a} instead of {b}, {} {}", show_expr(&m.expr), ctx()));
                    return;
                }
                c.count("members_evaluated_in_session", 1);
            }
        }
        let id = mine.best().id.0.to_string();
        for (id, which) in [(id.as_str(), "all"), (id.as_str(), ""), ("x1", "train"), ("", "train"), ("18446744073709551615", "train"), ("-1", "train")] {
            if web.evaluate_member(id.to_string(), which.to_string()).is_ok() {
                c.fail("a session answers a question that has no answer", format!("id {id:?} on {which:?} {}", ctx()));
            }
        }
        c.distinct(hash_of(&(points, got.cycles_completed)));
        if mine.is_finished() {
            // further steps change nothing
            if extra == 0 {
                break;
            }
            extra -= 1;
        }
    }
    c.count("sessions_followed", 1);
}

/// What the page offers before a search: every operator with its properties, and the defaults.
#[cfg(sr_verif_host)]
fn offers(c: &mut Case) {
    c.eval();
    let reg = builtin_operator_registry().ok().and_then(|v| v.get::<Vec<WasmOpInfo>>()).unwrap_or_default();
    let mut want = Vec::new();
    for arity in 1..=3u8 {
        for &id in BuiltinOpsF64::ops_with_arity(arity) {
            want.push(OpId { arity, id });
        }
    }
    if reg.len() != want.len() || BuiltinOpsF64::MAX_ARITY != 3 {
        c.fail("the registry does not list every operator once", format!("{} of {}", reg.len(), want.len()));
    }
    for op in want {
        let all: Vec<&WasmOpInfo> = reg.iter().filter(|i| i.arity == op.arity && i.name == BuiltinOpsF64::name(op)).collect();
        let [i] = all[..] else {
            c.fail("the registry does not list every operator once", format!("{}: {}", BuiltinOpsF64::name(op), all.len()));
            continue;
        };
        if i.display != BuiltinOpsF64::display(op)
            || i.infix.as_deref() != BuiltinOpsF64::infix(op)
            || i.commutative != BuiltinOpsF64::commutative(op)
            || i.associative != BuiltinOpsF64::associative(op)
            || i.complexity != BuiltinOpsF64::complexity(op)
        {
            c.fail("the registry describes an operator wrongly", format!("{i:?}"));
        }
        // what is offered can be chosen
        let mut by: [Vec<&str>; 3] = Default::default();
        by[op.arity as usize - 1].push(&i.name);
        match Operators::<3>::from_names_by_arity::<BuiltinOpsF64>(&by[0], &by[1], &by[2]) {
            Ok(o) if o.ops_by_arity[op.arity as usize - 1] == [op] => c.count("operators_offered", 1),
            _ => c.fail("an offered operator cannot be chosen", i.name.clone()),
        }
    }
    let d = default_search_options().ok().and_then(|v| v.get::<WasmSearchOptions>());
    if d.map(|d| serde_json::to_value(d).unwrap()) != Some(serde_json::to_value(WasmSearchOptions::default()).unwrap()) {
        c.fail("the offered search options are not the defaults", "");
    }
    let d = default_core_options().ok().and_then(|v| v.get::<symbolic_regression::WasmOptionsShim>());
    if d.map(|d| serde_json::to_value(d).unwrap()) != Some(serde_json::to_value(symbolic_regression::WasmOptionsShim::default()).unwrap()) {
        c.fail("the offered core options are not the defaults", "");
    }
    // the defaults of the page are those of the library
    let o = w::options(&WasmSearchOptions::default(), Operators::<3>::default());
    let lib = Options::<f64, 3>::default();
    if let Some(o) = o {
        let show = |o: &Options<f64, 3>| {
            format!(
                "{} {} {} {} {} {} {} {} {} {} {} {} {:?} {} {} {} {} {} {} {} {} {} {} {} {} {:?}",
                o.seed, o.niterations, o.populations, o.population_size, o.ncycles_per_iteration, o.batch_size, o.batching, o.maxsize, o.maxdepth, o.warmup_maxsize_by,
                o.parsimony, o.adaptive_parsimony_scaling, o.crossover_probability, o.perturbation_factor, o.probability_negate_constant, o.tournament_selection_n,
                o.tournament_selection_p, o.alpha, o.optimizer_nrestarts, o.optimizer_probability, o.optimizer_iterations, o.optimizer_f_calls_limit, o.fraction_replaced,
                o.fraction_replaced_hof, o.topn, o.mutation_weights
            )
        };
        if show(&o) != show(&lib) {
            c.fail("the defaults of the page are not those of the library", format!("{} instead of {}", show(&o), show(&lib)));
        }
    }
    c.distinct(reg.len() as u64);
}

pub fn p19(m: &Mon) {
    m.rule("a table, column choice, split, prediction set, option object or reported equation that exercises its component, by hash of its content");
    m.assume("the bindings run natively: a guarded stand-in takes the place of the JavaScript host, whose conversion of values is serde's");
    m.cases("csv", m.scale(30_000, 400_000), csv);
    m.cases("bad_csv", m.scale(20_000, 200_000), bad_csv);
    m.cases("columns", m.scale(50_000, 600_000), column_mapping);
    m.cases("split", m.scale(40_000, 400_000), split);
    m.cases("split_spread", m.scale(200, 2_000), split_spread);
    m.cases("metrics", m.scale(50_000, 600_000), metrics);
    m.cases("options", m.scale(15_000, 150_000), options);
    m.cases("search", m.scale(2_500, 40_000), search);
    m.require("tables_read", 1000);
    m.require("malformed_tables_refused", 1000);
    m.require("datasets_mapped", 1000);
    m.require("splits_with_validation", 1000);
    m.require("r2_and_corr_judged", 1000);
    m.require("option_fields_compared", 10_000);
    m.require("equations_followed", 500);
    #[cfg(sr_verif_host)]
    {
        m.cases("session", m.scale(1_500, 25_000), session);
        m.cases("offers", 1, offers);
        m.require("sessions_followed", 800);
        m.require("sessions_refused", 100);
        m.require("evaluations_refused", 1);
        m.require("members_evaluated_in_session", 1000);
        m.require("operators_offered", 10);
    }
}
