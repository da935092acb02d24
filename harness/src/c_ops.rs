//! P17: operator selection by name and by type, and operator sampling.
use crate::common::*;
use crate::gen::Mix4;
use dynamic_expressions::operator_enum::builtin;
use dynamic_expressions::operator_enum::presets::{BuiltinOpsF32, BuiltinOpsF64};
use dynamic_expressions::{HasOp, LookupError, OpId, OperatorSet};
use symbolic_regression::{OperatorLibrary, OperatorSelectError, Operators};

/// name, arity, display, infix, commutative, associative
type Row = (&'static str, u8, &'static str, Option<&'static str>, bool, bool);

#[rustfmt::skip]
const BUILTIN: &[Row] = &[
    ("abs", 1, "abs", None, false, false), ("abs2", 1, "abs2", None, false, false), ("acos", 1, "acos", None, false, false),
    ("acosh", 1, "acosh", None, false, false), ("asin", 1, "asin", None, false, false), ("asinh", 1, "asinh", None, false, false),
    ("atan", 1, "atan", None, false, false), ("atanh", 1, "atanh", None, false, false), ("cbrt", 1, "cbrt", None, false, false),
    ("cos", 1, "cos", None, false, false), ("cosh", 1, "cosh", None, false, false), ("cot", 1, "cot", None, false, false),
    ("csc", 1, "csc", None, false, false), ("exp", 1, "exp", None, false, false), ("exp2", 1, "exp2", None, false, false),
    ("expm1", 1, "expm1", None, false, false), ("identity", 1, "identity", None, false, false), ("inv", 1, "inv", None, false, false),
    ("log", 1, "log", None, false, false), ("log1p", 1, "log1p", None, false, false), ("log2", 1, "log2", None, false, false),
    ("log10", 1, "log10", None, false, false), ("neg", 1, "-", Some("-"), false, false), ("sec", 1, "sec", None, false, false),
    ("sign", 1, "sign", None, false, false), ("sin", 1, "sin", None, false, false), ("sinh", 1, "sinh", None, false, false),
    ("sqrt", 1, "sqrt", None, false, false), ("tan", 1, "tan", None, false, false), ("tanh", 1, "tanh", None, false, false),
    ("add", 2, "+", Some("+"), true, true), ("atan2", 2, "atan2", None, false, false), ("div", 2, "/", Some("/"), false, false),
    ("max", 2, "max", None, true, true), ("min", 2, "min", None, true, true), ("mul", 2, "*", Some("*"), true, true),
    ("pow", 2, "pow", None, false, false), ("sub", 2, "-", Some("-"), false, false),
    ("clamp", 3, "clamp", None, false, false), ("fma", 3, "fma", None, false, false),
];
#[rustfmt::skip]
const MIX4: &[Row] = &[
    ("mix3", 3, "mix3", None, false, false), ("lin3", 3, "lin3", None, false, false), ("half", 1, "half", None, false, false),
    ("sin", 1, "sin", None, false, false), ("exp", 1, "exp", None, false, false), ("lin4", 4, "lin4", None, false, false),
    ("mix4", 4, "mix4", None, false, false), ("lin2", 2, "lin2", None, false, false), ("times", 2, "times", Some("*"), true, true),
    ("minus", 2, "minus", Some("-"), false, false), ("plus", 2, "plus", Some("+"), true, true),
];

dynamic_expressions::custom_opset! {
    /// Tokens that collide across and within arities, shown names that differ from names.
    pub struct Clash<f64> {
        1 {
            flip { display: "~", infix: "~", eval: |a: &[f64; 1]| -a[0], partial: |_a: &[f64; 1], _i: usize| -1.0, }
            same { display: "Up", eval: |a: &[f64; 1]| a[0] + 1.0, partial: |_a: &[f64; 1], _i: usize| 1.0, }
            up { eval: |a: &[f64; 1]| a[0] + 2.0, partial: |_a: &[f64; 1], _i: usize| 1.0, }
            ReLU { complexity: 300, eval: |a: &[f64; 1]| a[0].max(0.0), partial: |a: &[f64; 1], _i: usize| if a[0] > 0.0 { 1.0 } else { 0.0 }, }
        }
        2 {
            MixedCase { display: "Mixed", complexity: 0, eval: |a: &[f64; 2]| a[0] + 3.0 * a[1], partial: |_a: &[f64; 2], i: usize| [1.0, 3.0][i], }
            tilde { infix: "~", eval: |a: &[f64; 2]| a[0] - a[1], partial: |_a: &[f64; 2], i: usize| [1.0, -1.0][i], }
            same2 { display: "same", commutative: true, eval: |a: &[f64; 2]| a[0] + a[1], partial: |_a: &[f64; 2], _i: usize| 1.0, }
            plus { display: "p", infix: "++", commutative: true, associative: true, eval: |a: &[f64; 2]| a[0] + a[1], partial: |_a: &[f64; 2], _i: usize| 1.0, }
            plus2 { display: "q", infix: "++", eval: |a: &[f64; 2]| a[0] + 2.0 * a[1], partial: |_a: &[f64; 2], i: usize| [1.0, 2.0][i], }
        }
        3 {
            tri { complexity: 65535, eval: |a: &[f64; 3]| a[0], partial: |_a: &[f64; 3], i: usize| [1.0, 0.0, 0.0][i], }
        }
    }
}
#[rustfmt::skip]
const CLASH: &[Row] = &[
    ("flip", 1, "~", Some("~"), false, false), ("same", 1, "Up", None, false, false), ("up", 1, "up", None, false, false),
    ("tilde", 2, "tilde", Some("~"), false, false), ("same2", 2, "same", None, true, false), ("plus", 2, "p", Some("++"), true, true),
    ("ReLU", 1, "ReLU", None, false, false), ("MixedCase", 2, "Mixed", None, false, false),
    ("plus2", 2, "q", Some("++"), false, false), ("tri", 3, "tri", None, false, false),
];

fn row_of<O: OperatorSet>(op: OpId) -> Row {
    (O::name(op), op.arity, O::display(op), O::infix(op), O::commutative(op), O::associative(op))
}

/// Documented matching: the name in any case, or the shown form or infix sign exactly.
fn matches(r: &Row, tok: &str) -> bool {
    let t = tok.trim();
    t.to_ascii_lowercase() == r.0.to_ascii_lowercase() || t == r.2 || r.3 == Some(t)
}

fn spell(rng: &mut Rng, r: &Row) -> String {
    let mut t = match rng.u8(..4) {
        0 => r.2.to_string(),
        1 => r.3.unwrap_or(r.0).to_string(),
        2 => r.0.chars().map(|c| if rng.bool() { c.to_ascii_uppercase() } else { c }).collect(),
        _ => r.0.to_string(),
    };
    match rng.u8(..12) {
        0 => t = format!(" {t}\t"),
        1 => t.push('x'),
        2 => {
            t.pop();
        }
        3 => t = t.chars().rev().collect(),
        4 => t = t.to_ascii_uppercase(),
        _ => {}
    }
    t
}

#[derive(Debug, PartialEq, Clone)]
enum Want {
    Ok(Vec<Vec<Row>>),
    Unknown(String),
    Ambiguous(String, Vec<&'static str>),
    TooLarge(String, u8),
    Duplicate(String),
    Empty,
}

fn find(table: &[Row], tok: &str, arity: Option<u8>) -> Result<Row, Want> {
    let hits: Vec<&Row> = table.iter().filter(|r| arity.is_none_or(|a| r.1 == a) && matches(r, tok)).collect();
    match hits.len() {
        0 => Err(Want::Unknown(tok.trim().to_string())),
        1 => Ok(*hits[0]),
        _ => Err(Want::Ambiguous(tok.trim().to_string(), {
            let mut v: Vec<_> = hits.iter().map(|r| r.0).collect();
            v.sort();
            v
        })),
    }
}

fn expect(table: &[Row], toks: &[(Option<u8>, String)], d: usize) -> Want {
    if toks.is_empty() {
        return Want::Empty;
    }
    let mut out: Vec<Vec<Row>> = vec![Vec::new(); d];
    let mut seen: Vec<Row> = Vec::new();
    for (arity, tok) in toks {
        let r = match find(table, tok, *arity) {
            Ok(r) => r,
            Err(w) => return w,
        };
        if r.1 as usize > d {
            return Want::TooLarge(tok.clone(), r.1);
        }
        if seen.contains(&r) {
            return Want::Duplicate(tok.clone());
        }
        seen.push(r);
        out[r.1 as usize - 1].push(r);
    }
    Want::Ok(out)
}

fn p17_names<O: OperatorSet, const D: usize>(c: &mut Case, table: &'static [Row]) {
    let by_arity = c.rng.bool();
    let n = c.rng.usize(..6);
    let mut toks: Vec<(Option<u8>, String)> = Vec::new();
    for _ in 0..n {
        let r = &table[c.rng.usize(..table.len())];
        let arity = by_arity.then(|| if c.rng.u8(..8) == 0 { 1 + c.rng.u8(..3) } else { r.1.min(3) });
        // few misspellings per list, so that long lists are still accepted often
        let tok = if c.rng.u8(..3) == 0 { spell(&mut c.rng, r) } else { r.0.to_string() };
        toks.push((arity, tok));
    }
    if by_arity {
        toks.sort_by_key(|t| t.0);
    }
    let got = if by_arity {
        let of = |a: u8| -> Vec<&str> { toks.iter().filter(|t| t.0 == Some(a)).map(|t| t.1.as_str()).collect() };
        Operators::<D>::from_names_by_arity::<O>(&of(1), &of(2), &of(3))
    } else {
        let v: Vec<&str> = toks.iter().map(|t| t.1.as_str()).collect();
        Operators::<D>::from_names::<O>(&v)
    };
    let want = expect(table, &toks, D);
    c.eval();
    c.distinct(hash_of(&(format!("{toks:?}"), D, table.len())));
    let text = match &got {
        Err(e) => e.to_string(),
        Ok(_) => String::new(),
    };
    let seen = match got {
        Ok(o) => {
            c.count("lists accepted", 1);
            Want::Ok(o.ops_by_arity.iter().map(|v| v.iter().map(|op| row_of::<O>(*op)).collect()).collect())
        }
        Err(e) => {
            c.count("lists rejected", 1);
            match e {
                OperatorSelectError::Lookup(LookupError::Unknown(t)) => Want::Unknown(t),
                OperatorSelectError::Lookup(LookupError::Ambiguous { token, candidates }) => Want::Ambiguous(token, {
                    let mut v = candidates;
                    v.sort();
                    v
                }),
                OperatorSelectError::ArityMismatch { token, .. } => Want::Unknown(token),
                OperatorSelectError::ArityTooLarge { token, arity, max_arity } => {
                    if max_arity != D {
                        c.fail("an error states a wrong maximum arity", format!("{max_arity} for {D}"));
                    }
                    Want::TooLarge(token, arity)
                }
                OperatorSelectError::Duplicate(t) => Want::Duplicate(t),
                OperatorSelectError::Empty => Want::Empty,
            }
        }
    };
    // the order of operators within an arity is not promised
    let norm = |w: &Want| match w {
        Want::Ok(v) => Want::Ok(
            v.iter()
                .map(|v| {
                    let mut v = v.clone();
                    v.sort();
                    v
                })
                .collect(),
        ),
        w => w.clone(),
    };
    let ctx = || format!("{toks:?} with D = {D}: got {seen:?}, expected {want:?} ({text})");
    if norm(&seen) != norm(&want) {
        let kind = match (&seen, &want) {
            (Want::Ok(_), Want::Ok(_)) => "other operators than requested are selected",
            (Want::Ok(_), _) => "an invalid operator list is accepted",
            (_, Want::Ok(_)) => "a valid operator list is rejected",
            _ => "an invalid operator list is rejected for another reason or name",
        };
        c.fail(kind, ctx());
        return;
    }
    // the message names the token
    let tok = match &want {
        Want::Unknown(t) | Want::Ambiguous(t, _) | Want::TooLarge(t, _) | Want::Duplicate(t) => t.trim(),
        _ => "",
    };
    if !text.contains(tok) {
        c.fail("an error message does not name the operator", ctx());
    }
    c.sample(ctx);
}

fn p17_lookup<O: OperatorSet>(c: &mut Case, table: &'static [Row]) {
    // the set holds exactly the documented operators
    let mut all = Vec::new();
    O::for_each_op(|op| all.push(row_of::<O>(op)));
    all.sort();
    let mut want = table.to_vec();
    want.sort();
    c.eval();
    if all != want {
        let extra: Vec<_> = all.iter().filter(|r| !want.contains(r)).collect();
        let missing: Vec<_> = want.iter().filter(|r| !all.contains(r)).collect();
        c.fail("an operator set differs from its definition", format!("extra {extra:?}, missing {missing:?}"));
    }
    O::for_each_op(|op| {
        let want = match O::name(op) {
            "ReLU" => 300,
            "tri" => 65535,
            "MixedCase" => 0,
            _ => 1,
        };
        if O::complexity(op) != want {
            c.fail("the complexity of an operator is not the declared one", format!("{} of {}, declared {want}", O::complexity(op), O::name(op)));
        }
    });
    if O::MAX_ARITY != table.iter().map(|r| r.1).max().unwrap() {
        c.fail("wrong maximum arity of an operator set", format!("{}", O::MAX_ARITY));
    }
    for r in table {
        for t in [r.0.to_string(), r.2.to_string(), r.3.unwrap_or(r.0).to_string(), r.0.to_ascii_uppercase(), format!("\t{} ", r.0)] {
            for arity in [None, Some(1), Some(2), Some(3), Some(4), Some(9)] {
                let got = match arity {
                    None => O::lookup(&t),
                    Some(a) => O::lookup_with_arity(&t, a),
                };
                c.eval();
                c.count("lookups compared", 1);
                let want = find(table, &t, arity);
                let ok = match (&got, &want) {
                    (Ok(op), Ok(r)) => row_of::<O>(*op) == *r,
                    (Err(LookupError::Unknown(a)), Err(Want::Unknown(b))) => a == b,
                    (Err(LookupError::Ambiguous { token, candidates }), Err(Want::Ambiguous(b, n))) => {
                        let mut v = candidates.clone();
                        v.sort();
                        token == b && v == *n
                    }
                    _ => false,
                };
                if !ok {
                    c.fail("a lookup differs from the documented names", format!("{t:?} arity {arity:?}: {got:?}, expected {want:?}"));
                }
            }
            let n = O::lookup_all(&t).len();
            let w = table.iter().filter(|r| matches(r, &t)).count();
            if n != w {
                c.fail("a lookup differs from the documented names", format!("{t:?}: {n} matches, expected {w}"));
            }
        }
    }
    // ids without operator
    for arity in 0..=O::MAX_ARITY + 2 {
        for id in [0u16, 1, 5, 40, u16::MAX] {
            let op = OpId { arity, id };
            let known = O::ops_with_arity(arity).contains(&id);
            if O::meta(op).is_some() != known {
                c.fail("metadata of an operator that is not in the set", format!("{op:?}"));
            }
            if let Some(m) = O::meta(op) {
                if m.arity != arity || m.id != id {
                    c.fail("metadata belongs to another operator", format!("{op:?}: {m:?}"));
                }
            }
        }
    }
    c.distinct(hash_of(&table.len()));
}

fn p17_builder(c: &mut Case) {
    macro_rules! has {
        ($($tag:ident $name:literal $a:literal),* $(,)?) => { $(
            for (op, set) in [
                (<BuiltinOpsF64 as HasOp<builtin::$tag>>::op_id(), "f64"),
                (<BuiltinOpsF32 as HasOp<builtin::$tag>>::op_id(), "f32"),
            ] {
                let name = if set == "f64" { BuiltinOpsF64::name(op) } else { BuiltinOpsF32::name(op) };
                c.eval();
                if name != $name || op.arity != $a {
                    c.fail("an operator type stands for another operator", format!("{}: {name}/{}", stringify!($tag), op.arity));
                }
            }
        )* };
    }
    has!(Abs "abs" 1, Abs2 "abs2" 1, Acos "acos" 1, Acosh "acosh" 1, Asin "asin" 1, Asinh "asinh" 1, Atan "atan" 1,
         Atanh "atanh" 1, Cbrt "cbrt" 1, Cos "cos" 1, Cosh "cosh" 1, Cot "cot" 1, Csc "csc" 1, Exp "exp" 1, Exp2 "exp2" 1,
         Expm1 "expm1" 1, Identity "identity" 1, Inv "inv" 1, Log "log" 1, Log1p "log1p" 1, Log2 "log2" 1, Log10 "log10" 1,
         Neg "neg" 1, Sec "sec" 1, Sign "sign" 1, Sin "sin" 1, Sinh "sinh" 1, Sqrt "sqrt" 1, Tan "tan" 1, Tanh "tanh" 1,
         Add "add" 2, Atan2 "atan2" 2, Div "div" 2, Max "max" 2, Min "min" 2, Mul "mul" 2, Pow "pow" 2, Sub "sub" 2,
         Clamp "clamp" 3, Fma "fma" 3);
    let names = |o: &Operators<3>| -> Vec<Vec<&str>> {
        o.ops_by_arity
            .iter()
            .map(|v| {
                let mut v: Vec<&str> = v.iter().map(|op| BuiltinOpsF64::name(*op)).collect();
                v.sort();
                v
            })
            .collect()
    };
    let four = vec![vec![], vec!["add", "div", "mul", "sub"], vec![]];
    let a = names(&Operators::<3>::builder::<BuiltinOpsF64>().sr_default_binary().build());
    let b = names(&OperatorLibrary::sr_default::<BuiltinOpsF64, 3>());
    if a != four || b != four {
        c.fail("the default operators are not + - * /", format!("{a:?} {b:?}"));
    }
    if OperatorLibrary::sr_default::<BuiltinOpsF64, 1>().ops_by_arity[0].len() != 0 {
        c.fail("the default operators are not + - * /", "D = 1");
    }
    let d = names(
        &Operators::<3>::builder::<BuiltinOpsF64>()
            .unary::<builtin::Cos>()
            .binary::<builtin::Pow>()
            .unary::<builtin::Exp>()
            .build(),
    );
    if d != vec![vec!["cos", "exp"], vec!["pow"], vec![]] {
        c.fail("the builder selects other operators", format!("{d:?}"));
    }
    c.distinct(1);
}

fn judge(c: &mut Case, what: &str, counts: &[u64], probs: &[f64], ctx: &dyn Fn() -> String) {
    let n: u64 = counts.iter().sum();
    let mut chi = 0.0;
    let mut dof = -1.0;
    for (k, p) in counts.iter().zip(probs) {
        let e = n as f64 * p;
        if *p == 0.0 {
            if *k != 0 {
                c.fail(format!("{what}: an excluded choice occurs"), format!("{counts:?} for {probs:?}: {}", ctx()));
            }
            continue;
        }
        chi += (*k as f64 - e).powi(2) / e;
        dof += 1.0;
    }
    c.count("sampled operators", n);
    if dof > 0.0 && chi > dof + 8.0 * (2.0f64 * dof).sqrt() + 40.0 {
        c.fail(
            format!("{what}: choices are not in proportion"),
            format!("{counts:?}, expected shares {probs:?}, chi2 {chi:.1} for {dof}: {}", ctx()),
        );
    }
}

fn p17_sample<O: OperatorSet, const D: usize>(c: &mut Case) {
    let mut all = Vec::new();
    O::for_each_op(|op| {
        if op.arity as usize <= D {
            all.push(op)
        }
    });
    c.rng.shuffle(&mut all);
    let n = 1 + c.rng.usize(..all.len());
    let mut o = Operators::<D>::new();
    for op in &all[..n] {
        o.push(*op);
    }
    let cap = 1 + c.rng.usize(..D + 2);
    let fit: Vec<usize> = (1..=cap.min(D)).map(|a| o.nops(a)).collect();
    let total: usize = fit.iter().sum();
    let ctx = || format!("operators per arity {:?}, up to {cap}", o.ops_by_arity.iter().map(|v| v.len()).collect::<Vec<_>>());
    c.eval();
    if o.total_ops_up_to(cap) != total || (1..=D).any(|a| o.nops(a) != all[..n].iter().filter(|op| op.arity as usize == a).count()) {
        c.fail("operators are miscounted", ctx());
    }
    c.distinct(hash_of(&(format!("{:?}", o.ops_by_arity), cap)));
    if total == 0 {
        return;
    }
    let mut rng = Rng::with_seed(c.rng.u64(..));
    let draws = 6000;
    let mut arity = vec![0u64; D];
    for _ in 0..draws {
        let a = o.sample_arity(&mut rng, cap);
        if a == 0 || a > D {
            c.fail("an arity outside the operator set is sampled", format!("{a}: {}", ctx()));
            return;
        }
        arity[a - 1] += 1;
    }
    let probs: Vec<f64> = (0..D).map(|i| fit.get(i).map_or(0.0, |k| *k as f64 / total as f64)).collect();
    judge(c, "arity", &arity, &probs, &ctx);
    for a in 1..=D {
        let v = o.ops_by_arity[a - 1].clone();
        if v.is_empty() {
            continue;
        }
        let mut k = vec![0u64; v.len()];
        for _ in 0..draws {
            let op = o.sample_op(&mut rng, a);
            match v.iter().position(|x| *x == op) {
                Some(i) => k[i] += 1,
                None => {
                    c.fail("an operator that was not selected is sampled", format!("{op:?}: {}", ctx()));
                    return;
                }
            }
        }
        let p = vec![1.0 / v.len() as f64; v.len()];
        judge(c, "operator", &k, &p, &ctx);
    }
    c.sample(ctx);
}

pub fn p17(m: &Mon) {
    m.rule("distinct token lists (two thirds names, one third any documented or damaged spelling) against a documented table, and distinct operator selections whose sampling frequencies are judged by chi-square at eight standard deviations");
    m.require("lists accepted", 1000);
    m.require("lists rejected", 1000);
    m.require("sampled operators", 100_000);
    m.require("lookups compared", 500);
    m.cases("lookup64", 2, |c| p17_lookup::<BuiltinOpsF64>(c, BUILTIN));
    m.cases("lookup32", 2, |c| p17_lookup::<BuiltinOpsF32>(c, BUILTIN));
    m.cases("lookup-mixed", 2, |c| p17_lookup::<Mix4>(c, MIX4));
    m.cases("lookup-clash", 2, |c| p17_lookup::<Clash>(c, CLASH));
    m.cases("builder", 1, p17_builder);
    let n = m.scale(20_000, 400_000);
    m.cases("names64", n, |c| p17_names::<BuiltinOpsF64, 3>(c, BUILTIN));
    m.cases("names64-two", n / 2, |c| p17_names::<BuiltinOpsF64, 2>(c, BUILTIN));
    m.cases("names32-one", n / 4, |c| p17_names::<BuiltinOpsF32, 1>(c, BUILTIN));
    m.cases("names-mixed", n / 2, |c| p17_names::<Mix4, 4>(c, MIX4));
    m.cases("names-mixed-two", n / 4, |c| p17_names::<Mix4, 2>(c, MIX4));
    m.cases("names-clash", n, |c| p17_names::<Clash, 3>(c, CLASH));
    let n = m.scale(200, 4000);
    m.cases("sample64", n, p17_sample::<BuiltinOpsF64, 3>);
    m.cases("sample-mixed", n, p17_sample::<Mix4, 4>);
    m.cases("sample-two", n / 2, p17_sample::<Mix4, 2>);
}
