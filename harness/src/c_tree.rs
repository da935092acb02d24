//! P05 simplification, P16 printing, P21 expression algebra, P26 tree measurements and constants.
use crate::ast::*;
use crate::common::*;
use crate::gen::*;
use dynamic_expressions::operator_enum::presets::{BuiltinOpsF32, BuiltinOpsF64};
use dynamic_expressions::{
    count_constant_nodes, count_depth, count_nodes, has_constants, has_operators, lit, node_utils, operators,
    string_tree, subtree_range, subtree_sizes, tree_mapreduce, EvalOptions, Metadata, OpId, OperatorSet, PNode,
    PostfixExpr, StringTreeOptions,
};
use dynamic_expressions::{
    combine_operators_in_place, compress_constants, get_scalar_constants, set_scalar_constants, simplify_in_place,
    simplify_tree_in_place,
};

fn same_expr<T: Fl, O, const D: usize>(a: &PostfixExpr<T, O, D>, b: &PostfixExpr<T, O, D>) -> bool {
    a.nodes == b.nodes
        && a.consts.len() == b.consts.len()
        && a.consts.iter().zip(&b.consts).all(|(p, q)| p.same(*q))
        && a.meta.variable_names == b.meta.variable_names
}

// ------------------------------------------------------------------------------------------ P05

/// Vocabulary biased to what simplification rewrites.
fn simp_ops<O: OperatorSet>(rng: &mut Rng, d: usize) -> Vec<OpId> {
    let all = all_ops::<O>(d);
    let mut core: Vec<OpId> = all
        .iter()
        .copied()
        .filter(|o| matches!(O::infix(*o), Some("+") | Some("-") | Some("*")) && o.arity == 2)
        .collect();
    match rng.u8(..4) {
        0 => {}
        1 => core.retain(|_| rng.bool()),
        2 => core = all.clone(),
        _ => {
            for _ in 0..3 {
                core.push(all[rng.usize(..all.len())]);
            }
        }
    }
    if core.is_empty() {
        core = all;
    }
    core
}

/// Some intermediate result left the range of normal numbers: reordering then changes more than a rounding.
fn leaves_range<T: Fl, O: OperatorSet<T = T>>(a: &Ast, consts: &[T], x: &dyn Fn(usize) -> T) -> (T, bool) {
    match a {
        Ast::Var(f) => (x(*f), false),
        Ast::Const(i) => (consts[*i], false),
        Ast::Op(op, kids) => {
            let rs: Vec<(T, bool)> = kids.iter().map(|k| leaves_range::<T, O>(k, consts, x)).collect();
            let vals: Vec<T> = rs.iter().map(|r| r.0).collect();
            let name = O::name(*op);
            let v = ref_op(name, &vals);
            let over = v.is_infinite()
                && vals.iter().all(|u| u.is_finite())
                && (matches!(name, "add" | "sub" | "mul" | "fma" | "square" | "cube") || name == "div" && !vals[1].is_zero());
            let under = v.abs() < T::min_positive_value()
                && (!v.is_zero() || (matches!(name, "mul" | "div" | "fma" | "square" | "cube") && vals.iter().all(|u| !u.is_zero())));
            (v, under || over || rs.iter().any(|r| r.1))
        }
    }
}

fn value_gap<T: Fl, O: OperatorSet<T = T>>(
    before: (&Ast, &[T]),
    after: (&Ast, &[T]),
    x: &dyn Fn(usize) -> T,
) -> Option<Result<(), (f64, f64)>> {
    let run = |a: (&Ast, &[T]), s: u64| {
        let mut n = (s > 0).then(|| Rng::with_seed(s * 104729));
        // The constants of the rewritten tree may themselves be rounded results.
        let consts: Vec<T> = match &mut n {
            Some(r) if std::ptr::eq(a.0, after.0) => {
                a.1.iter().map(|k| T::of(k.f() * (1.0 + (2.0 * r.f64() - 1.0) * T::eps()))).collect()
            }
            _ => a.1.to_vec(),
        };
        ref_row::<T, O>(a.0, x, &consts, Dir::None, 0, &mut n).val.f()
    };
    let (b, a) = (run(before, 0), run(after, 0));
    if b == a || (b.is_nan() && a.is_nan()) {
        return Some(Ok(()));
    }
    if leaves_range::<T, O>(before.0, before.1, x).1 || leaves_range::<T, O>(after.0, after.1, x).1 {
        return None;
    }
    let mut spread = 0.0f64;
    for s in 1..=12 {
        for (t, r) in [(before, b), (after, a)] {
            let v = run(t, s);
            if v.is_finite() != r.is_finite() || v.is_nan() != r.is_nan() || (v.is_infinite() && v != r) {
                return None;
            }
            if v.is_finite() {
                spread = spread.max((v - r).abs());
            }
        }
    }
    if !b.is_finite() || !a.is_finite() {
        return Some(Err((b, a)));
    }
    if spread > 1e-2 * b.abs().max(1e-3) {
        return None;
    }
    let base = T::eps() * 64.0 * b.abs().max(a.abs());
    if (b - a).abs() <= base + 64.0 * spread {
        Some(Ok(()))
    } else {
        Some(Err((b, a)))
    }
}

fn simplify_case<T: Fl, O: OperatorSet<T = T>, const D: usize>(c: &mut Case) {
    let g = GenCfg {
        ops: simp_ops::<O>(&mut c.rng, D),
        n_features: sized(&mut c.rng, 1..4, 16, 4..300),
        n_consts: sized(&mut c.rng, 1..7, 16, 7..300),
        p_const: 0.3 + 0.5 * c.rng.f64(),
    };
    let b = match c.rng.u8(..4) {
        0 => 3 + c.rng.usize(..4),
        1 => 20 + sized(&mut c.rng, 0..40, 8, 80..280),
        _ => 5 + c.rng.usize(..12),
    };
    let mut e: PostfixExpr<T, O, D> = if c.rng.bool() {
        gen_expr(&mut c.rng, &g, b)
    } else {
        gen_expr_canonical(&mut c.rng, &g, b)
    };
    if c.rng.u8(..3) == 0 {
        e.meta.variable_names = (0..g.n_features).map(|i| format!("v{i}")).collect();
    }
    let opts = EvalOptions {
        check_finite: c.rng.bool(),
        early_exit: c.rng.bool(),
    };
    let before = e.clone();
    let ast0 = Ast::from_postfix(&before.nodes).expect("generator");
    let which = c.rng.u8(..3);
    let (name, changed) = match which {
        0 => ("simplify_tree_in_place", simplify_tree_in_place::<T, O, D>(&mut e, &opts)),
        1 => ("combine_operators_in_place", combine_operators_in_place::<T, O, D>(&mut e)),
        _ => ("simplify_in_place", simplify_in_place::<T, O, D>(&mut e, &opts)),
    };
    c.eval();
    let ctx = format!("{name}: {} => {}", show_expr(&before), show_expr(&e));
    let ast1 = match well_formed::<T, O, D>(&e, g.n_features, &|_| true) {
        Ok(a) => a,
        Err(m) => {
            c.fail("simplification yields a malformed expression", format!("{m}: {ctx}"));
            return;
        }
    };
    if e.meta.variable_names != before.meta.variable_names {
        c.fail("simplification loses variable names", ctx.clone());
    }
    if !changed && !same_expr(&e, &before) {
        c.fail(
            "reports no change but changed the expression",
            format!("{ctx}; constants {:?} => {:?}", before.consts, e.consts),
        );
    }
    if e.nodes.len() > before.nodes.len() {
        c.fail("simplification grows the expression", ctx.clone());
    }
    let not_finite = |x: &PostfixExpr<T, O, D>| {
        x.nodes.iter().filter(|n| matches!(n, PNode::Const { idx } if !x.consts[*idx as usize].is_finite())).count()
    };
    if not_finite(&e) > not_finite(&before) {
        c.fail("a subexpression without a finite value is folded", ctx.clone());
    }
    // no new variables or operators
    let mut had = std::collections::HashSet::new();
    for n in &before.nodes {
        had.insert(match n {
            PNode::Const { .. } => PNode::Const { idx: 0 },
            o => *o,
        });
    }
    if e.nodes.iter().any(|n| !matches!(n, PNode::Const { .. }) && !had.contains(n)) {
        c.fail("simplification introduces operators or variables", ctx.clone());
    }
    if which != 1 {
        // what could be folded is folded
        if which == 0 {
            let mut left = None;
            ast1.visit(&mut |n| {
                if let Ast::Op(op, kids) = n {
                    let vals: Option<Vec<T>> = kids
                        .iter()
                        .map(|k| match k {
                            Ast::Const(i) => Some(e.consts[*i]),
                            _ => None,
                        })
                        .collect();
                    if let Some(v) = vals {
                        if v.iter().all(|x| x.is_finite()) {
                            let r = ref_op(O::name(*op), &v);
                            if r.is_finite() && r.abs().f() < 1e30 {
                                left = Some(n.show::<O, T>(&e.consts));
                            }
                        }
                    }
                }
            });
            if let Some(l) = left {
                c.fail("a constant subexpression is left unfolded", format!("{l} in {ctx}"));
            }
        } else {
            let mut next = 0u16;
            let mut seen = std::collections::HashSet::new();
            let mut ok = true;
            for n in &e.nodes {
                if let PNode::Const { idx } = n {
                    if seen.insert(*idx) {
                        ok &= *idx == next;
                        next += 1;
                    }
                }
            }
            if !ok || next as usize != e.consts.len() {
                c.fail(
                    "constant table not compact after simplification",
                    format!("{ctx}; nodes {:?}, {} constants", e.nodes, e.consts.len()),
                );
            }
            let size = e.nodes.len();
            let mut again = e.clone();
            simplify_in_place::<T, O, D>(&mut again, &opts);
            if again.nodes.len() > size {
                c.fail("simplifying twice grows the expression", ctx.clone());
            }
        }
    }
    if changed && !same_expr(&e, &before) {
        c.count("expressions changed", 1);
        if e.nodes.len() < before.nodes.len() {
            c.count("expressions shortened", 1);
        }
    }
    let kind = if c.rng.bool() { Data::Tame } else { Data::Positive };
    for _ in 0..6 {
        let xs: Vec<T> = (0..g.n_features).map(|_| gen_value(&mut c.rng, kind)).collect();
        match value_gap::<T, O>((&ast0, &before.consts), (&ast1, &e.consts), &|f| xs[f]) {
            Some(Ok(())) => c.count("values compared", 1),
            None => c.count("points too ill-conditioned to judge", 1),
            Some(Err((b, a))) => {
                c.fail("simplification changes the value", format!("{b:e} => {a:e} at x = {xs:?}: {ctx}"));
                break;
            }
        }
    }
    if changed {
        c.distinct(hash_of(&ctx));
        c.sample(|| ctx.clone());
    }
}

pub fn p05(m: &Mon) {
    m.rule("random expressions over vocabularies biased to + - * with constants, run through constant folding, operator combination, or both; values compared at 6 points with the reference interpreter on both trees; non-trivial = the call reported a change");
    m.assume("constants have ordinary magnitude (1e-2..1e2), so reassociation may not overflow or underflow; ill-conditioned points are not judged");
    m.require("expressions changed", 4000);
    m.require("values compared", 40_000);
    let n = m.scale(40_000, 1_500_000);
    m.cases("simplify-f64", n, simplify_case::<f64, BuiltinOpsF64, 3>);
    m.cases("simplify-f32", n / 2, simplify_case::<f32, BuiltinOpsF32, 3>);
    m.cases("simplify-custom", n / 2, simplify_case::<f64, Mix4, 4>);
}

// ------------------------------------------------------------------------------------------ P16

/// What a printed formula stands for, written canonically.
fn parse_formula<O: OperatorSet>(s: &str, ops: &[OpId], vars: &dyn Fn(&str) -> Option<usize>) -> Result<String, String> {
    struct P<'a, O: OperatorSet> {
        s: &'a [u8],
        src: &'a str,
        i: usize,
        ops: &'a [OpId],
        vars: &'a dyn Fn(&str) -> Option<usize>,
        _o: std::marker::PhantomData<O>,
    }
    impl<O: OperatorSet> P<'_, O> {
        fn peek(&self) -> u8 {
            self.s.get(self.i).copied().unwrap_or(0)
        }
        fn ws(&mut self) {
            while self.peek() == b' ' {
                self.i += 1;
            }
        }
        /// operand, or operand op operand op operand (one operator) up to a closer
        fn group(&mut self) -> Result<String, String> {
            let first = self.operand()?;
            let mut items = vec![first];
            let mut tok: Option<String> = None;
            loop {
                self.ws();
                let c = self.peek();
                if c == 0 || c == b')' || c == b',' {
                    break;
                }
                let st = self.i;
                while self.peek() != b' ' && self.peek() != 0 {
                    self.i += 1;
                }
                let t = self.src[st..self.i].to_string();
                if let Some(p) = &tok {
                    if *p != t {
                        return Err(format!("mixed infix operators {p} and {t} without parentheses"));
                    }
                }
                tok = Some(t);
                self.ws();
                items.push(self.operand()?);
            }
            match tok {
                None => Ok(items.pop().unwrap()),
                Some(t) => {
                    let n = items.len() as u8;
                    let op = self
                        .ops
                        .iter()
                        .find(|o| {
                            o.arity == n
                                && O::infix(**o).is_some()
                                && (O::infix(**o) == Some(t.as_str()) || O::display(**o) == t)
                        })
                        .ok_or(format!("no infix operator {t} of arity {n}"))?;
                    Ok(format!("{}({})", O::name(*op), items.join(", ")))
                }
            }
        }
        fn operand(&mut self) -> Result<String, String> {
            self.ws();
            if self.peek() == b'(' {
                self.i += 1;
                let r = self.group()?;
                self.close()?;
                return Ok(r);
            }
            let st = self.i;
            while !matches!(self.peek(), 0 | b' ' | b'(' | b')' | b',') {
                self.i += 1;
            }
            let w = self.src[st..self.i].to_string();
            if self.peek() == b'(' {
                self.i += 1;
                let mut args = vec![self.group()?];
                while self.peek() == b',' {
                    self.i += 1;
                    self.ws();
                    args.push(self.group()?);
                }
                self.close()?;
                let n = args.len() as u8;
                let op = self
                    .ops
                    .iter()
                    .find(|o| o.arity == n && (O::name(**o) == w || O::display(**o) == w || O::infix(**o) == Some(w.as_str())))
                    .ok_or(format!("no operator {w} of arity {n}"))?;
                return Ok(format!("{}({})", O::name(*op), args.join(", ")));
            }
            if let Some(v) = (self.vars)(&w) {
                return Ok(format!("x{v}"));
            }
            w.parse::<f64>()
                .map(|v| format!("{v:?}"))
                .map_err(|_| format!("neither variable nor number: {w:?}"))
        }
        fn close(&mut self) -> Result<(), String> {
            self.ws();
            if self.peek() != b')' {
                return Err(format!("expected ) at {}", self.i));
            }
            self.i += 1;
            Ok(())
        }
    }
    let mut p = P::<O> {
        s: s.as_bytes(),
        src: s,
        i: 0,
        ops,
        vars,
        _o: std::marker::PhantomData,
    };
    let r = p.group()?;
    p.ws();
    if p.i != s.len() {
        return Err(format!("trailing text at {}", p.i));
    }
    Ok(r)
}

fn print_case<T: Fl, O: OperatorSet<T = T>, const D: usize>(c: &mut Case) {
    let ops = all_ops::<O>(D);
    let mut sub = ops.clone();
    if c.rng.bool() {
        c.rng.shuffle(&mut sub);
        sub.truncate(1 + c.rng.usize(..4));
    }
    let g = GenCfg {
        ops: sub,
        n_features: sized(&mut c.rng, 1..13, 10, 90..1200),
        n_consts: sized(&mut c.rng, 0..5, 10, 5..300),
        p_const: 0.4,
    };
    let b = sized(&mut c.rng, 1..26, 10, 26..400);
    let mut e: PostfixExpr<T, O, D> = gen_expr(&mut c.rng, &g, b);
    for k in e.consts.iter_mut() {
        if c.rng.u8(..3) == 0 {
            *k = match c.rng.u8(..3) {
                0 => T::of([1e-12, 1e22, -1e-7, 0.1 + 0.2, 123456789.0, -0.0, 3.0, f64::INFINITY][c.rng.usize(..8)]),
                // any finite value of the type, from its smallest to its largest
                1 => loop {
                    let v = T::of(f64::from_bits(c.rng.u64(..)));
                    if v.is_finite() {
                        break v;
                    }
                },
                _ => T::of((c.rng.f64() - 0.5) * 10f64.powi(c.rng.i32(-30..30))),
            };
        }
    }
    let pool = ["alpha", "b_1", "speed", "u10", "μ", "n", "Temp", "y", "q2", "zz", "w", "k9"];
    let names_a: Vec<String> = pool.iter().take(c.rng.usize(..=pool.len())).map(|s| s.to_string()).collect();
    let names_b: Vec<String> = (0..c.rng.usize(..14)).map(|i| format!("col{i}")).collect();
    let meta_used = c.rng.bool();
    let opt_used = c.rng.bool();
    if meta_used {
        e.meta.variable_names = names_a.clone();
    }
    let pretty = c.rng.bool();
    let text = if !opt_used && !pretty && c.rng.bool() {
        format!("{e}")
    } else {
        string_tree(
            &e,
            StringTreeOptions {
                variable_names: opt_used.then_some(&names_b[..]),
                pretty,
            },
        )
    };
    c.eval();
    let effective: Vec<String> = if opt_used {
        names_b
    } else if meta_used {
        names_a
    } else {
        vec![]
    };
    let look = |w: &str| -> Option<usize> {
        if let Some(i) = effective.iter().position(|n| n == w) {
            return Some(i);
        }
        let i: usize = w.strip_prefix('x')?.parse().ok()?;
        (i >= effective.len()).then_some(i)
    };
    let want = {
        // constants are compared by value in f64
        let c64: Vec<f64> = e.consts.iter().map(|k| k.to_string().parse::<f64>().unwrap()).collect();
        let a = Ast::from_postfix(&e.nodes).unwrap();
        a.show::<O, f64>(&c64)
    };
    // printing itself must keep constants exact
    for k in &e.consts {
        let s = dynamic_expressions::strings::default_string_constant(k);
        if s.parse::<f64>().map(|v| T::of(v).same(*k) || k.is_nan()) != Ok(true) {
            c.fail("a printed constant does not denote the constant", format!("{k:?} printed {s}"));
        }
    }
    match parse_formula::<O>(&text, &ops, &look) {
        Ok(got) if got == want => {}
        Ok(got) => c.fail("printed formula denotes another expression", format!("{text:?} reads as {got}, was {want}")),
        Err(m) => c.fail("printed formula cannot be read back", format!("{m}: {text:?}, was {want}")),
    }
    if e.nodes.len() > 1 {
        c.distinct(hash_of(&text));
        c.sample(|| text.clone());
    }
}

pub fn p16(m: &Mon) {
    m.rule("random expressions with default, metadata or explicit variable names (also too few names), plain and pretty; the text is read by an independent parser and compared with the tree; non-trivial = more than one node");
    let n = m.scale(40_000, 1_000_000);
    m.cases("print-f64", n, print_case::<f64, BuiltinOpsF64, 3>);
    m.cases("print-f32", n / 2, print_case::<f32, BuiltinOpsF32, 3>);
    m.cases("print-custom", n / 2, print_case::<f64, Mix4, 4>);
}

// ------------------------------------------------------------------------------------------ P21

type E<T, O> = PostfixExpr<T, O, 3>;

macro_rules! table {
    ($O:ty, $T:ty; $($n:ident),*) => { vec![$( (stringify!($n), operators::$n::<$T, $O, 3> as fn(E<$T, $O>) -> E<$T, $O>) ),*] };
}
macro_rules! table2 {
    ($O:ty, $T:ty; $($n:ident),*) => { vec![$( (stringify!($n), operators::$n::<$T, $O, 3> as fn(E<$T, $O>, E<$T, $O>) -> E<$T, $O>) ),*] };
}
macro_rules! table3 {
    ($O:ty, $T:ty; $($n:ident),*) => { vec![$( (stringify!($n), operators::$n::<$T, $O, 3> as fn(E<$T, $O>, E<$T, $O>, E<$T, $O>) -> E<$T, $O>) ),*] };
}

macro_rules! algebra_case {
    ($fname:ident, $T:ty, $O:ty) => {
        fn $fname(c: &mut Case) {
            type T = $T;
            type O = $O;
            let un = table!(O, T; cos, sin, tan, asin, acos, atan, sinh, cosh, tanh, asinh, acosh, atanh, sec, csc, cot,
                exp, exp2, expm1, log, log2, log10, log1p, sqrt, cbrt, abs, abs2, inv, sign, identity, neg);
            let bi = table2!(O, T; div, add, sub, mul, pow, atan2, min, max);
            let te = table3!(O, T; fma, clamp);
            let g = GenCfg {
                ops: all_ops::<O>(3),
                n_features: 3,
                n_consts: if c.rng.u8(..200) == 0 { 2000 + c.rng.usize(..18_000) } else { sized(&mut c.rng, 4..5, 12, 5..300) },
                p_const: 0.5,
            };
            if g.n_consts > 1500 {
                c.count("operands with thousands of constants", 1);
            }
            let mut names = 0u32;
            let mut mk = |rng: &mut Rng| -> E<T, O> {
                let b = sized(rng, 1..8, 20, 8..120);
                let mut e: E<T, O> = gen_expr(rng, &g, b);
                if rng.u8(..3) == 0 {
                    names += 1;
                    e.meta = Metadata {
                        variable_names: (0..1 + rng.u8(..5)).map(|i| format!("n{names}_{i}")).collect(),
                    };
                }
                e
            };
            let show = |e: &E<T, O>| -> String { show_expr(e) };
            let n_args;
            let a = mk(&mut c.rng);
            let b = mk(&mut c.rng);
            let d = mk(&mut c.rng);
            let k: T = gen_const(&mut c.rng);
            let (sa, sb, sd, sk) = (show(&a), show(&b), show(&d), format!("{k:?}"));
            let metas = [a.meta.variable_names.clone(), b.meta.variable_names.clone(), d.meta.variable_names.clone()];
            let which = c.rng.u8(..16);
            let (want, got): (String, E<T, O>) = match which {
                0..=3 => {
                    n_args = 1;
                    let (n, f) = un[c.rng.usize(..un.len())];
                    (format!("{n}({sa})"), f(a))
                }
                4..=5 => {
                    n_args = 2;
                    let (n, f) = bi[c.rng.usize(..bi.len())];
                    (format!("{n}({sa}, {sb})"), f(a, b))
                }
                6 => {
                    n_args = 3;
                    let (n, f) = te[c.rng.usize(..te.len())];
                    (format!("{n}({sa}, {sb}, {sd})"), f(a, b, d))
                }
                7 => {
                    n_args = 1;
                    (format!("neg({sa})"), -a)
                }
                8 | 9 => {
                    n_args = 2;
                    match c.rng.u8(..4) {
                        0 => (format!("add({sa}, {sb})"), a + b),
                        1 => (format!("sub({sa}, {sb})"), a - b),
                        2 => (format!("mul({sa}, {sb})"), a * b),
                        _ => (format!("div({sa}, {sb})"), a / b),
                    }
                }
                10 | 11 => {
                    n_args = 1;
                    match c.rng.u8(..4) {
                        0 => (format!("add({sa}, {sk})"), a + k),
                        1 => (format!("sub({sa}, {sk})"), a - k),
                        2 => (format!("mul({sa}, {sk})"), a * k),
                        _ => (format!("div({sa}, {sk})"), a / k),
                    }
                }
                12 | 13 => {
                    n_args = 1;
                    match c.rng.u8(..4) {
                        0 => (format!("add({sk}, {sa})"), lit(k) + a),
                        1 => (format!("sub({sk}, {sa})"), lit(k) - a),
                        2 => (format!("mul({sk}, {sa})"), lit(k) * a),
                        _ => (format!("div({sk}, {sa})"), lit(k) / a),
                    }
                }
                _ => {
                    n_args = 3;
                    let (n2, f2) = bi[c.rng.usize(..bi.len())];
                    let (n1, f1) = un[c.rng.usize(..un.len())];
                    (format!("add({n2}({n1}({sa}), {sb}), {sd})"), f2(f1(a), b) + d)
                }
            };
            c.eval();
            if let Err(m) = well_formed::<T, O, 3>(&got, 3, &|_| true) {
                c.fail("algebra builds a malformed expression", format!("{m}: expected {want}"));
                return;
            }
            let g2 = show(&got);
            if g2 != want {
                c.fail("algebra builds another expression", format!("got {g2}, expected {want}"));
            }
            let meta = metas[..n_args].iter().find(|m| !m.is_empty()).cloned().unwrap_or_default();
            if got.meta.variable_names != meta {
                c.fail(
                    "algebra mixes up variable names",
                    format!("{:?} instead of {meta:?} in {want}", got.meta.variable_names),
                );
            }
            c.distinct(hash_of(&want));
            c.sample(|| want.clone());
        }
    };
}
algebra_case!(algebra_f64, f64, BuiltinOpsF64);
algebra_case!(algebra_f32, f32, BuiltinOpsF32);

pub fn p21(m: &Mon) {
    m.rule("random operand expressions with their own constant tables and names, combined by every named builder and arithmetic overload; the result's tree (constants by value) must be the operator over the operands' trees; distinct by result");
    let n = m.scale(40_000, 1_000_000);
    m.cases("algebra-f64", n, algebra_f64);
    m.cases("algebra-f32", n, algebra_f32);
    m.require("operands with thousands of constants", 20);
}

// ------------------------------------------------------------------------------------------ P26

fn measure_case<T: Fl, O: OperatorSet<T = T>, const D: usize>(c: &mut Case) {
    let g = GenCfg {
        ops: all_ops::<O>(D),
        n_features: 1 + c.rng.usize(..4),
        n_consts: sized(&mut c.rng, 0..7, 8, 7..400),
        p_const: c.rng.f64(),
    };
    let b = if c.rng.u8(..10) == 0 { 100 + c.rng.usize(..500) } else { 1 + c.rng.usize(..30) };
    let e: PostfixExpr<T, O, D> = match c.rng.u8(..60) {
        0 => gen_big(&mut c.rng, &g),
        1 => {
            // a chain: one operator inside the other
            let links = 200 + c.rng.usize(..900);
            let mut a = Ast::Var(0);
            for _ in 0..links {
                let op = g.ops[c.rng.usize(..g.ops.len())];
                let mut args = vec![a];
                while args.len() < op.arity as usize {
                    let at = c.rng.usize(..=args.len());
                    args.insert(at, Ast::Const(0));
                }
                a = Ast::Op(op, args);
            }
            PostfixExpr::new(a.postfix(), gen_consts(&mut c.rng, g.n_consts.max(1)), Metadata::default())
        }
        _ => gen_expr(&mut c.rng, &g, b),
    };
    let mut e = {
        let mut e = e;
        while e.consts.is_empty() && e.nodes.iter().any(|n| matches!(n, PNode::Const { .. })) {
            e.consts.push(gen_const(&mut c.rng));
        }
        e
    };
    let ast = Ast::from_postfix(&e.nodes).unwrap();
    let (mut nv, mut nk, mut no, mut ma) = (0usize, 0usize, 0usize, 0u8);
    ast.visit(&mut |n| match n {
        Ast::Var(_) => nv += 1,
        Ast::Const(_) => nk += 1,
        Ast::Op(o, _) => {
            no += 1;
            ma = ma.max(o.arity);
        }
    });
    let nodes = &e.nodes;
    let checks: Vec<(&str, usize, usize)> = vec![
        ("count_nodes", count_nodes(nodes), ast.size()),
        ("count_depth", count_depth(nodes), ast.depth()),
        ("count_constant_nodes", count_constant_nodes(nodes), nk),
        ("count_variable_nodes", node_utils::count_variable_nodes(nodes), nv),
        ("count_operator_nodes", node_utils::count_operator_nodes(nodes), no),
        ("has_constants", has_constants(nodes) as usize, (nk > 0) as usize),
        ("has_operators", has_operators(nodes) as usize, (no > 0) as usize),
        ("has_variables", node_utils::has_variables(nodes) as usize, (nv > 0) as usize),
        ("max_arity", node_utils::max_arity(nodes) as usize, ma as usize),
        ("is_leaf", node_utils::is_leaf(nodes) as usize, (no == 0) as usize),
        ("is_valid_postfix", node_utils::is_valid_postfix(nodes) as usize, 1),
    ];
    c.evals(checks.len() as u64);
    for (n, got, want) in checks {
        if got != want {
            c.fail(format!("{n} is wrong"), format!("{got} instead of {want} for {}", show_expr(&e)));
        }
    }
    // fold in operand order
    let s = tree_mapreduce(
        nodes,
        |n| match n {
            PNode::Var { feature } => format!("x{feature}"),
            PNode::Const { idx } => format!("{:?}", e.consts[*idx as usize]),
            _ => "?".into(),
        },
        |n| match n {
            PNode::Op { arity, op } => O::name(OpId { arity: *arity, id: *op }),
            _ => "?",
        },
        |p, k: &[String]| format!("{p}({})", k.join(", ")),
    );
    if s != show_expr(&e) {
        c.fail("tree_mapreduce folds another tree", format!("{s} instead of {}", show_expr(&e)));
    }
    // every position: its range is the postfix of its subtree
    let sizes = subtree_sizes(nodes);
    fn walk(a: &Ast, end: usize, f: &mut impl FnMut(&Ast, usize)) {
        f(a, end);
        if let Ast::Op(_, k) = a {
            let mut e = end;
            for c in k.iter().rev() {
                walk(c, e - 1, f);
                e -= c.size();
            }
        }
    }
    let mut bad = None;
    walk(&ast, nodes.len() - 1, &mut |a, at| {
        let (lo, hi) = subtree_range(&sizes, at);
        if sizes[at] != a.size() || lo > hi || nodes[lo..=hi] != a.postfix()[..] {
            bad = Some((at, lo, hi, sizes[at], a.size()));
        }
    });
    if let Some(b) = bad {
        c.fail("subtree range is wrong", format!("(at, lo, hi, size, expected) = {b:?} in {}", show_expr(&e)));
    }
    // broken sequences are recognised
    let mut broken = nodes.clone();
    match c.rng.u8(..4) {
        0 => {
            broken.remove(c.rng.usize(..broken.len()));
        }
        1 => {
            let i = c.rng.usize(..=broken.len());
            broken.insert(i, PNode::Var { feature: 0 });
        }
        2 => {
            let (i, j) = (c.rng.usize(..broken.len()), c.rng.usize(..broken.len()));
            broken.swap(i, j);
        }
        _ => {
            let i = c.rng.usize(..broken.len());
            broken[i] = PNode::Op { arity: c.rng.u8(..4), op: 0 };
        }
    }
    let valid = Ast::from_postfix(&broken).is_ok();
    if node_utils::is_valid_postfix(&broken) != valid {
        c.fail("is_valid_postfix is wrong", format!("{} for {broken:?}", !valid));
    }
    c.count(if valid { "edited sequences still valid" } else { "edited sequences invalid" }, 1);
    // a refused sequence leaves nothing behind for the next one measured
    if c.rng.u8(..4) == 0 {
        let told = guarded(|| count_depth(&broken));
        let nullary = broken.iter().any(|n| matches!(n, PNode::Op { arity: 0, .. }));
        if !nullary && valid != told.is_ok() {
            c.fail("count_depth takes malformed sequences or refuses well-formed ones", format!("{told:?}, valid {valid}: {broken:?}"));
        }
    }
    if count_depth(&nodes) != ast.depth() {
        c.fail("measuring a malformed sequence spoils the next measurement", format!("{} instead of {}: {broken:?}, then {}", count_depth(&nodes), ast.depth(), show_expr(&e)));
    }
    // the compiler takes exactly the well-formed ones
    let known = broken.iter().all(|n| !matches!(n, PNode::Op { arity, .. } if *arity == 0 || *arity as usize > D));
    if known {
        let nf = 1 + broken.iter().map(|n| if let PNode::Var { feature } = n { *feature as usize } else { 0 }).max().unwrap_or(0);
        let nc = broken.iter().map(|n| if let PNode::Const { idx } = n { *idx as usize + 1 } else { 0 }).max().unwrap_or(0);
        let compiled = guarded(|| dynamic_expressions::compile_plan::<D>(&broken, nf, nc)).is_ok();
        if compiled != valid {
            c.fail("the compiler takes malformed sequences or refuses well-formed ones", format!("compiled {compiled}, valid {valid}: {broken:?}"));
        }
        c.count("sequences offered to the compiler", 1);
    }
    // constants: read, write, compress
    let (vals, cref) = get_scalar_constants(&e);
    let fresh: Vec<T> = vals.iter().map(|_| gen_const(&mut c.rng)).collect();
    let mut e2 = e.clone();
    set_scalar_constants(&mut e2, &fresh, &cref);
    let (back, _) = get_scalar_constants(&e2);
    if vals.len() != e.consts.len() || back != fresh || e2.nodes != e.nodes {
        c.fail(
            "constants written are not the constants read",
            format!("{fresh:?} => {back:?} in {}", show_expr(&e)),
        );
    }
    set_scalar_constants(&mut e2, &vals, &cref);
    if show_expr(&e2) != show_expr(&e) {
        c.fail("restoring constants does not restore the expression", show_expr(&e));
    }
    // any order, any subset of the constants
    let mut some = cref.clone();
    c.rng.shuffle(&mut some.const_indices);
    if c.rng.bool() {
        let keep = c.rng.usize(..=some.const_indices.len());
        some.const_indices.truncate(keep);
    }
    let part: Vec<T> = some.const_indices.iter().map(|_| gen_const(&mut c.rng)).collect();
    let mut want = vals.clone();
    for (i, v) in some.const_indices.iter().zip(&part) {
        want[*i] = *v;
    }
    set_scalar_constants(&mut e2, &part, &some);
    c.count("constants addressed out of order or in part", part.len() as u64);
    if e2.consts.iter().zip(&want).any(|(a, b)| !a.same(*b)) || e2.consts.len() != want.len() || e2.nodes != e.nodes {
        c.fail(
            "writing constants through a permuted or partial reference",
            format!("{part:?} to {:?} of {vals:?} gives {:?}", some.const_indices, e2.consts),
        );
    }
    let text = show_expr(&e);
    let before = e.clone();
    let changed = compress_constants(&mut e);
    let used: std::collections::HashSet<u16> = before
        .nodes
        .iter()
        .filter_map(|n| match n {
            PNode::Const { idx } => Some(*idx),
            _ => None,
        })
        .collect();
    if show_expr(&e) != text || e.consts.len() != used.len() {
        c.fail(
            "compressing constants changes the expression",
            format!("{text} => {}; {} => {} constants", show_expr(&e), before.consts.len(), e.consts.len()),
        );
    }
    if changed == same_expr(&e, &before) {
        c.fail("compress_constants misreports change", format!("{changed}: {text}"));
    }
    if ast.n_ops() > 0 {
        c.distinct(hash_of(&(&before.nodes, before.consts.len())));
        c.sample(|| text.clone());
    }
}

/// Tens of thousands of nodes, two bits of index shy of what the node encoding can address.
fn giant_case(c: &mut Case) {
    type O = BuiltinOpsF64;
    const D: usize = 3;
    // values as strings of leaves, joined pairwise: a balanced tree
    let leaves = 1000 + c.rng.usize(..63_000);
    let table = (leaves + c.rng.usize(..500)).min(65_000);
    let mut order: Vec<u16> = (0..table).map(|i| i as u16).collect();
    c.rng.shuffle(&mut order);
    let ops = all_ops::<O>(D);
    let binary: Vec<OpId> = ops.iter().copied().filter(|o| o.arity == 2).collect();
    let unary: Vec<OpId> = ops.iter().copied().filter(|o| o.arity == 1).collect();
    let p_var = [0.0, 0.0, 0.3][c.rng.usize(..3)];
    struct Part {
        nodes: Vec<PNode>,
        depth: usize,
    }
    let mut parts: Vec<Part> = (0..leaves)
        .map(|i| {
            let n = if c.rng.f64() < p_var {
                PNode::Var { feature: c.rng.u16(..) }
            } else {
                PNode::Const { idx: order[i] }
            };
            Part { nodes: vec![n], depth: 1 }
        })
        .collect();
    let mut n_ops = 0;
    while parts.len() > 1 {
        let mut next = Vec::with_capacity(parts.len() / 2 + 1);
        let mut it = parts.into_iter();
        while let Some(mut a) = it.next() {
            if let Some(b) = it.next() {
                let op = binary[c.rng.usize(..binary.len())];
                a.nodes.extend(b.nodes);
                a.nodes.push(PNode::Op { arity: 2, op: op.id });
                a.depth = 1 + a.depth.max(b.depth);
                n_ops += 1;
                if c.rng.u8(..8) == 0 {
                    let op = unary[c.rng.usize(..unary.len())];
                    a.nodes.push(PNode::Op { arity: 1, op: op.id });
                    a.depth += 1;
                    n_ops += 1;
                }
            }
            next.push(a);
        }
        parts = next;
    }
    let Part { nodes, depth } = parts.pop().unwrap();
    let leaf = PNode::Var { feature: 0 };
    if !node_utils::is_valid_postfix(&nodes) {
        c.fail("is_valid_postfix refuses a large expression", format!("{} nodes", nodes.len()));
    }
    {
        // everything first, then the operators: as many operands pending as there are leaves
        let pair = PNode::Op { arity: 2, op: binary[0].id };
        let mut late = vec![leaf; leaves];
        late.extend(vec![pair; leaves - 1]);
        for (extra, ok) in [(None, true), (Some(leaf), false), (Some(pair), false)] {
            let mut t = late.clone();
            t.extend(extra);
            if node_utils::is_valid_postfix(&t) != ok {
                c.fail("is_valid_postfix is wrong", format!("{} for {leaves} leaves and {} operators, then {extra:?}", !ok, leaves - 1));
            }
            if ok && (count_depth(&t) != leaves || subtree_sizes(&t).last() != Some(&t.len())) {
                c.fail("measurements of a long pending sequence are wrong", format!("depth {} and sizes {:?} for {leaves} leaves", count_depth(&t), subtree_sizes(&t).last()));
            }
        }
    }
    let consts: Vec<f64> = (0..table).map(|i| i as f64 + 0.5).collect();
    let used: Vec<u16> = nodes.iter().filter_map(|n| if let PNode::Const { idx } = n { Some(*idx) } else { None }).collect();
    let mut e = PostfixExpr::<f64, O, D>::new(nodes.clone(), consts, Metadata::default());
    let ctx = || format!("{} nodes, {leaves} leaves, {} constants used of {table}, depth {depth}", nodes.len(), used.len());
    let measured = [
        ("count_nodes", count_nodes(&nodes), leaves + n_ops),
        ("count_depth", count_depth(&nodes), depth),
        ("count_constant_nodes", count_constant_nodes(&nodes), used.len()),
        ("count_variable_nodes", node_utils::count_variable_nodes(&nodes), leaves - used.len()),
        ("count_operator_nodes", node_utils::count_operator_nodes(&nodes), n_ops),
        ("is_valid_postfix", node_utils::is_valid_postfix(&nodes) as usize, 1),
        ("the root's subtree size", *subtree_sizes(&nodes).last().unwrap(), leaves + n_ops),
    ];
    c.evals(measured.len() as u64 + 2);
    for (n, got, want) in measured {
        if got != want {
            c.fail(format!("{n} is wrong"), format!("{got} instead of {want}: {}", ctx()));
        }
    }
    // every value is addressed on its own
    let (vals, cref) = get_scalar_constants(&e);
    let twice: Vec<f64> = vals.iter().map(|v| v * 2.0).collect();
    set_scalar_constants(&mut e, &twice, &cref);
    if (0..table).any(|i| e.consts[i] != 2.0 * (i as f64 + 0.5)) {
        c.fail("constants written are not the constants read", ctx());
    }
    match guarded(|| {
        let changed = compress_constants(&mut e);
        (changed, e)
    }) {
        Err(p) => c.fail("compressing constants panics", format!("{p:?}: {}", ctx())),
        Ok((changed, e)) => {
            let now: Vec<f64> = e.nodes.iter().filter_map(|n| if let PNode::Const { idx } = n { e.consts.get(*idx as usize).copied() } else { None }).collect();
            let same = now.len() == used.len() && now.iter().zip(&used).all(|(v, i)| *v == 2.0 * (*i as f64 + 0.5));
            if !same || e.consts.len() != used.len() || !changed {
                c.fail("compressing constants changes the expression", format!("changed {changed}, {} constants now: {}", e.consts.len(), ctx()));
            }
        }
    }
    c.count("expressions of thousands of nodes", 1);
    c.distinct(hash_of(&(leaves, table, depth)));
}

pub fn p26(m: &Mon) {
    m.rule("random expressions up to 300 nodes; every measurement and constant helper against recursion over the independently rebuilt tree, and validity of randomly edited sequences; non-trivial = has an operator");
    m.require("edited sequences invalid", 1000);
    m.require("edited sequences still valid", 100);
    let n = m.scale(30_000, 600_000);
    m.cases("measure-f64", n, measure_case::<f64, BuiltinOpsF64, 3>);
    m.cases("measure-f32", n / 3, measure_case::<f32, BuiltinOpsF32, 3>);
    m.cases("measure-custom", n, measure_case::<f64, Mix4, 4>);
    m.require("expressions of thousands of nodes", 50);
    m.cases("giant", n / 300, giant_case);
}
