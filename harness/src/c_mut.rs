//! P06 legality of every mutation, P20 acceptance and bookkeeping of offspring.
use crate::ast::*;
use crate::common::*;
use crate::gen::*;
use crate::sgen::*;
use crate::spec;
use dynamic_expressions::operator_enum::presets::{BuiltinOpsF32, BuiltinOpsF64};
use dynamic_expressions::{EvalOptions, Metadata, OpId, OperatorSet, PNode, PostfixExpr};
use num_traits::{FromPrimitive, ToPrimitive};
use std::collections::HashSet;
use std::marker::PhantomData;
use symbolic_regression::verif::{crossover_generation, crossover_trees, CrossoverCtx};
use symbolic_regression::{
    insert_random_op_in_place, next_generation, random_expr, random_expr_append_ops, rotate_tree_in_place,
    Dataset, Evaluator, MemberId, MutationWeights, NextGenerationCtx, Options, PopMember,
    RunningSearchStatistics, TaggedDataset,
};

/// A tree whose constants are their values: equality is equality of what is denoted.
#[derive(Clone, PartialEq, Debug)]
pub enum V {
    Var(usize),
    C(u64),
    Op(OpId, Vec<V>),
}

pub fn vtree<T: Fl>(a: &Ast, consts: &[T]) -> V {
    match a {
        Ast::Var(f) => V::Var(*f),
        Ast::Const(i) => V::C(consts[*i].key()),
        Ast::Op(o, k) => V::Op(*o, k.iter().map(|c| vtree(c, consts)).collect()),
    }
}

fn is_leaf(v: &V) -> bool {
    !matches!(v, V::Op(..))
}

/// `c` is `p` with an edit satisfying `pred` at one position.
fn edit_at(p: &V, c: &V, pred: &dyn Fn(&V, &V) -> bool) -> bool {
    if pred(p, c) {
        return true;
    }
    let (V::Op(o1, k1), V::Op(o2, k2)) = (p, c) else {
        return false;
    };
    if o1 != o2 || k1.len() != k2.len() {
        return false;
    }
    let diff: Vec<usize> = (0..k1.len()).filter(|&i| k1[i] != k2[i]).collect();
    match diff.len() {
        0 => (0..k1.len()).any(|i| edit_at(&k1[i], &k2[i], pred)),
        1 => edit_at(&k1[diff[0]], &k2[diff[0]], pred),
        _ => false,
    }
}

fn carries(c: &V, whole: &V) -> bool {
    let V::Op(_, k) = c else { return false };
    (0..k.len()).any(|j| k[j] == *whole && (0..k.len()).all(|i| i == j || is_leaf(&k[i])))
}

fn rotated(p: &V, c: &V) -> bool {
    let (V::Op(r, rk), V::Op(pv, ck)) = (p, c) else {
        return false;
    };
    for j in 0..rk.len() {
        let V::Op(pv0, pk) = &rk[j] else { continue };
        if pv0 != pv || pk.len() != ck.len() {
            continue;
        }
        for k in 0..pk.len() {
            let mut root = rk.clone();
            root[j] = pk[k].clone();
            let mut new = pk.clone();
            new[k] = V::Op(*r, root);
            if new == *ck {
                return true;
            }
        }
    }
    false
}

pub fn subtrees<'a>(v: &'a V, out: &mut Vec<&'a V>) {
    out.push(v);
    if let V::Op(_, k) = v {
        for c in k {
            subtrees(c, out);
        }
    }
}

/// `c` is `p` with one subtree replaced by `x`; returns the replaced subtrees that explain it.
fn replaced_by<'a>(p: &'a V, c: &V, x: &V, out: &mut Vec<&'a V>) {
    if c == x {
        out.push(p);
    }
    if let (V::Op(o1, k1), V::Op(o2, k2)) = (p, c) {
        if o1 == o2 && k1.len() == k2.len() {
            let diff: Vec<usize> = (0..k1.len()).filter(|&i| k1[i] != k2[i]).collect();
            match diff.len() {
                0 => (0..k1.len()).for_each(|i| replaced_by(&k1[i], &k2[i], x, out)),
                1 => replaced_by(&k1[diff[0]], &k2[diff[0]], x, out),
                _ => {}
            }
        }
    }
}

pub fn crossed(a: &V, b: &V, a2: &V, b2: &V) -> bool {
    let mut sb = Vec::new();
    subtrees(b, &mut sb);
    sb.iter().any(|x| {
        let mut cut = Vec::new();
        replaced_by(a, a2, x, &mut cut);
        cut.iter().any(|y| {
            let mut out = Vec::new();
            replaced_by(b, b2, y, &mut out);
            out.iter().any(|z| z == x)
        })
    })
}

pub const KINDS: [&str; 12] = [
    "mutate_constant",
    "mutate_operator",
    "mutate_feature",
    "swap_operands",
    "rotate_tree",
    "add_node",
    "insert_node",
    "delete_node",
    "simplify",
    "randomize",
    "do_nothing",
    "optimize",
];

/// Constant table is exactly the set of referenced constants.
fn compact<T: Fl, O, const D: usize>(e: &PostfixExpr<T, O, D>, a: &Ast) -> Result<(), String> {
    let mut seen = vec![0usize; e.consts.len()];
    a.visit(&mut |n| {
        if let Ast::Const(i) = n {
            seen[*i] += 1;
        }
    });
    if seen.contains(&0) {
        return Err(format!("constants {:?}, references {:?}", e.consts, seen));
    }
    Ok(())
}

fn shared<T: Fl, O, const D: usize>(e: &PostfixExpr<T, O, D>) -> bool {
    let mut seen = vec![false; e.consts.len()];
    let mut twice = false;
    for n in &e.nodes {
        if let dynamic_expressions::PNode::Const { idx } = n {
            let i = *idx as usize;
            twice |= i < seen.len() && seen[i];
            if i < seen.len() {
                seen[i] = true;
            }
        }
    }
    twice
}

fn leaves_ok(v: &V) -> bool {
    matches!(v, V::Op(_, k) if k.iter().all(is_leaf))
}

#[allow(clippy::too_many_arguments)]
fn legal<T: Fl, O: OperatorSet<T = T>, const D: usize>(
    kind: &str,
    p: &PostfixExpr<T, O, D>,
    c: &PostfixExpr<T, O, D>,
    options: &Options<T, D>,
    curmaxsize: usize,
    temperature: f64,
) -> Result<(), String> {
    let pa = Ast::from_postfix(&p.nodes).unwrap();
    let ca = Ast::from_postfix(&c.nodes).unwrap();
    let (pv, cv) = (vtree(&pa, &p.consts), vtree(&ca, &c.consts));
    let err = |m: &str| Err(m.to_string());
    match kind {
        "do_nothing" => {
            if pv != cv {
                return err("an idle mutation changed the expression");
            }
        }
        "mutate_operator" => {
            let f = |a: &V, b: &V| matches!((a, b), (V::Op(o1, k1), V::Op(o2, k2)) if o1.arity == o2.arity && k1 == k2 && options.operators.ops_by_arity[o2.arity as usize - 1].contains(o2));
            if !edit_at(&pv, &cv, &f) {
                return err("not the exchange of one operator for one of the same arity");
            }
        }
        "mutate_feature" => {
            let f = |a: &V, b: &V| matches!((a, b), (V::Var(i), V::Var(j)) if i != j);
            if !edit_at(&pv, &cv, &f) {
                return err("not the exchange of one variable for another");
            }
        }
        "swap_operands" => {
            let f = |a: &V, b: &V| matches!((a, b), (V::Op(o1, k1), V::Op(o2, k2)) if o1 == o2 && k1.len() == 2 && k1[0] == k2[1] && k1[1] == k2[0]);
            if !edit_at(&pv, &cv, &f) {
                return err("not an exchange of the two operands of one binary operator");
            }
        }
        "rotate_tree" => {
            if !edit_at(&pv, &cv, &rotated) {
                return err("not one rotation");
            }
        }
        "add_node" => {
            let f = |a: &V, b: &V| is_leaf(a) && leaves_ok(b);
            if !(edit_at(&pv, &cv, &f) || carries(&cv, &pv)) {
                return err("neither a leaf expanded into an operator over leaves nor an operator put on top");
            }
        }
        "insert_node" => {
            let f = |a: &V, b: &V| carries(b, a);
            if !edit_at(&pv, &cv, &f) {
                return err("not one operator inserted above a subtree");
            }
        }
        "delete_node" => {
            let f = |a: &V, b: &V| matches!(a, V::Op(_, k) if k.contains(b));
            if !edit_at(&pv, &cv, &f) {
                return err("not one operator replaced by one of its operands");
            }
        }
        "randomize" => {
            let lim = curmaxsize.min(options.maxsize).max(1);
            if ca.size() > lim {
                return Err(format!("random expression of {} nodes, limit {lim}", ca.size()));
            }
        }
        "simplify" => {
            let mut s = p.clone();
            let o = EvalOptions {
                check_finite: true,
                early_exit: true,
            };
            dynamic_expressions::simplify_in_place(&mut s, &o);
            let sa = Ast::from_postfix(&s.nodes).unwrap();
            if vtree(&sa, &s.consts) != cv {
                return Err(format!("differs from the simplified parent {}", show_expr(&s)));
            }
        }
        "mutate_constant" | "optimize" => {
            // same shape, constants may differ; parent index -> child value must be a function
            let mut map: Vec<Option<T>> = vec![None; p.consts.len()];
            fn walk<T: Fl>(p: &Ast, c: &Ast, pc: &[T], cc: &[T], map: &mut [Option<T>]) -> bool {
                match (p, c) {
                    (Ast::Var(a), Ast::Var(b)) => a == b,
                    (Ast::Const(a), Ast::Const(b)) => {
                        let _ = pc;
                        let v = cc[*b];
                        match map[*a] {
                            None => {
                                map[*a] = Some(v);
                                true
                            }
                            Some(o) => o.same(v),
                        }
                    }
                    (Ast::Op(o1, k1), Ast::Op(o2, k2)) => {
                        o1 == o2 && k1.iter().zip(k2).all(|(a, b)| walk(a, b, pc, cc, map))
                    }
                    _ => false,
                }
            }
            if !walk(&pa, &ca, &p.consts, &c.consts, &mut map) {
                return err("more than constants changed");
            }
            if kind == "mutate_constant" {
                let changed: Vec<usize> = (0..map.len())
                    .filter(|&i| map[i].is_some_and(|v| !v.same(p.consts[i])))
                    .collect();
                if changed.len() > 1 {
                    return err("several constants changed");
                }
                let m = options.perturbation_factor * temperature.max(0.0) + 1.1;
                for i in changed {
                    let (old, new) = (p.consts[i].f(), map[i].unwrap().f());
                    let r = (new / old).abs();
                    let tol = 1.0 + 8.0 * T::eps();
                    if !(r <= m * tol && r >= 1.0 / (m * tol)) {
                        return Err(format!("constant {old} became {new}: factor beyond {m}"));
                    }
                }
            }
        }
        _ => unreachable!(),
    }
    Ok(())
}

fn mutation_case<T, O, const D: usize>(c: &mut Case)
where
    T: Fl + FromPrimitive + ToPrimitive,
    O: OperatorSet<T = T>,
{
    let ops = gen_ops::<O>(&mut c.rng, D);
    let n_features = sized(&mut c.rng, 1..5, 16, 5..60);
    let n_rows = 1 + c.rng.usize(..6);
    let data = gen_dataset::<T>(&mut c.rng, n_features, n_rows);
    let maxsize = 5 + sized(&mut c.rng, 0..40, 16, 40..160);
    let mut options = Options::<T, D> {
        operators: operators_from(&ops),
        maxsize,
        maxdepth: if c.rng.u8(..4) == 0 { 3 + c.rng.usize(..5) } else { 60 },
        annealing: false,
        use_frequency: false,
        progress: false,
        perturbation_factor: c.rng.f64() * 2.0,
        probability_negate_constant: c.rng.f64(),
        optimizer_probability: 0.5,
        optimizer_nrestarts: c.rng.usize(..2),
        ..Default::default()
    };
    let g = GenCfg {
        ops: ops.clone(),
        n_features,
        n_consts: sized(&mut c.rng, 1..6, 16, 6..60),
        p_const: c.rng.f64(),
    };
    let budget = 1 + sized(&mut c.rng, 0..maxsize.min(24), 16, 0..maxsize);
    let mut e: PostfixExpr<T, O, D> = if c.rng.u8(..3) == 0 {
        gen_expr(&mut c.rng, &g, budget)
    } else {
        gen_expr_canonical(&mut c.rng, &g, budget)
    };
    dynamic_expressions::compress_constants(&mut e);
    let parent_shared = shared(&e);
    let tagged = TaggedDataset::new(&data, None);
    let mut ev = Evaluator::<T, D>::new(n_rows);
    let mut parent = PopMember::from_expr(MemberId(7), None, 3, e, n_features);
    parent.evaluate(&tagged, &options, &mut ev);
    let stats = RunningSearchStatistics::new(maxsize, 1000);
    let curmaxsize = if c.rng.u8(..4) == 0 { 3 + c.rng.usize(..maxsize) } else { maxsize };
    let temperature = c.rng.f64();
    let allowed = |o: OpId| ops.contains(&o);
    let parent_ops: Vec<OpId> = {
        let mut v = Vec::new();
        Ast::from_postfix(&parent.expr.nodes).unwrap().visit(&mut |n| {
            if let Ast::Op(o, _) = n {
                v.push(*o)
            }
        });
        v
    };
    let _ = parent_ops;
    let (mut next_id, mut next_birth) = (100u64, 50u64);
    let mut rng = Rng::with_seed(c.rng.u64(..));
    for kind in KINDS {
        options.mutation_weights = weights_zero();
        *weight_mut(&mut options.mutation_weights, kind) = 1.0;
        let mut const_moves = (0u32, 0u32);
        for _ in 0..6 {
            let (baby, accepted, _) = next_generation(
                &parent,
                NextGenerationCtx {
                    rng: &mut rng,
                    dataset: tagged,
                    temperature,
                    curmaxsize,
                    stats: &stats,
                    options: &options,
                    evaluator: &mut ev,
                    next_id: &mut next_id,
                    next_birth: &mut next_birth,
                    _ops: PhantomData::<O>,
                },
            );
            c.eval();
            let ctx = format!(
                "{kind}: {} => {} (accepted {accepted}, limit {curmaxsize})",
                show_expr(&parent.expr),
                show_expr(&baby.expr)
            );
            let a = match well_formed::<T, O, D>(&baby.expr, n_features, &allowed) {
                Ok(a) => a,
                Err(m) => {
                    c.fail(format!("{kind} yields a malformed expression"), format!("{m}: {ctx}"));
                    return;
                }
            };
            if let Err(m) = compact(&baby.expr, &a) {
                c.fail(format!("{kind} leaves unreferenced constants"), format!("{m}: {ctx}"));
                return;
            }
            if !parent_shared && shared(&baby.expr) {
                c.fail(format!("{kind} makes two nodes share a constant"), ctx.clone());
                return;
            }
            if !accepted {
                if baby.expr.nodes != parent.expr.nodes {
                    c.fail(format!("a rejected {kind} returns something else than its parent"), ctx.clone());
                }
                continue;
            }
            // conditioning can rule a mutation out: then nothing happens
            let pv = vtree(&Ast::from_postfix(&parent.expr.nodes).unwrap(), &parent.expr.consts);
            let cv = vtree(&a, &baby.expr.consts);
            if pv == cv {
                c.count("identical offspring", 1);
                continue;
            }
            c.distinct(hash_of(&ctx));
            c.count("edits checked", 1);
            if kind == "mutate_constant" {
                const_moves.0 += 1;
            }
            const_moves.1 += 1;
            if let Err(m) = legal::<T, O, D>(kind, &parent.expr, &baby.expr, &options, curmaxsize, temperature) {
                c.fail(format!("{kind} is not the edit it is named after"), format!("{m}: {ctx}"));
                return;
            }
            c.sample(|| ctx.clone());
        }
        match kind {
            "mutate_constant" => c.count("constant edits", const_moves.1 as u64),
            "mutate_operator" => c.count("operator edits", const_moves.1 as u64),
            "mutate_feature" => c.count("variable edits", const_moves.1 as u64),
            "swap_operands" => c.count("swaps", const_moves.1 as u64),
            "rotate_tree" => c.count("rotations", const_moves.1 as u64),
            "add_node" => c.count("added nodes", const_moves.1 as u64),
            "insert_node" => c.count("inserted nodes", const_moves.1 as u64),
            "delete_node" => c.count("deleted nodes", const_moves.1 as u64),
            "simplify" => c.count("simplifications", const_moves.1 as u64),
            "randomize" => c.count("random trees", const_moves.1 as u64),
            "optimize" => c.count("optimisations", const_moves.1 as u64),
            _ => {}
        }
    }

    // direct building blocks
    for _ in 0..4 {
        let size = 1 + rng.usize(..40);
        let r: PostfixExpr<T, O, D> = random_expr(&mut rng, &options.operators, n_features, size);
        c.eval();
        match well_formed::<T, O, D>(&r, n_features, &allowed) {
            Err(m) => c.fail("random_expr yields a malformed expression", format!("{m}: {}", show_expr(&r))),
            Ok(a) => {
                if a.size() > size {
                    c.fail("random_expr exceeds the requested size", format!("{} > {size}", a.size()));
                }
                // growth stops early only when nothing fits any more
                let rem = size - a.size();
                if rem > 0 && (1..=D.min(rem)).any(|k| !options.operators.ops_by_arity[k - 1].is_empty()) {
                    c.fail("random_expr stops before the requested size", format!("{} of {size}", a.size()));
                }
            }
        }
        let (n_app, lim) = (rng.usize(..8), 1 + rng.usize(..30));
        let r: PostfixExpr<T, O, D> = random_expr_append_ops(&mut rng, &options.operators, n_features, n_app, lim);
        c.eval();
        match well_formed::<T, O, D>(&r, n_features, &allowed) {
            Err(m) => c.fail("random_expr_append_ops yields a malformed expression", format!("{m}: {}", show_expr(&r))),
            Ok(a) => {
                if a.size() > lim || a.n_ops() > n_app {
                    c.fail(
                        "random_expr_append_ops exceeds its limits",
                        format!("{} nodes of {lim}, {} operators of {n_app}", a.size(), a.n_ops()),
                    );
                }
                if let Err(m) = compact(&r, &a) {
                    c.fail("random_expr_append_ops leaves unreferenced constants", m);
                }
            }
        }
        for which in 0..2 {
            let mut r = parent.expr.clone();
            let ok = if which == 0 {
                insert_random_op_in_place(&mut rng, &mut r, &options.operators, n_features)
            } else {
                rotate_tree_in_place(&mut rng, &mut r)
            };
            let kind = ["insert_node", "rotate_tree"][which];
            c.eval();
            let ctx = format!("{kind}: {} => {}", show_expr(&parent.expr), show_expr(&r));
            if let Err(m) = well_formed::<T, O, D>(&r, n_features, &allowed) {
                c.fail(format!("{kind} yields a malformed expression"), format!("{m}: {ctx}"));
                continue;
            }
            if ok {
                if let Err(m) = legal::<T, O, D>(kind, &parent.expr, &r, &options, 1000, temperature) {
                    c.fail(format!("{kind} is not the edit it is named after"), format!("{m}: {ctx}"));
                }
            } else if r.nodes != parent.expr.nodes {
                c.fail(format!("{kind} reports nothing done but edits"), ctx);
            }
        }
    }

    // recombination
    let budget = 1 + c.rng.usize(..16);
    let mut e2: PostfixExpr<T, O, D> = if parent_shared {
        gen_expr(&mut c.rng, &g, budget)
    } else {
        gen_expr_canonical(&mut c.rng, &g, budget)
    };
    dynamic_expressions::compress_constants(&mut e2);
    let other_shared = shared(&e2);
    let mut parent2 = PopMember::from_expr(MemberId(8), None, 4, e2, n_features);
    parent2.evaluate(&tagged, &options, &mut ev);
    for round in 0..8 {
        let (a, b, full) = if round % 2 == 0 {
            let (a, b) = crossover_trees(&mut rng, &parent.expr, &parent2.expr);
            (a, b, true)
        } else {
            let (id0, birth0) = (next_id, next_birth);
            let (m1, m2, accepted, _) = crossover_generation(
                &parent,
                &parent2,
                CrossoverCtx {
                    rng: &mut rng,
                    dataset: tagged,
                    curmaxsize,
                    options: &options,
                    evaluator: &mut ev,
                    next_id: &mut next_id,
                    next_birth: &mut next_birth,
                    _ops: PhantomData::<O>,
                },
            );
            if accepted {
                let _ = (id0, birth0);
            }
            (m1.expr, m2.expr, accepted)
        };
        c.eval();
        c.count("recombinations", 1);
        let ctx = format!(
            "crossover of {} and {} => {} and {}",
            show_expr(&parent.expr),
            show_expr(&parent2.expr),
            show_expr(&a),
            show_expr(&b)
        );
        let mut vs = Vec::new();
        for (e, lineage_shared) in [(&a, parent_shared || other_shared), (&b, parent_shared || other_shared)] {
            match well_formed::<T, O, D>(e, n_features, &allowed) {
                Ok(t) => {
                    if let Err(m) = compact(e, &t) {
                        c.fail("crossover leaves unreferenced constants", format!("{m}: {ctx}"));
                    }
                    if !lineage_shared && shared(e) {
                        c.fail("crossover makes two nodes share a constant", ctx.clone());
                    }
                    vs.push(vtree(&t, &e.consts));
                }
                Err(m) => {
                    c.fail("crossover yields a malformed expression", format!("{m}: {ctx}"));
                    return;
                }
            }
        }
        let p1 = vtree(&Ast::from_postfix(&parent.expr.nodes).unwrap(), &parent.expr.consts);
        let p2 = vtree(&Ast::from_postfix(&parent2.expr.nodes).unwrap(), &parent2.expr.consts);
        let fine = if full { crossed(&p1, &p2, &vs[0], &vs[1]) } else { vs[0] == p1 && vs[1] == p2 };
        if !fine {
            c.fail("crossover is not an exchange of one subtree each", ctx);
            return;
        }
    }
}

// ------------------------------------------------------------------------ P06: every edit occurs

/// Every way in which an edit of `kind` explains the step from `p` to `c`, as labels.
fn explain(kind: &str, p: &V, c: &V, at: usize, out: &mut HashSet<Label>) {
    match (kind, p, c) {
        ("mutate_operator", V::Op(o1, k1), V::Op(o2, k2)) if o1 != o2 && k1 == k2 => {
            out.insert(("place", at, 0, 0));
            out.insert(("operator", o2.arity as usize, o2.id as usize, 0));
        }
        ("mutate_feature", V::Var(a), V::Var(b)) if a != b => {
            out.insert(("place", at, 0, 0));
            out.insert(("feature", *b, 0, 0));
        }
        ("mutate_constant", V::C(a), V::C(b)) if a != b => {
            out.insert(("place", at, 0, 0));
        }
        ("swap_operands", V::Op(o1, k1), V::Op(o2, k2))
            if o1 == o2 && k1.len() == 2 && k1[0] == k2[1] && k1[1] == k2[0] =>
        {
            out.insert(("place", at, 0, 0));
        }
        ("rotate_tree", V::Op(r, rk), V::Op(pv, ck)) => {
            for (j, x) in rk.iter().enumerate() {
                let V::Op(pv0, pk) = x else { continue };
                if pv0 != pv || pk.len() != ck.len() {
                    continue;
                }
                for k in 0..pk.len() {
                    let mut root = rk.clone();
                    root[j] = pk[k].clone();
                    let mut new = pk.clone();
                    new[k] = V::Op(*r, root);
                    if new == *ck {
                        out.insert(("rotation", at, j, k));
                    }
                }
            }
        }
        ("delete_node", V::Op(_, k), b) => {
            for (j, x) in k.iter().enumerate() {
                if x == b {
                    out.insert(("operand", at, j, 0));
                }
            }
        }
        _ => {}
    }
    let leaves = |k: &[V], skip: usize, out: &mut HashSet<Label>| {
        for (i, x) in k.iter().enumerate() {
            match x {
                V::Var(f) if i != skip => drop(out.insert(("feature", *f, 0, 0))),
                V::C(_) if i != skip => drop(out.insert(("constant", 0, 0, 0))),
                _ => {}
            }
        }
    };
    if kind == "insert_node" || (kind == "add_node" && at == 0) {
        if let V::Op(o, k) = c {
            for j in 0..k.len() {
                if k[j] == *p && (0..k.len()).all(|i| i == j || is_leaf(&k[i])) {
                    if kind == "insert_node" {
                        out.insert(("place", at, 0, 0));
                    }
                    out.insert(("operator", o.arity as usize, o.id as usize, j));
                    leaves(k, j, out);
                }
            }
        }
    }
    if kind == "add_node" && is_leaf(p) && leaves_ok(c) {
        if let V::Op(o, k) = c {
            out.insert(("leaf", at, 0, 0));
            out.insert(("operator below", o.arity as usize, o.id as usize, 0));
            leaves(k, usize::MAX, out);
        }
    }
    if let (V::Op(o1, k1), V::Op(o2, k2)) = (p, c) {
        if o1 == o2 && k1.len() == k2.len() {
            let diff: Vec<usize> = (0..k1.len()).filter(|&i| k1[i] != k2[i]).collect();
            let mut below = at + 1;
            for i in 0..k1.len() {
                if diff.is_empty() || diff == [i] {
                    explain(kind, &k1[i], &k2[i], below, out);
                }
                let mut s = Vec::new();
                subtrees(&k1[i], &mut s);
                below += s.len();
            }
        }
    }
}

type Label = (&'static str, usize, usize, usize);

/// The labels that must occur, and the least probability of one of them when places, operators and
/// operands are drawn uniformly, one after the other.
fn expected(kind: &str, p: &V, ops: &[OpId], nf: usize) -> (HashSet<Label>, f64) {
    let mut all = Vec::new();
    subtrees(p, &mut all);
    let mut out: HashSet<Label> = HashSet::new();
    let same = |a: u8| ops.iter().filter(|o| o.arity == a).count();
    let widest = ops.iter().map(|o| o.arity as usize).max().unwrap();
    let (mut roots, mut pivots) = (0, 1);
    let mut rare = 1.0f64;
    let leaves = |out: &mut HashSet<Label>| {
        if widest > 1 || kind == "add_node" {
            (0..nf).for_each(|f| drop(out.insert(("feature", f, 0, 0))));
            out.insert(("constant", 0, 0, 0));
        }
    };
    for (at, v) in all.iter().enumerate() {
        match (kind, v) {
            ("mutate_operator", V::Op(o, _)) => {
                roots += 1;
                if same(o.arity) > 1 {
                    out.insert(("place", at, 0, 0));
                }
            }
            ("mutate_feature", V::Var(_)) if nf > 1 => {
                roots += 1;
                out.insert(("place", at, 0, 0));
            }
            ("mutate_constant", V::C(_)) => {
                roots += 1;
                out.insert(("place", at, 0, 0));
            }
            ("swap_operands", V::Op(_, k)) if k.len() == 2 => {
                roots += 1;
                if k[0] != k[1] {
                    out.insert(("place", at, 0, 0));
                }
            }
            ("rotate_tree", V::Op(r, k)) => {
                let inner: Vec<usize> = (0..k.len()).filter(|&j| !is_leaf(&k[j])).collect();
                roots += !inner.is_empty() as usize;
                pivots = pivots.max(inner.len());
                for j in inner {
                    let V::Op(pv, pk) = &k[j] else { unreachable!() };
                    for i in 0..pk.len() {
                        let mut root = k.clone();
                        root[j] = pk[i].clone();
                        let mut new = pk.clone();
                        new[i] = V::Op(*r, root);
                        if V::Op(*pv, new) != **v {
                            out.insert(("rotation", at, j, i));
                        }
                    }
                }
            }
            ("delete_node", V::Op(_, k)) => {
                roots += 1;
                (0..k.len()).for_each(|j| drop(out.insert(("operand", at, j, 0))));
            }
            ("insert_node", _) => {
                roots += 1;
                out.insert(("place", at, 0, 0));
            }
            ("add_node", _) if is_leaf(v) => {
                roots += 1;
                out.insert(("leaf", at, 0, 0));
            }
            _ => {}
        }
    }
    if roots == 0 {
        return (HashSet::new(), 1.0);
    }
    match kind {
        "mutate_operator" => {
            for o in ops {
                let there = all.iter().any(|v| matches!(v, V::Op(x, _) if x.arity == o.arity && x != o));
                if there {
                    out.insert(("operator", o.arity as usize, o.id as usize, 0));
                }
            }
            let most = ops.iter().map(|o| same(o.arity)).max().unwrap();
            rare = 1.0 / (roots * most) as f64;
        }
        "mutate_feature" => {
            for f in 0..nf {
                if all.iter().any(|v| matches!(v, V::Var(x) if *x != f)) {
                    out.insert(("feature", f, 0, 0));
                }
            }
            rare = 1.0 / (nf * roots) as f64;
        }
        "rotate_tree" => rare = 1.0 / (roots * pivots * widest) as f64,
        "delete_node" => rare = 1.0 / (roots * widest) as f64,
        "insert_node" | "add_node" => {
            for o in ops {
                (0..o.arity as usize).for_each(|j| drop(out.insert(("operator", o.arity as usize, o.id as usize, j))));
                if kind == "add_node" {
                    out.insert(("operator below", o.arity as usize, o.id as usize, 0));
                }
            }
            leaves(&mut out);
            // half of the leaves are constants; half of the additions are on top
            let wide = ops.iter().filter(|o| o.arity > 1 || kind == "add_node").count().max(1);
            let leaf = wide as f64 / (ops.len() * nf * 4) as f64;
            rare = (0.5 / roots as f64).min(0.5 / (ops.len() * widest) as f64).min(leaf);
        }
        _ => rare = 1.0 / roots as f64,
    }
    (out, rare)
}

/// Operators whose values stay finite on tame data, so that no edit is rejected for its loss.
fn reach_case<O: OperatorSet<T = f64>, const D: usize>(c: &mut Case, names: &[(&str, u8)]) {
    let all: Vec<OpId> = names.iter().filter(|n| n.1 as usize <= D).map(|n| op_named::<O>(n.0, n.1)).collect();
    let mut ops: Vec<OpId> = all.iter().copied().filter(|_| c.rng.u8(..4) > 0).collect();
    if ops.is_empty() {
        ops = all;
    }
    let nf = 1 + sized(&mut c.rng, 0..5, 3, 5..50);
    let g = GenCfg { ops: ops.clone(), n_features: nf, n_consts: 4, p_const: 0.2 + 0.6 * c.rng.f64() };
    let budget = 1 + sized(&mut c.rng, 0..20, 3, 20..110);
    let mut e: PostfixExpr<f64, O, D> = gen_expr_canonical(&mut c.rng, &g, budget);
    for (i, k) in e.consts.iter_mut().enumerate() {
        *k = 0.5 + 1.5 * c.rng.f64() + i as f64 * 1e-6;
    }
    let data = Dataset::new(gen_matrix::<f64>(&mut c.rng, nf, 1, Data::Tame), ndarray::Array1::from_elem(1, 0.25));
    let size = e.nodes.len();
    let mut options = Options::<f64, D> {
        operators: operators_from(&ops),
        maxsize: size + 60,
        maxdepth: size + 60,
        annealing: false,
        use_frequency: false,
        progress: false,
        should_simplify: false,
        ..Default::default()
    };
    let tagged = TaggedDataset::new(&data, None);
    let mut ev = Evaluator::<f64, D>::new(1);
    let stats = RunningSearchStatistics::new(options.maxsize, 1000);
    let pv = vtree(&Ast::from_postfix(&e.nodes).unwrap(), &e.consts);
    let mut parent = PopMember::from_expr(MemberId(7), None, 3, e, nf);
    parent.evaluate(&tagged, &options, &mut ev);
    let mut rng = Rng::with_seed(c.rng.u64(..));
    let (mut next_id, mut next_birth) = (100u64, 50u64);
    for kind in ["mutate_constant", "mutate_operator", "mutate_feature", "swap_operands", "rotate_tree", "add_node", "insert_node", "delete_node", "randomize"] {
        let (want, rare) = if kind == "randomize" {
            let mut w: HashSet<Label> = ops.iter().map(|o| ("operator", o.arity as usize, o.id as usize, 0)).collect();
            w.extend((0..nf).map(|f| ("feature", f, 0, 0)));
            w.insert(("constant", 0, 0, 0));
            // about half of all random trees have more leaves than this needs
            (w, 0.1 / (ops.len().max(nf)) as f64)
        } else {
            expected(kind, &pv, &ops, nf)
        };
        let tries = (32.0 / rare).ceil() as usize;
        if want.is_empty() || tries > 60_000 {
            continue;
        }
        options.mutation_weights = weights_zero();
        *weight_mut(&mut options.mutation_weights, kind) = 1.0;
        let mut seen: HashSet<Label> = HashSet::new();
        let mut left = want.len();
        for _ in 0..tries {
            let (baby, accepted, _) = next_generation(
                &parent,
                NextGenerationCtx {
                    rng: &mut rng,
                    dataset: tagged,
                    temperature: 0.5,
                    curmaxsize: options.maxsize,
                    stats: &stats,
                    options: &options,
                    evaluator: &mut ev,
                    next_id: &mut next_id,
                    next_birth: &mut next_birth,
                    _ops: PhantomData::<O>,
                },
            );
            c.eval();
            if !accepted {
                continue;
            }
            let Ok(a) = Ast::from_postfix(&baby.expr.nodes) else { continue };
            let mut new = HashSet::new();
            if kind == "randomize" {
                a.visit(&mut |n| {
                    new.insert(match n {
                        Ast::Op(o, _) => ("operator", o.arity as usize, o.id as usize, 0),
                        Ast::Var(f) => ("feature", *f, 0, 0),
                        Ast::Const(_) => ("constant", 0, 0, 0),
                    });
                });
            } else {
                explain(kind, &pv, &vtree(&a, &baby.expr.consts), 0, &mut new);
            }
            left -= new.iter().filter(|l| want.contains(l) && !seen.contains(l)).count();
            seen.extend(new);
            if left == 0 {
                break;
            }
        }
        if left > 0 {
            let missing: Vec<_> = want.difference(&seen).take(6).collect();
            c.fail(
                format!("some choices never occur in {kind}"),
                format!("{left} of {} missing after {tries} draws, e.g. {missing:?} (kind, node in prefix order, ...): {}, {nf} features, {ops:?}", want.len(), show_expr(&parent.expr)),
            );
            return;
        }
        c.count("choices seen", want.len() as u64);
        c.count("kinds with every choice seen", 1);
    }
    c.distinct(hash_of(&show_expr(&parent.expr)));
}

/// A random replacement has any size up to the limit, each as likely as the others.
fn random_size_case(c: &mut Case) {
    type O = BuiltinOpsF64;
    const D: usize = 3;
    let ops = [op_named::<O>("sin", 1), op_named::<O>("sub", 2), op_named::<O>("add", 2), op_named::<O>("fma", 3)];
    let k = 2 + c.rng.usize(..3);
    let nf = 1 + c.rng.usize(..3);
    let data = Dataset::new(gen_matrix::<f64>(&mut c.rng, nf, 1, Data::Tame), ndarray::Array1::from_elem(1, 0.25));
    // mostly small limits, now and then far larger ones
    let big = c.rng.u8(..8) == 0;
    let maxsize = if big { 70 + c.rng.usize(..230) } else { 3 + c.rng.usize(..30) };
    let limit = if big { 66 + c.rng.usize(..maxsize - 65) } else { 1 + c.rng.usize(..maxsize) };
    let per = if big { 60 } else { 400 };
    let mut options = Options::<f64, D> {
        operators: operators_from(&ops[..k]),
        maxsize,
        maxdepth: 300,
        annealing: false,
        use_frequency: false,
        progress: false,
        ..Default::default()
    };
    options.mutation_weights = weights_zero();
    options.mutation_weights.randomize = 1.0;
    let tagged = TaggedDataset::new(&data, None);
    let mut ev = Evaluator::<f64, D>::new(1);
    let stats = RunningSearchStatistics::new(maxsize, 1000);
    let e: PostfixExpr<f64, O, D> = PostfixExpr::new(vec![dynamic_expressions::PNode::Var { feature: 0 }], vec![], Default::default());
    let mut parent = PopMember::from_expr(MemberId(7), None, 3, e, nf);
    parent.evaluate(&tagged, &options, &mut ev);
    let mut rng = Rng::with_seed(c.rng.u64(..));
    let (mut next_id, mut next_birth) = (100u64, 50u64);
    let draws = per * limit;
    let mut got = vec![0u32; limit + 1];
    for _ in 0..draws {
        let (baby, _, evals) = next_generation(
            &parent,
            NextGenerationCtx {
                rng: &mut rng,
                dataset: tagged,
                temperature: 0.5,
                curmaxsize: limit,
                stats: &stats,
                options: &options,
                evaluator: &mut ev,
                next_id: &mut next_id,
                next_birth: &mut next_birth,
                _ops: PhantomData::<O>,
            },
        );
        // an overflow is scored too
        if evals == 0.0 {
            c.fail("a random tree within the limits is refused", format!("limit {limit} of {maxsize}"));
            return;
        }
        if baby.expr.nodes.len() > limit {
            c.fail("a random tree is larger than the limit", show_expr(&baby.expr));
            return;
        }
        got[baby.expr.nodes.len()] += 1;
    }
    c.evals(draws as u64);
    c.count("random trees measured", draws as u64);
    if big {
        c.count("random trees under limits above 64", draws as u64);
    }
    let p = 1.0 / limit as f64;
    let sd = (draws as f64 * p * (1.0 - p)).sqrt();
    c.distinct(hash_of(&(&got, maxsize, nf, k)));
    if let Some(s) = (1..=limit).find(|&s| (got[s] as f64 - per as f64).abs() > 6.5 * sd + 3.0) {
        c.fail("the sizes of random trees are not equally likely", format!("size {s}: {got:?} in {draws} draws, limit {limit} of {maxsize}, {k} operators"));
    }
}

/// A fresh leaf is a constant or a variable, either as likely; variables are equally likely and
/// constants standard normal.
fn random_leaf_case<T: Fl, O: OperatorSet<T = T>, const D: usize>(c: &mut Case) {
    let mut ops = all_ops::<O>(D);
    c.rng.shuffle(&mut ops);
    ops.truncate(1 + c.rng.usize(..4));
    let operators = operators_from::<D>(&ops);
    let nf = 1 + c.rng.usize(..6);
    let whole = c.rng.bool();
    let mut rng = Rng::with_seed(c.rng.u64(..));
    let (mut vars, mut values) = (vec![0u32; nf], Vec::<f64>::new());
    while values.len() + vars.iter().sum::<u32>() as usize <= 20_000 {
        let r: PostfixExpr<T, O, D> = if whole {
            random_expr(&mut rng, &operators, nf, 40)
        } else {
            random_expr_append_ops(&mut rng, &operators, nf, 12, 60)
        };
        for n in &r.nodes {
            match *n {
                dynamic_expressions::PNode::Var { feature } if (feature as usize) < nf => vars[feature as usize] += 1,
                dynamic_expressions::PNode::Const { idx } if (idx as usize) < r.consts.len() => {
                    values.push(r.consts[idx as usize].to_f64().unwrap())
                }
                dynamic_expressions::PNode::Op { .. } => {}
                _ => c.fail("a random tree is malformed", show_expr(&r)),
            }
        }
    }
    c.eval();
    let total = values.len() as f64 + vars.iter().sum::<u32>() as f64;
    let off = |k: f64, n: f64, p: f64| (k - n * p).abs() > 6.5 * (n * p * (1.0 - p)).sqrt() + 3.0;
    c.count("fresh leaves measured", total as u64);
    c.distinct(hash_of(&(&vars, values.len())));
    if off(values.len() as f64, total, 0.5) {
        c.fail("fresh leaves are not constants and variables in equal parts", format!("{} constants of {total}", values.len()));
    }
    let of_vars = total - values.len() as f64;
    if nf > 1 && vars.iter().any(|&v| off(v as f64, of_vars, 1.0 / nf as f64)) {
        c.fail("the variables of fresh leaves are not equally likely", format!("{vars:?}"));
    }
    let n = values.len() as f64;
    for (z, tail) in [(3.0, 0.0013499), (2.5, 0.0062097), (2.0, 0.0227501), (1.5, 0.0668072), (1.0, 0.1586553), (0.5, 0.3085375), (0.0, 0.5)] {
        let above = values.iter().filter(|v| **v > z).count() as f64;
        let below = values.iter().filter(|v| **v < -z).count() as f64;
        if off(above, n, tail) || off(below, n, tail) {
            c.fail(
                "fresh constants are not standard normal",
                format!("{above} above {z}, {below} below -{z} of {n}, expected {:.1} each", n * tail),
            );
            return;
        }
    }
}

/// Constants grow and shrink alike, by factors spread evenly over the allowed range of magnitudes.
fn scaling_case(c: &mut Case) {
    type T = f64;
    type O = BuiltinOpsF64;
    const D: usize = 2;
    let data = gen_dataset::<T>(&mut c.rng, 1, 2);
    let ops = [op_named::<O>("add", 2)];
    let mut options = Options::<T, D> {
        operators: operators_from(&ops),
        maxsize: 12,
        annealing: false,
        use_frequency: false,
        progress: false,
        perturbation_factor: [0.129, 1.0, 3.0 * c.rng.f64()][c.rng.usize(..3)],
        probability_negate_constant: c.rng.f64(),
        ..Default::default()
    };
    options.mutation_weights = weights_zero();
    options.mutation_weights.mutate_constant = 1.0;
    let temperature = [0.0, 1.0, c.rng.f64()][c.rng.usize(..3)];
    let k = 1 + c.rng.usize(..4);
    let mut nodes = vec![PNode::Const { idx: 0 }];
    for i in 1..k {
        nodes.push(PNode::Const { idx: i as u16 });
        nodes.push(PNode::Op { arity: 2, op: ops[0].id });
    }
    let start: Vec<f64> = (0..k).map(|i| 1.5 + i as f64).collect();
    let e = PostfixExpr::<T, O, D>::new(nodes, start.clone(), Metadata::default());
    let tagged = TaggedDataset::new(&data, None);
    let mut ev = Evaluator::<T, D>::new(2);
    let mut parent = PopMember::from_expr(MemberId(7), None, 3, e, 1);
    parent.evaluate(&tagged, &options, &mut ev);
    let stats = RunningSearchStatistics::new(12, 1000);
    let (mut next_id, mut next_birth) = (100u64, 50u64);
    let mut rng = Rng::with_seed(c.rng.u64(..));
    let top = (options.perturbation_factor * temperature + 1.1).ln();
    let (n, bins) = (12_000, 12);
    let mut hist = vec![0u32; bins];
    let mut which = vec![0u32; k];
    for _ in 0..n {
        let (baby, _, _) = next_generation(
            &parent,
            NextGenerationCtx {
                rng: &mut rng,
                dataset: tagged,
                temperature,
                curmaxsize: 12,
                stats: &stats,
                options: &options,
                evaluator: &mut ev,
                next_id: &mut next_id,
                next_birth: &mut next_birth,
                _ops: PhantomData::<O>,
            },
        );
        if let Some(i) = (0..k).find(|&i| baby.expr.consts.get(i).is_some_and(|v| *v != start[i])) {
            let at = (baby.expr.consts[i] / start[i]).abs().ln() / top * 0.5 + 0.5;
            hist[((at * bins as f64) as usize).min(bins - 1)] += 1;
            which[i] += 1;
        }
    }
    c.evals(n as u64);
    c.count("scaled constants observed", n as u64);
    let ctx = format!("magnitudes {hist:?}, constants {which:?} of {n}, perturbation {}, temperature {temperature}", options.perturbation_factor);
    c.distinct(hash_of(&ctx));
    let far = |got: u32, p: f64| (got as f64 - n as f64 * p).abs() > 6.5 * (n as f64 * p * (1.0 - p)).sqrt() + 3.0;
    if hist.iter().any(|h| far(*h, 1.0 / bins as f64)) {
        c.fail("constants are not scaled evenly over the allowed magnitudes", ctx);
    } else if which.iter().any(|h| far(*h, 1.0 / k as f64)) {
        c.fail("constants are not equally likely to be scaled", ctx);
    }
}

pub fn p06(m: &Mon) {
    m.rule("a case counts as distinct per (kind, parent, differing offspring); each offspring of every mutation kind is checked for well-formedness, compact constants and membership in the set of edits its kind allows");
    m.assume("edit membership compares trees with constants by value; two different edits with equal results are not told apart");
    m.require("edits checked", 2000);
    for k in ["constant edits", "operator edits", "variable edits", "swaps", "rotations", "added nodes", "inserted nodes", "deleted nodes", "simplifications", "random trees", "optimisations", "recombinations"] {
        m.require(k, 20);
    }
    let n = m.scale(4000, 120_000);
    m.cases("builtin64", n, mutation_case::<f64, BuiltinOpsF64, 3>);
    m.cases("builtin32", n / 4, mutation_case::<f32, BuiltinOpsF32, 3>);
    m.cases("binary64", n / 4, mutation_case::<f64, BuiltinOpsF64, 2>);
    m.cases("mixed", n, mutation_case::<f64, Mix4, 4>);
    m.require("choices seen", 5000);
    m.require("random trees measured", 100_000);
    m.cases("random-size", m.scale(100, 3000), random_size_case);
    m.require("random trees under limits above 64", 1000);
    m.cases("random-leaf64", m.scale(60, 2000), random_leaf_case::<f64, BuiltinOpsF64, 3>);
    m.cases("random-leaf32", m.scale(20, 600), random_leaf_case::<f32, BuiltinOpsF32, 2>);
    m.require("fresh leaves measured", 100_000);
    m.require("scaled constants observed", 100_000);
    m.cases("scaling", m.scale(24, 800), scaling_case);
    let r = m.scale(120, 3000);
    m.cases("reach-builtin", r, |c| {
        reach_case::<BuiltinOpsF64, 3>(c, &[("neg", 1), ("sin", 1), ("cos", 1), ("tanh", 1), ("add", 2), ("sub", 2), ("max", 2), ("min", 2)])
    });
    m.cases("reach-mixed", r, |c| {
        reach_case::<Mix4, 4>(c, &[("half", 1), ("sin", 1), ("lin2", 2), ("minus", 2), ("plus", 2), ("lin3", 3), ("lin4", 4)])
    });
}

// ------------------------------------------------------------------------------------------ P20

fn offspring_case<T, O, const D: usize>(c: &mut Case)
where
    T: Fl + FromPrimitive + ToPrimitive,
    O: OperatorSet<T = T>,
{
    let ops = gen_ops::<O>(&mut c.rng, D);
    let n_features = 1 + c.rng.usize(..4);
    let n_rows = 1 + c.rng.usize(..8);
    let data = gen_dataset::<T>(&mut c.rng, n_features, n_rows);
    let (mut options, kind) = gen_options::<T, O, D>(&mut c.rng, &ops, n_features);
    options.annealing = c.rng.bool();
    options.use_frequency = c.rng.bool();
    options.alpha = 0.1 + 4.0 * c.rng.f64();
    options.optimizer_probability = if c.rng.bool() { 0.3 } else { 0.0 };
    options.optimizer_nrestarts = 0;
    options.should_simplify = c.rng.bool();
    options.mutation_weights = MutationWeights::default();
    options.mutation_weights.optimize = 0.3;
    options.mutation_weights.simplify = 0.5;
    options.mutation_weights.insert_node = 0.5;
    options.mutation_weights.mutate_constant = 0.5;
    options.mutation_weights.randomize = 0.5;
    let base = spec::baseline_of(&data, kind);
    let baseline = options.use_baseline.then(|| T::of(base));
    let tagged = TaggedDataset::new(&data, baseline);
    let curmaxsize = if c.rng.bool() { options.maxsize } else { 3 + c.rng.usize(..options.maxsize) };
    let g = GenCfg {
        ops: ops.clone(),
        n_features,
        n_consts: 3,
        p_const: c.rng.f64(),
    };
    let mut ev = Evaluator::<T, D>::new(n_rows);
    let mut stats = RunningSearchStatistics::new(options.maxsize, 1000);
    for f in stats.frequencies.iter_mut() {
        *f = 1.0 + 20.0 * c.rng.f64();
    }
    stats.normalize();
    let temperature = c.rng.f64();
    let budget = 1 + c.rng.usize(..options.maxsize);
    let e: PostfixExpr<T, O, D> = gen_expr_canonical(&mut c.rng, &g, budget);
    let (mut next_id, mut next_birth) = (c.rng.u64(..1 << 40), c.rng.u64(..1 << 20));
    let mut parent = PopMember::from_expr(MemberId(c.rng.u64(..)), None, 0, e, n_features);
    parent.evaluate(&tagged, &options, &mut ev);
    let mut rng = Rng::with_seed(c.rng.u64(..));
    for _ in 0..30 {
        let (id0, birth0) = (next_id, next_birth);
        let keep = parent.clone();
        let (baby, accepted, evals) = next_generation(
            &parent,
            NextGenerationCtx {
                rng: &mut rng,
                dataset: tagged,
                temperature,
                curmaxsize,
                stats: &stats,
                options: &options,
                evaluator: &mut ev,
                next_id: &mut next_id,
                next_birth: &mut next_birth,
                _ops: PhantomData::<O>,
            },
        );
        c.eval();
        c.count(if accepted { "accepted" } else { "rejected" }, 1);
        let ctx = format!(
            "{} (loss {:?}) => {} (loss {:?}, cost {:?}, complexity {}), accepted {accepted}, limit {curmaxsize}, {kind:?}",
            show_expr(&keep.expr),
            keep.loss,
            show_expr(&baby.expr),
            baby.loss,
            baby.cost,
            baby.complexity
        );
        if !(evals >= 0.0 && evals.is_finite()) {
            c.fail("evaluation count is not a count", format!("{evals}: {ctx}"));
        }
        if baby.id != MemberId(id0) || next_id != id0 + 1 {
            c.fail("offspring id is not fresh", format!("{:?}, counter {id0} -> {next_id}: {ctx}", baby.id));
        }
        if baby.birth != birth0 || next_birth != birth0 + 1 {
            c.fail("offspring birth stamp is not fresh", format!("{}, counter {birth0} -> {next_birth}: {ctx}", baby.birth));
        }
        if baby.parent != Some(parent.id) {
            c.fail("offspring names the wrong parent", format!("{:?}: {ctx}", baby.parent));
        }
        if let Err(m) = plan_fits(&baby, &data.x) {
            c.fail("offspring carries a plan of another expression", format!("{m}: {ctx}"));
        }
        if !accepted {
            if !same_code(&baby.expr, &parent.expr) {
                c.fail("a rejected attempt does not return the parent's expression", ctx.clone());
            }
            if !(baby.loss.same(parent.loss) && baby.cost.same(parent.cost) && baby.complexity == parent.complexity) {
                c.fail("a rejected attempt does not carry the parent's scores", ctx.clone());
            }
            continue;
        }
        c.distinct(hash_of(&ctx));
        c.sample(|| ctx.clone());
        let Ok(a) = Ast::from_postfix(&baby.expr.nodes) else {
            c.fail("malformed offspring", ctx);
            return;
        };
        if let Some(why) = spec::broken_constraint(&a, &options, curmaxsize) {
            c.fail("an offspring that violates a constraint is accepted", format!("{why}: {ctx}"));
        }
        if baby.complexity != spec::complexity(&a, &options) {
            c.fail(
                "offspring carries a wrong complexity",
                format!("expected {}: {ctx}", spec::complexity(&a, &options)),
            );
        }
        let simplified = baby.loss.same(parent.loss);
        if !baby.cost.is_finite() && !(simplified && !parent.cost.is_finite()) {
            c.fail("an offspring without finite cost is accepted", ctx.clone());
        }
        let ok = match spec::loss_agrees(&baby.expr, &data, kind, baby.loss) {
            Some(Ok(())) | None => true,
            // simplification keeps the parent's loss: overflow may disappear
            Some(Err(r)) if simplified => {
                let pr = spec::loss_of(&parent.expr, &data, kind, &mut None);
                !pr.is_finite() || (pr - r).abs() <= 1e3 * T::eps() * (1.0 + pr.abs()) * 100.0
            }
            Some(Err(_)) => false,
        };
        if !ok {
            c.fail(
                "offspring carries a loss that is not its own",
                format!("expected {}: {ctx}", spec::loss_of(&baby.expr, &data, kind, &mut None)),
            );
        }
        if baby.loss.is_finite() {
            let want = spec::cost_of(baby.loss.f(), baby.complexity, &options, baseline.map(|b| b.f()));
            let fits = if T::of(want * 1.0001).is_infinite() {
                baby.cost.f() > want.min(T::max_value().f()) * 0.999
            } else {
                (baby.cost.f() - want).abs() <= T::eps() * 16.0 * want.abs().max(1e-30)
            };
            if !fits {
                c.fail("offspring carries a wrong cost", format!("expected {want}: {ctx}"));
            }
        }
        if c.rng.u8(..3) > 0 && baby.cost.is_finite() {
            parent = baby;
        }
    }
    // the evaluator serves the next offspring as it served the first: 1 / exp(900) overflows on the way
    if let Some(nodes) = overflowing::<O>() {
        let e: PostfixExpr<T, O, D> = PostfixExpr::new(nodes, vec![T::of(1.0), T::of(900.0)], Default::default());
        let mut probe = PopMember::from_expr(MemberId(1), None, 1, e, n_features);
        probe.evaluate(&tagged, &options, &mut ev);
        if probe.loss.is_finite() || probe.cost.is_finite() {
            c.fail("after some offspring, intermediate overflow goes unnoticed", format!("loss {:?}: {}", probe.loss, show_expr(&probe.expr)));
        }
        c.count("evaluators probed after use", 1);
    }
}

/// 1 / exp(c): a finite value with an infinite part.
fn overflowing<O: OperatorSet>() -> Option<Vec<dynamic_expressions::PNode>> {
    use dynamic_expressions::PNode;
    let find = |name: &str, arity: u8| O::ops_with_arity(arity).iter().copied().find(|&id| O::name(OpId { arity, id }) == name);
    let (exp, div) = (find("exp", 1)?, find("div", 2)?);
    Some(vec![
        PNode::Const { idx: 0 },
        PNode::Const { idx: 1 },
        PNode::Op { arity: 1, op: exp },
        PNode::Op { arity: 2, op: div },
    ])
}

/// Acceptance frequency against the annealing rule.
fn acceptance_case(c: &mut Case) {
    const D: usize = 2;
    type O = BuiltinOpsF64;
    let sub = op_named::<O>("sub", 2);
    let n = 4;
    let data: Dataset<f64> = gen_dataset(&mut c.rng, 2, n);
    let mut options = Options::<f64, D> {
        operators: operators_from(&[sub]),
        maxsize: 8 + c.rng.usize(..8),
        annealing: c.rng.bool(),
        use_frequency: c.rng.u8(..3) > 0,
        alpha: [0.1, 1.0, 3.17, 10.0][c.rng.usize(..4)],
        progress: false,
        use_baseline: false,
        ..Default::default()
    };
    options.mutation_weights = weights_zero();
    options.mutation_weights.swap_operands = 1.0;
    // the size of the offspring, up to the largest there is
    let size = match c.rng.u8(..4) {
        0 => options.maxsize,
        1 => 3 + c.rng.usize(..options.maxsize - 2),
        _ => 3,
    };
    if size > 3 {
        options.operator_complexity_overrides.insert(sub, size as u16 - 2);
    }
    let tagged = TaggedDataset::new(&data, None);
    let mut ev = Evaluator::<f64, D>::new(n);
    let e: PostfixExpr<f64, O, D> = PostfixExpr::new(
        vec![
            dynamic_expressions::PNode::Var { feature: 0 },
            dynamic_expressions::PNode::Var { feature: 1 },
            dynamic_expressions::PNode::Op { arity: 2, op: sub.id },
        ],
        vec![],
        Default::default(),
    );
    let mut swapped = e.clone();
    swapped.nodes.swap(0, 1);
    let mut probe = PopMember::from_expr(MemberId(0), None, 0, swapped, 2);
    probe.evaluate(&tagged, &options, &mut ev);
    let after = probe.cost;
    let mut stats = RunningSearchStatistics::new(options.maxsize, 1000);
    for f in stats.frequencies.iter_mut() {
        *f = match c.rng.u8(..4) {
            0 => 1.0,
            1 => 1e-9,
            _ => 10f64.powf(3.0 * c.rng.f64()),
        };
    }
    stats.normalize();
    let temperature: f64 = [1.0, 0.5, 0.1, 0.013, 0.0][c.rng.usize(..5)];
    let scale = temperature.max(0.01) * options.alpha;
    let delta = match c.rng.u8(..8) {
        0 => f64::NEG_INFINITY,
        1 => -scale,
        2 => -0.2 * scale,
        3 => 0.1 * scale,
        4 => 10.0 * scale,
        _ => scale * (0.2 + 1.5 * c.rng.f64()),
    };
    let mut parent = PopMember::from_expr(MemberId(1), None, 0, e, 2);
    parent.evaluate(&tagged, &options, &mut ev);
    parent.cost = after - delta;
    // complexity of the parent is a free parameter of the rule
    parent.complexity = match c.rng.u8(..6) {
        0 => options.maxsize + 1 + c.rng.usize(..3),
        1 => size,
        2 => options.maxsize,
        _ => 1 + c.rng.usize(..options.maxsize),
    };
    let freq = |s: usize| {
        if s >= 1 && s <= options.maxsize {
            let total: f64 = stats.frequencies.iter().sum();
            (stats.frequencies[s - 1] / total).max(1e-6)
        } else {
            1e-6
        }
    };
    // the limit in force has no part in the rule
    let curmaxsize = size + c.rng.usize(..options.maxsize - size + 1);
    let mut p = 1.0;
    if options.annealing {
        let d = after - parent.cost;
        if temperature == 0.0 && d == 0.0 {
            return;
        }
        p *= (-d / (temperature * options.alpha)).exp();
    }
    if options.use_frequency {
        p *= freq(parent.complexity) / freq(size);
    }
    let p = if p.is_nan() { return } else { p.min(1.0) };
    let draws = match c.tier {
        Tier::Quick => 3000u32,
        Tier::Thorough => 20000,
    };
    let (mut next_id, mut next_birth) = (10u64, 10u64);
    let mut rng = Rng::with_seed(c.rng.u64(..));
    let mut hits = 0u32;
    for _ in 0..draws {
        let (_, accepted, _) = next_generation(
            &parent,
            NextGenerationCtx {
                rng: &mut rng,
                dataset: tagged,
                temperature,
                curmaxsize,
                stats: &stats,
                options: &options,
                evaluator: &mut ev,
                next_id: &mut next_id,
                next_birth: &mut next_birth,
                _ops: PhantomData::<O>,
            },
        );
        hits += accepted as u32;
    }
    c.evals(draws as u64);
    c.count("acceptance draws", draws as u64);
    if p > 0.02 && p < 0.98 {
        c.count("acceptance rates strictly between 0 and 1", 1);
    }
    let mean = p * draws as f64;
    let sd = (draws as f64 * p * (1.0 - p)).sqrt();
    let ctx = format!(
        "accepted {hits} of {draws}, expected rate {p:.5}; annealing {} use_frequency {} T {temperature} alpha {} delta {delta} sizes {} -> {size} of {}, limit {curmaxsize}",
        options.annealing, options.use_frequency, options.alpha, parent.complexity, options.maxsize
    );
    c.distinct(hash_of(&ctx));
    c.sample(|| ctx.clone());
    if (hits as f64 - mean).abs() > 6.5 * sd + 3.0 {
        c.fail("acceptance rate differs from the annealing rule", ctx);
    }
}

/// Mutation kinds are drawn in proportion to their weights; a weight of zero excludes the kind.
fn choice_case(c: &mut Case) {
    const D: usize = 2;
    type O = BuiltinOpsF64;
    let ops = [op_named::<O>("sub", 2), op_named::<O>("sin", 1)];
    let data: Dataset<f64> = gen_dataset(&mut c.rng, 3, 3);
    // Kinds told apart by their effect on sub(x0, x1) with 3 features
    let mut options = Options::<f64, D> {
        operators: operators_from(&ops),
        maxsize: 20,
        annealing: false,
        use_frequency: false,
        progress: false,
        use_baseline: false,
        ..Default::default()
    };
    options.mutation_weights = weights_zero();
    let w: Vec<f64> = (0..4)
        .map(|_| if c.rng.u8(..4) == 0 { 0.0 } else { 0.1 + 3.0 * c.rng.f64() })
        .collect();
    let total: f64 = w.iter().sum();
    if total == 0.0 {
        return;
    }
    options.mutation_weights.swap_operands = w[0];
    options.mutation_weights.mutate_feature = w[1];
    options.mutation_weights.delete_node = w[2];
    options.mutation_weights.do_nothing = w[3];
    // without effect: needs constants
    options.mutation_weights.mutate_constant = if c.rng.bool() { 5.0 } else { 0.0 };
    let tagged = TaggedDataset::new(&data, None);
    let mut ev = Evaluator::<f64, D>::new(3);
    let v = |f| dynamic_expressions::PNode::Var { feature: f };
    let e: PostfixExpr<f64, O, D> = PostfixExpr::new(
        vec![v(0), v(1), dynamic_expressions::PNode::Op { arity: 2, op: ops[0].id }],
        vec![],
        Default::default(),
    );
    let mut parent = PopMember::from_expr(MemberId(1), None, 0, e, 3);
    parent.evaluate(&tagged, &options, &mut ev);
    let stats = RunningSearchStatistics::new(20, 1000);
    let (mut next_id, mut next_birth) = (10u64, 10u64);
    let mut rng = Rng::with_seed(c.rng.u64(..));
    let draws = 3000;
    let mut got = [0u32; 4];
    for _ in 0..draws {
        let (baby, _, _) = next_generation(
            &parent,
            NextGenerationCtx {
                rng: &mut rng,
                dataset: tagged,
                temperature: 0.5,
                curmaxsize: 20,
                stats: &stats,
                options: &options,
                evaluator: &mut ev,
                next_id: &mut next_id,
                next_birth: &mut next_birth,
                _ops: PhantomData::<O>,
            },
        );
        let n = &baby.expr.nodes;
        let k = if n.len() == 1 {
            2
        } else if *n == parent.expr.nodes {
            3
        } else if n[0] == v(1) && n[1] == v(0) {
            0
        } else {
            1
        };
        got[k] += 1;
    }
    c.evals(draws as u64);
    c.count("mutation choices", draws as u64);
    let ctx = format!("weights {w:?}, counts {got:?} of {draws}");
    c.distinct(hash_of(&ctx));
    c.sample(|| ctx.clone());
    for k in 0..4 {
        let p = w[k] / total;
        let sd = (draws as f64 * p * (1.0 - p)).sqrt();
        if (got[k] as f64 - p * draws as f64).abs() > 6.5 * sd + if w[k] == 0.0 { 0.0 } else { 3.0 } {
            c.fail("mutation kinds are not drawn in proportion to their weights", ctx.clone());
        }
    }
}

/// A kind of mutation that does not apply to the parent is never drawn, whatever its weight.
fn inapplicable_case(c: &mut Case) {
    const D: usize = 3;
    type O = BuiltinOpsF64;
    use dynamic_expressions::PNode;
    let names = [("sub", 2), ("div", 2), ("sin", 1), ("tanh", 1), ("fma", 3)];
    let ops: Vec<OpId> = names.iter().map(|(n, a)| op_named::<O>(n, *a)).collect();
    let v = |f| PNode::Var { feature: f };
    let k = |i| PNode::Const { idx: i };
    let op = |i: usize| PNode::Op { arity: ops[i].arity, op: ops[i].id };
    let rng = &mut c.rng;
    let mut n_features = 1 + rng.usize(..4);
    let f = |rng: &mut Rng, n: usize| v(rng.usize(..n) as u16);
    let mut options = Options::<f64, D> {
        operators: operators_from(&ops),
        maxsize: 30,
        annealing: false,
        use_frequency: false,
        progress: false,
        use_baseline: false,
        optimizer_probability: 0.5,
        ..Default::default()
    };
    let mut limit = 30;
    let var = f(rng, n_features);
    // parent, its constants, the kinds that do not apply to it
    let (what, nodes, consts, kinds): (&str, Vec<PNode>, Vec<f64>, Vec<&str>) = match rng.u8(..9) {
        0 => ("a variable", vec![var], vec![], vec!["mutate_operator", "swap_operands", "delete_node", "simplify", "optimize", "mutate_constant"]),
        1 => ("a constant", vec![k(0)], vec![1.5], vec!["mutate_operator", "swap_operands", "delete_node", "simplify", "mutate_feature"]),
        2 => {
            let mut n = vec![var];
            for _ in 0..1 + rng.usize(..3) {
                n.push(op(2 + rng.usize(..2)));
            }
            ("only unary operators", n, vec![], vec!["swap_operands", "mutate_constant", "optimize"])
        }
        3 => {
            let n = vec![var, f(rng, n_features), op(rng.usize(..2)), op(2), f(rng, n_features), op(0)];
            ("no constants", n, vec![], vec!["mutate_constant", "optimize"])
        }
        4 => {
            n_features = 1;
            ("one feature", vec![v(0), k(0), op(0), op(3)], vec![0.7], vec!["mutate_feature"])
        }
        5 => {
            let n = vec![var, k(0), op(0), op(2)];
            limit = 1 + rng.usize(..4);
            ("at the size limit", n, vec![0.4], vec!["add_node", "insert_node"])
        }
        6 => {
            options.should_simplify = false;
            ("simplification disabled", vec![k(0), k(1), op(0), var, op(0)], vec![2.0, 0.5], vec!["simplify"])
        }
        7 => {
            options.should_optimize_constants = false;
            ("optimisation disabled", vec![var, k(0), op(0)], vec![2.0], vec!["optimize"])
        }
        _ => {
            options.optimizer_probability = 0.0;
            ("optimisation never", vec![var, k(0), op(0)], vec![2.0], vec!["optimize"])
        }
    };
    // constraints are judged with the limit in force: the parent itself must stay admissible
    if limit < nodes.len() {
        limit = nodes.len();
    }
    options.mutation_weights = weights_zero();
    let kind = kinds[rng.usize(..kinds.len())];
    options.mutation_weights.do_nothing = 1.0;
    *weight_mut(&mut options.mutation_weights, kind) = 1.0 + 8.0 * rng.f64();
    let n_rows = 5;
    let x = ndarray::Array2::from_shape_fn((n_features, n_rows), |(i, j)| 0.3 + i as f64 + 0.37 * j as f64);
    let y = ndarray::Array1::from_shape_fn(n_rows, |j| 1.0 + j as f64);
    let data = Dataset::with_weights_and_names(x, y, None, Vec::new());
    let tagged = TaggedDataset::new(&data, None);
    let mut ev = Evaluator::<f64, D>::new(n_rows);
    let e: PostfixExpr<f64, O, D> = PostfixExpr::new(nodes, consts, Default::default());
    let mut parent = PopMember::from_expr(MemberId(1), None, 0, e, n_features);
    parent.evaluate(&tagged, &options, &mut ev);
    let stats = RunningSearchStatistics::new(30, 1000);
    let (mut next_id, mut next_birth) = (10u64, 10u64);
    let mut draw = Rng::with_seed(rng.u64(..));
    let ctx = format!("{what}: {} with weight on {kind}, limit {limit}, {n_features} features", show_expr(&parent.expr));
    c.distinct(hash_of(&ctx));
    for i in 0..30 {
        let (baby, accepted, _) = next_generation(
            &parent,
            NextGenerationCtx {
                rng: &mut draw,
                dataset: tagged,
                temperature: 0.5,
                curmaxsize: limit,
                stats: &stats,
                options: &options,
                evaluator: &mut ev,
                next_id: &mut next_id,
                next_birth: &mut next_birth,
                _ops: PhantomData::<O>,
            },
        );
        c.evals(1);
        c.count("draws with an inapplicable kind", 1);
        if !accepted || !same_code(&baby.expr, &parent.expr) {
            c.fail("a mutation kind that does not apply is drawn", format!("{ctx}: draw {i} accepted {accepted}, {}", show_expr(&baby.expr)));
            return;
        }
    }
}

/// The weight of changing constants grows with their number, up to eight.
fn constant_weight_case(c: &mut Case) {
    const D: usize = 2;
    type O = BuiltinOpsF64;
    use dynamic_expressions::PNode;
    let add = op_named::<O>("add", 2);
    let n = 1 + c.rng.usize(..12);
    let mut nodes = vec![PNode::Var { feature: 0 }];
    for i in 0..n {
        nodes.push(PNode::Const { idx: i as u16 });
        nodes.push(PNode::Op { arity: 2, op: add.id });
    }
    let consts: Vec<f64> = (0..n).map(|_| 0.5 + c.rng.f64()).collect();
    let mut options = Options::<f64, D> {
        operators: operators_from(&[add]),
        maxsize: 40,
        annealing: false,
        use_frequency: false,
        progress: false,
        use_baseline: false,
        ..Default::default()
    };
    let (a, b) = (0.1 + 3.0 * c.rng.f64(), 0.1 + 3.0 * c.rng.f64());
    options.mutation_weights = weights_zero();
    options.mutation_weights.mutate_constant = a;
    options.mutation_weights.do_nothing = b;
    let data: Dataset<f64> = gen_dataset(&mut c.rng, 1, 3);
    let tagged = TaggedDataset::new(&data, None);
    let mut ev = Evaluator::<f64, D>::new(3);
    let e: PostfixExpr<f64, O, D> = PostfixExpr::new(nodes, consts, Default::default());
    let mut parent = PopMember::from_expr(MemberId(1), None, 0, e, 1);
    parent.evaluate(&tagged, &options, &mut ev);
    let stats = RunningSearchStatistics::new(40, 1000);
    let (mut next_id, mut next_birth) = (10u64, 10u64);
    let mut draw = Rng::with_seed(c.rng.u64(..));
    let draws = 20_000;
    let mut changed = 0u32;
    for _ in 0..draws {
        let (baby, _, _) = next_generation(
            &parent,
            NextGenerationCtx {
                rng: &mut draw,
                dataset: tagged,
                temperature: 0.5,
                curmaxsize: 40,
                stats: &stats,
                options: &options,
                evaluator: &mut ev,
                next_id: &mut next_id,
                next_birth: &mut next_birth,
                _ops: PhantomData::<O>,
            },
        );
        changed += u32::from(!same_code(&baby.expr, &parent.expr));
    }
    c.evals(draws as u64);
    c.count("mutation choices", draws as u64);
    let a = a * n.min(8) as f64 / 8.0;
    let p = a / (a + b);
    let sd = (draws as f64 * p * (1.0 - p)).sqrt();
    let ctx = format!("{n} constants, weight {a} against {b}: {changed} of {draws} changed");
    c.distinct(hash_of(&ctx));
    if (changed as f64 - p * draws as f64).abs() > 6.5 * sd + 3.0 {
        c.fail("changing constants is not drawn in proportion to its weight", ctx);
    }
}

pub fn p20(m: &Mon) {
    m.rule("a case counts as distinct per (parent, accepted offspring) or per acceptance-rate configuration; scores are recomputed by the reference interpreter, rates are compared with the annealing rule at 6.5 standard deviations");
    m.assume("ill-conditioned losses (reference disturbed by rounding moves by more than 5%) get no verdict");
    m.require("evaluators probed after use", 200);
    m.require("accepted", 5000);
    m.require("rejected", 2000);
    m.require("draws with an inapplicable kind", 20_000);
    m.require("acceptance rates strictly between 0 and 1", 20);
    let n = m.scale(5000, 150_000);
    m.cases("offspring64", n, offspring_case::<f64, BuiltinOpsF64, 3>);
    m.cases("offspring32", n / 2, offspring_case::<f32, BuiltinOpsF32, 3>);
    m.cases("offspring-mixed", n / 2, offspring_case::<f64, Mix4, 4>);
    m.cases("rate", m.scale(400, 4000), acceptance_case);
    m.cases("choice", m.scale(100, 1000), choice_case);
    m.cases("inapplicable", m.scale(2000, 30_000), inapplicable_case);
    m.cases("constant-weight", m.scale(50, 1000), constant_weight_case);
}
