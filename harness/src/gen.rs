//! Generators of operator sets, expressions and data.
use crate::ast::{Ast, Fl};
use crate::common::Rng;
use dynamic_expressions::{Metadata, OpId, OperatorSet, PNode, PostfixExpr};
use ndarray::Array2;

dynamic_expressions::custom_opset! {
    /// Arities out of order, gaps in the token space, non-commutative operators everywhere.
    pub struct Mix4<f64> {
        3 {
            mix3 { eval: |a: &[f64; 3]| a[0] * a[1] - a[2], partial: |a: &[f64; 3], i: usize| [a[1], a[0], -1.0][i], }
            lin3 { eval: |a: &[f64; 3]| a[0] - 2.0 * a[1] + 3.0 * a[2], partial: |_a: &[f64; 3], i: usize| [1.0, -2.0, 3.0][i], }
        }
        1 {
            half { eval: |a: &[f64; 1]| a[0] / 2.0, partial: |_a: &[f64; 1], _i: usize| 0.5, }
            sin { eval: |a: &[f64; 1]| a[0].sin(), partial: |a: &[f64; 1], _i: usize| a[0].cos(), }
            exp { eval: |a: &[f64; 1]| a[0].exp(), partial: |a: &[f64; 1], _i: usize| a[0].exp(), }
        }
        4 {
            lin4 { eval: |a: &[f64; 4]| a[0] - 2.0 * a[1] + 3.0 * a[2] - 5.0 * a[3], partial: |_a: &[f64; 4], i: usize| [1.0, -2.0, 3.0, -5.0][i], }
            mix4 { eval: |a: &[f64; 4]| a[0] * a[1] - a[2] * a[3], partial: |a: &[f64; 4], i: usize| [a[1], a[0], -a[3], -a[2]][i], }
        }
        2 {
            lin2 { eval: |a: &[f64; 2]| a[0] - 2.0 * a[1], partial: |_a: &[f64; 2], i: usize| [1.0, -2.0][i], }
            times { infix: "*", commutative: true, associative: true, eval: |a: &[f64; 2]| a[0] * a[1], partial: |a: &[f64; 2], i: usize| [a[1], a[0]][i], }
            minus { infix: "-", eval: |a: &[f64; 2]| a[0] - a[1], partial: |_a: &[f64; 2], i: usize| [1.0, -1.0][i], }
            plus { infix: "+", commutative: true, associative: true, eval: |a: &[f64; 2]| a[0] + a[1], partial: |_a: &[f64; 2], _i: usize| 1.0, }
        }
    }
}

pub fn all_ops<O: OperatorSet>(max_arity: usize) -> Vec<OpId> {
    let mut v = Vec::new();
    for arity in 1..=(O::MAX_ARITY.min(max_arity as u8)) {
        for &id in O::ops_with_arity(arity) {
            v.push(OpId { arity, id });
        }
    }
    v
}

pub fn op_named<O: OperatorSet>(name: &str, arity: u8) -> OpId {
    for &id in O::ops_with_arity(arity) {
        let op = OpId { arity, id };
        if O::name(op) == name {
            return op;
        }
    }
    panic!("no operator {name}/{arity}")
}

/// Usually a size from the first range, once in `one_in` from the second.
pub fn sized(rng: &mut Rng, usual: std::ops::Range<usize>, one_in: u32, large: std::ops::Range<usize>) -> usize {
    if rng.u32(..one_in) == 0 {
        rng.usize(large)
    } else {
        rng.usize(usual)
    }
}

#[derive(Clone)]
pub struct GenCfg {
    pub ops: Vec<OpId>,
    pub n_features: usize,
    pub n_consts: usize,
    pub p_const: f64,
}

/// A tree with about `budget` nodes; shape varies between chains, bushes and combs.
pub fn gen_ast(rng: &mut Rng, c: &GenCfg, budget: usize) -> Ast {
    if budget <= 1 || c.ops.is_empty() {
        return gen_leaf(rng, c);
    }
    let mut fitting: Vec<OpId> = Vec::new();
    for &o in &c.ops {
        if (o.arity as usize) < budget {
            fitting.push(o);
        }
    }
    if fitting.is_empty() {
        return gen_leaf(rng, c);
    }
    // even out arities
    let ar: Vec<u8> = {
        let mut a: Vec<u8> = fitting.iter().map(|o| o.arity).collect();
        a.sort();
        a.dedup();
        a
    };
    let arity = ar[rng.usize(..ar.len())];
    let cand: Vec<OpId> = fitting.into_iter().filter(|o| o.arity == arity).collect();
    let op = cand[rng.usize(..cand.len())];
    let k = op.arity as usize;
    let mut rest = budget - 1;
    let mut shares = vec![1usize; k];
    rest -= k;
    let skew = rng.u8(..3);
    while rest > 0 {
        let i = match skew {
            0 => rng.usize(..k),
            1 => 0,
            _ => k - 1,
        };
        let d = 1 + rng.usize(..rest);
        shares[i] += d.min(rest);
        rest -= d.min(rest);
    }
    Ast::Op(op, shares.iter().map(|&s| gen_ast(rng, c, s)).collect())
}

fn gen_leaf(rng: &mut Rng, c: &GenCfg) -> Ast {
    if c.n_features == 0 || (c.n_consts > 0 && rng.f64() < c.p_const) {
        Ast::Const(rng.usize(..c.n_consts.max(1)))
    } else {
        Ast::Var(rng.usize(..c.n_features))
    }
}

/// Constants of ordinary size, both signs, some of them small integers.
pub fn gen_const<T: Fl>(rng: &mut Rng) -> T {
    let m = match rng.u8(..5) {
        0 => (1 + rng.u32(..4)) as f64,
        1 => 0.5,
        2 => 10f64.powf(rng.f64() * 4.0 - 2.0),
        _ => 0.1 + 3.0 * rng.f64(),
    };
    T::of(if rng.bool() { m } else { -m })
}

pub fn gen_consts<T: Fl>(rng: &mut Rng, n: usize) -> Vec<T> {
    (0..n).map(|_| gen_const(rng)).collect()
}

/// Expression whose constant table may hold shared, unused and out-of-order entries.
pub fn gen_expr<T: Fl, O, const D: usize>(rng: &mut Rng, c: &GenCfg, budget: usize) -> PostfixExpr<T, O, D> {
    let a = gen_ast(rng, c, budget);
    PostfixExpr::new(a.postfix(), gen_consts(rng, c.n_consts), Metadata::default())
}

/// Expression with exactly one table entry per constant node, in order (as the search makes them).
pub fn gen_expr_canonical<T: Fl, O, const D: usize>(rng: &mut Rng, c: &GenCfg, budget: usize) -> PostfixExpr<T, O, D> {
    let mut c2 = c.clone();
    c2.n_consts = c2.n_consts.max(1);
    let a = gen_ast(rng, &c2, budget);
    let mut nodes = a.postfix();
    let mut n = 0u16;
    for p in nodes.iter_mut() {
        if let PNode::Const { idx } = p {
            *idx = n;
            n += 1;
        }
    }
    PostfixExpr::new(nodes, gen_consts(rng, n as usize), Metadata::default())
}

/// Large trees: hundreds of nodes, or a ladder that keeps many intermediate results alive at once.
pub fn gen_big_ast(rng: &mut Rng, c: &GenCfg) -> Ast {
    let wide: Vec<OpId> = c.ops.iter().copied().filter(|o| o.arity >= 2).collect();
    if wide.is_empty() || rng.u8(..3) == 0 {
        let b = 100 + rng.usize(..400);
        return gen_ast(rng, c, b);
    }
    let rungs = match rng.u8(..4) {
        0 => 130 + rng.usize(..170),
        1 => 60 + rng.usize(..10),
        _ => 14 + rng.usize(..24),
    };
    let mut a = gen_leaf(rng, c);
    for _ in 0..rungs {
        let op = wide[rng.usize(..wide.len())];
        let mut args: Vec<Ast> = (1..op.arity)
            .map(|_| {
                let b = 2 + rng.usize(..3);
                gen_ast(rng, c, b)
            })
            .collect();
        args.push(a);
        a = Ast::Op(op, args);
    }
    a
}

pub fn gen_big<T: Fl, O, const D: usize>(rng: &mut Rng, c: &GenCfg) -> PostfixExpr<T, O, D> {
    let a = gen_big_ast(rng, c);
    PostfixExpr::new(a.postfix(), gen_consts(rng, c.n_consts), Metadata::default())
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Data {
    Tame,
    Positive,
    Wide,
    Hostile,
}

pub fn gen_value<T: Fl>(rng: &mut Rng, kind: Data) -> T {
    match kind {
        Data::Tame => T::of(rng.f64() * 6.0 - 3.0),
        Data::Positive => T::of(0.05 + rng.f64() * 3.0),
        Data::Wide => {
            let m = 10f64.powf(rng.f64() * 12.0 - 6.0);
            T::of(if rng.bool() { m } else { -m })
        }
        Data::Hostile => match rng.u8(..10) {
            0 => T::zero(),
            1 => -T::zero(),
            2 => T::one(),
            3 => -T::one(),
            4 => T::infinity(),
            5 => T::nan(),
            6 => T::max_value(),
            7 => T::min_positive_value(),
            _ => T::of(rng.f64() * 6.0 - 3.0),
        },
    }
}

pub fn gen_matrix<T: Fl>(rng: &mut Rng, n_features: usize, n_rows: usize, kind: Data) -> Array2<T> {
    let mut v = Vec::with_capacity(n_features * n_rows);
    for _ in 0..n_features * n_rows {
        v.push(gen_value::<T>(rng, kind));
    }
    Array2::from_shape_vec((n_features, n_rows), v).unwrap()
}

/// Row counts around chunking boundaries as well as ordinary ones.
pub fn gen_rows(rng: &mut Rng) -> usize {
    const R: [usize; 14] = [1, 1, 2, 3, 4, 5, 7, 8, 9, 13, 16, 17, 33, 65];
    R[rng.usize(..R.len())]
}

/// Row counts around the block sizes a vectorised evaluator would use.
pub fn gen_many_rows(rng: &mut Rng) -> usize {
    let block = [64, 100, 128, 256, 512, 1000, 1024, 2048][rng.usize(..8)];
    let off = rng.usize(..7) + rng.usize(..40) * rng.usize(..2);
    block - 3 + off
}
