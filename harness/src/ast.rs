//! Independent reference: syntax trees built recursively from postfix code, and a
//! reference interpreter (values, forward-mode derivatives) with its own operator formulas.
use crate::common::Rng;
use dynamic_expressions::{OpId, OperatorSet, PNode, PostfixExpr};
use num_traits::Float;

pub trait Fl: Float + std::fmt::Debug + std::fmt::Display + std::ops::AddAssign + Send + Sync + 'static {
    const TINY: f64;
    /// beyond this, squares overflow: derivative formulas are not judged there
    const BIG: f64;
    fn of(v: f64) -> Self;
    fn f(self) -> f64;
    fn key(self) -> u64;
    fn same(self, o: Self) -> bool {
        self.key() == o.key()
    }
    fn eps() -> f64;
}
impl Fl for f32 {
    const TINY: f64 = 1e-30;
    const BIG: f64 = 1e12;
    fn of(v: f64) -> Self {
        v as f32
    }
    fn f(self) -> f64 {
        self as f64
    }
    fn key(self) -> u64 {
        if self.is_nan() {
            u64::MAX
        } else {
            self.to_bits() as u64
        }
    }
    fn eps() -> f64 {
        f32::EPSILON as f64
    }
}
impl Fl for f64 {
    const TINY: f64 = 1e-250;
    const BIG: f64 = 1e100;
    fn of(v: f64) -> Self {
        v
    }
    fn f(self) -> f64 {
        self
    }
    fn key(self) -> u64 {
        if self.is_nan() {
            u64::MAX
        } else {
            self.to_bits()
        }
    }
    fn eps() -> f64 {
        f64::EPSILON
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ast {
    Var(usize),
    /// index into the constant table
    Const(usize),
    Op(OpId, Vec<Ast>),
}

impl Ast {
    /// Recursive reconstruction of the tree a postfix sequence stands for.
    pub fn from_postfix(nodes: &[PNode]) -> Result<Ast, String> {
        fn take(nodes: &[PNode], end: &mut usize) -> Result<Ast, String> {
            if *end == 0 {
                return Err("operator lacks operands".into());
            }
            *end -= 1;
            match nodes[*end] {
                PNode::Var { feature } => Ok(Ast::Var(feature as usize)),
                PNode::Const { idx } => Ok(Ast::Const(idx as usize)),
                PNode::Op { arity, op } => {
                    if arity == 0 {
                        return Err("operator of arity 0".into());
                    }
                    let mut kids = Vec::new();
                    for _ in 0..arity {
                        kids.push(take(nodes, end)?);
                    }
                    kids.reverse();
                    Ok(Ast::Op(OpId { arity, id: op }, kids))
                }
            }
        }
        let mut end = nodes.len();
        let a = take(nodes, &mut end)?;
        if end != 0 {
            return Err(format!("{end} leftover nodes"));
        }
        Ok(a)
    }

    pub fn to_postfix(&self, out: &mut Vec<PNode>) {
        match self {
            Ast::Var(f) => out.push(PNode::Var { feature: *f as u16 }),
            Ast::Const(i) => out.push(PNode::Const { idx: *i as u16 }),
            Ast::Op(op, kids) => {
                for k in kids {
                    k.to_postfix(out);
                }
                out.push(PNode::Op {
                    arity: op.arity,
                    op: op.id,
                });
            }
        }
    }

    pub fn postfix(&self) -> Vec<PNode> {
        let mut v = Vec::new();
        self.to_postfix(&mut v);
        v
    }

    pub fn size(&self) -> usize {
        match self {
            Ast::Op(_, k) => 1 + k.iter().map(|c| c.size()).sum::<usize>(),
            _ => 1,
        }
    }

    pub fn depth(&self) -> usize {
        match self {
            Ast::Op(_, k) => 1 + k.iter().map(|c| c.depth()).max().unwrap_or(0),
            _ => 1,
        }
    }

    pub fn n_ops(&self) -> usize {
        match self {
            Ast::Op(_, k) => 1 + k.iter().map(|c| c.n_ops()).sum::<usize>(),
            _ => 0,
        }
    }

    pub fn visit<'a>(&'a self, f: &mut impl FnMut(&'a Ast)) {
        if let Ast::Op(_, k) = self {
            for c in k {
                c.visit(f);
            }
        }
        f(self);
    }

    pub fn max_var(&self) -> Option<usize> {
        let mut m = None;
        self.visit(&mut |a| {
            if let Ast::Var(v) = a {
                m = Some(m.map_or(*v, |o: usize| o.max(*v)));
            }
        });
        m
    }

    pub fn show<O: OperatorSet, T: Fl>(&self, consts: &[T]) -> String {
        match self {
            Ast::Var(f) => format!("x{f}"),
            Ast::Const(i) => consts
                .get(*i)
                .map(|c| format!("{c:?}"))
                .unwrap_or_else(|| format!("const#{i}?")),
            Ast::Op(op, kids) => {
                let k: Vec<String> = kids.iter().map(|c| c.show::<O, T>(consts)).collect();
                format!("{}({})", O::name(*op), k.join(", "))
            }
        }
    }
}

pub fn show_expr<T: Fl, O: OperatorSet, const D: usize>(e: &PostfixExpr<T, O, D>) -> String {
    match Ast::from_postfix(&e.nodes) {
        Ok(a) => a.show::<O, T>(&e.consts),
        Err(m) => format!("<malformed: {m}: {:?}>", e.nodes),
    }
}

/// Well-formedness as the rest of the system relies on it.
pub fn well_formed<T: Fl, O: OperatorSet, const D: usize>(
    e: &PostfixExpr<T, O, D>,
    n_features: usize,
    allowed: &dyn Fn(OpId) -> bool,
) -> Result<Ast, String> {
    let a = Ast::from_postfix(&e.nodes)?;
    let mut err = None;
    a.visit(&mut |n| match n {
        Ast::Var(f) if *f >= n_features => err = Some(format!("variable x{f} of {n_features}")),
        Ast::Const(i) if *i >= e.consts.len() => err = Some(format!("constant #{i} of {}", e.consts.len())),
        Ast::Op(op, _) if op.arity as usize > D => err = Some(format!("operator arity {}", op.arity)),
        Ast::Op(op, _) if O::meta(*op).is_none() => err = Some(format!("unknown operator {op:?}")),
        Ast::Op(op, _) if !allowed(*op) => err = Some(format!("operator {} is not enabled", O::name(*op))),
        _ => {}
    });
    match err {
        Some(e) => Err(e),
        None => Ok(a),
    }
}

// ---------------------------------------------------------------------------------------------
// Reference operators

pub fn ref_op<T: Fl>(name: &str, a: &[T]) -> T {
    let one = T::one();
    let x = a[0];
    match name {
        "abs" => {
            if x.is_sign_negative() {
                -x
            } else {
                x
            }
        }
        "abs2" => x * x,
        "acos" => x.acos(),
        "acosh" => x.acosh(),
        "asin" => x.asin(),
        "asinh" => x.asinh(),
        "atan" => x.atan(),
        "atanh" => x.atanh(),
        "cbrt" => x.cbrt(),
        "cos" => x.cos(),
        "cosh" => x.cosh(),
        "cot" => one / x.tan(),
        "csc" => one / x.sin(),
        "exp" => x.exp(),
        "exp2" => x.exp2(),
        "expm1" => x.exp_m1(),
        "identity" => x,
        "inv" => one / x,
        "log" => x.ln(),
        "log1p" => x.ln_1p(),
        "log2" => x.log2(),
        "log10" => x.log10(),
        "neg" => -x,
        "sec" => one / x.cos(),
        "sign" => x.signum(),
        "sin" => x.sin(),
        "sinh" => x.sinh(),
        "sqrt" => x.sqrt(),
        "tan" => x.tan(),
        "tanh" => x.tanh(),
        "add" => x + a[1],
        "sub" => x - a[1],
        "mul" => x * a[1],
        "div" => x / a[1],
        "pow" => x.powf(a[1]),
        "atan2" => x.atan2(a[1]),
        "min" => x.min(a[1]),
        "max" => x.max(a[1]),
        "fma" => x.mul_add(a[1], a[2]),
        "clamp" => {
            let (lo, hi) = (a[1], a[2]);
            if x < lo {
                lo
            } else if x > hi {
                hi
            } else {
                x
            }
        }
        // operators of the harness' own sets
        "half" => x / (one + one),
        "lin2" => x - (one + one) * a[1],
        "lin3" => x - (one + one) * a[1] + T::of(3.0) * a[2],
        "mix3" => x * a[1] - a[2],
        "lin4" => x - (one + one) * a[1] + T::of(3.0) * a[2] - T::of(5.0) * a[3],
        "mix4" => x * a[1] - a[2] * a[3],
        "plus" => x + a[1],
        "minus" => x - a[1],
        "times" => x * a[1],
        _ => panic!("reference lacks operator {name}"),
    }
}

/// Analytic partials, written independently of the library's.
pub fn ref_partial<T: Fl>(name: &str, a: &[T], i: usize) -> T {
    let one = T::one();
    let two = one + one;
    let x = a[0];
    let zero = T::zero();
    match (name, i) {
        ("abs", 0) => x.signum(),
        ("abs2", 0) => x + x,
        ("acos", 0) => -one / ((one - x) * (one + x)).sqrt(),
        ("asin", 0) => one / ((one - x) * (one + x)).sqrt(),
        ("acosh", 0) => one / ((x - one) * (x + one)).sqrt(),
        ("asinh", 0) => one / x.hypot(one),
        ("atan", 0) => one / (one + x * x),
        ("atanh", 0) => one / ((one - x) * (one + x)),
        ("cbrt", 0) => {
            let c = x.cbrt();
            one / (T::of(3.0) * c * c)
        }
        ("cos", 0) => -x.sin(),
        ("sin", 0) => x.cos(),
        ("tan", 0) => {
            let c = x.cos();
            one / (c * c)
        }
        ("cosh", 0) => x.sinh(),
        ("sinh", 0) => x.cosh(),
        ("tanh", 0) => {
            let c = x.cosh();
            one / (c * c)
        }
        ("sec", 0) => {
            let c = x.cos();
            x.sin() / (c * c)
        }
        ("csc", 0) => {
            let s = x.sin();
            -x.cos() / (s * s)
        }
        ("cot", 0) => {
            let s = x.sin();
            -one / (s * s)
        }
        ("exp", 0) => x.exp(),
        ("exp2", 0) => x.exp2() * T::of(std::f64::consts::LN_2),
        ("expm1", 0) => x.exp(),
        ("identity", 0) => one,
        ("inv", 0) => -one / (x * x),
        ("log", 0) => one / x,
        ("log1p", 0) => one / (one + x),
        ("log2", 0) => one / (x * T::of(std::f64::consts::LN_2)),
        ("log10", 0) => one / (x * T::of(std::f64::consts::LN_10)),
        ("neg", 0) => -one,
        ("sign", 0) => zero,
        ("sqrt", 0) => one / (two * x.sqrt()),
        ("add", _) | ("plus", _) => one,
        ("sub", 0) | ("minus", 0) => one,
        ("sub", 1) | ("minus", 1) => -one,
        ("mul", 0) | ("times", 0) => a[1],
        ("mul", 1) | ("times", 1) => x,
        ("div", 0) => one / a[1],
        ("div", 1) => -x / (a[1] * a[1]),
        ("pow", 0) if a[1].is_zero() => zero,
        ("pow", 0) => a[1] * x.powf(a[1] - one),
        ("pow", 1) if x.is_zero() && a[1] > zero => zero,
        ("pow", 1) => x.powf(a[1]) * x.ln(),
        ("atan2", 0) => a[1] / (x * x + a[1] * a[1]),
        ("atan2", 1) => -x / (x * x + a[1] * a[1]),
        ("min", 0) => {
            if x < a[1] {
                one
            } else {
                zero
            }
        }
        ("min", 1) => {
            if a[1] < x {
                one
            } else {
                zero
            }
        }
        ("max", 0) => {
            if x > a[1] {
                one
            } else {
                zero
            }
        }
        ("max", 1) => {
            if a[1] > x {
                one
            } else {
                zero
            }
        }
        ("fma", 0) => a[1],
        ("fma", 1) => x,
        ("fma", 2) => one,
        ("clamp", 0) => {
            if x < a[1] || x > a[2] {
                zero
            } else {
                one
            }
        }
        ("clamp", 1) => {
            if x < a[1] {
                one
            } else {
                zero
            }
        }
        ("clamp", 2) => {
            if !(x < a[1]) && x > a[2] {
                one
            } else {
                zero
            }
        }
        ("half", 0) => one / two,
        ("lin2", 0) | ("lin3", 0) | ("lin4", 0) => one,
        ("lin2", 1) | ("lin3", 1) | ("lin4", 1) => -two,
        ("lin3", 2) | ("lin4", 2) => T::of(3.0),
        ("lin4", 3) => T::of(-5.0),
        ("mix3", 0) => a[1],
        ("mix3", 1) => x,
        ("mix3", 2) => -one,
        ("mix4", 0) => a[1],
        ("mix4", 1) => x,
        ("mix4", 2) => -a[3],
        ("mix4", 3) => -a[2],
        _ => panic!("reference lacks partial {name}/{i}"),
    }
}

/// Points at which the derivative with respect to the varying arguments is not defined classically: no
/// verdict there.
pub fn non_smooth<T: Fl>(name: &str, a: &[T], varies: &[bool]) -> bool {
    let near = |p: T, q: T| (p - q).abs() <= T::of(1e-5) * (T::one() + p.abs().max(q.abs()));
    match name {
        "abs" | "sign" | "sqrt" | "cbrt" | "inv" | "log" | "log2" | "log10" => near(a[0], T::zero()),
        "acos" | "asin" | "atanh" => near(a[0].abs(), T::one()),
        "acosh" => near(a[0], T::one()),
        "log1p" => near(a[0], -T::one()),
        "min" | "max" => near(a[0], a[1]),
        "clamp" => near(a[0], a[1]) || near(a[0], a[2]) || near(a[1], a[2]),
        // at zero: x^n has a derivative in x for a whole n >= 0, and 0^y one in y for y > 0
        "pow" if a[0].is_zero() => {
            (varies[0] && !(a[1] >= T::zero() && a[1].fract().is_zero()))
                || (varies[1] && (!(a[1] > T::zero()) || near(a[1], T::zero())))
        }
        "pow" => near(a[0], T::zero()),
        "atan2" => near(a[0], T::zero()) && near(a[1], T::zero()),
        "div" => near(a[1], T::zero()),
        _ => false,
    }
}

pub struct RefRow<T> {
    pub val: T,
    pub der: Vec<T>,
    /// every operator result was finite
    pub ops_finite: bool,
    /// derivative undefined or numerically meaningless somewhere on the way
    pub rough: bool,
}

#[derive(Clone, Copy, PartialEq)]
pub enum Dir {
    None,
    Vars,
    Consts,
}

/// Reference evaluation of one row. With `noise`, each operator result is disturbed by a few ulp.
pub fn ref_row<T: Fl, O: OperatorSet>(
    ast: &Ast,
    x: &dyn Fn(usize) -> T,
    consts: &[T],
    dir: Dir,
    n_dir: usize,
    noise: &mut Option<Rng>,
) -> RefRow<T> {
    match ast {
        Ast::Var(f) => {
            let mut der = vec![T::zero(); if dir == Dir::None { 0 } else { n_dir }];
            if dir == Dir::Vars {
                der[*f] = T::one();
            }
            RefRow {
                val: x(*f),
                der,
                ops_finite: true,
                rough: false,
            }
        }
        Ast::Const(c) => {
            let mut der = vec![T::zero(); if dir == Dir::None { 0 } else { n_dir }];
            if dir == Dir::Consts {
                der[*c] = T::one();
            }
            RefRow {
                val: consts[*c],
                der,
                ops_finite: true,
                rough: false,
            }
        }
        Ast::Op(op, kids) => {
            let name = O::name(*op);
            let rs: Vec<RefRow<T>> = kids
                .iter()
                .map(|k| ref_row::<T, O>(k, x, consts, dir, n_dir, noise))
                .collect();
            let vals: Vec<T> = rs.iter().map(|r| r.val).collect();
            let mut val = ref_op(name, &vals);
            let mut rough = rs.iter().any(|r| r.rough);
            let mut der = Vec::new();
            if dir != Dir::None {
                let varies: Vec<bool> = rs.iter().map(|r| r.der.iter().any(|d| !d.is_zero())).collect();
                rough |= non_smooth(name, &vals, &varies);
                der = vec![T::zero(); n_dir];
                for (i, r) in rs.iter().enumerate() {
                    if r.der.iter().any(|d| !d.is_zero()) {
                        // conditioning of the partial with respect to its own arguments counts too
                        let mut at = vals.clone();
                        for (j, v) in at.iter_mut().enumerate() {
                            // a whole exponent given as a leaf stays whole
                            if !(name == "pow" && j == 1 && matches!(kids[1], Ast::Var(_) | Ast::Const(_))) {
                                disturb(v, noise);
                            }
                        }
                        let mut p = ref_partial(name, &at, i);
                        disturb(&mut p, noise);
                        if !p.is_finite() || p.abs().f() > T::BIG {
                            rough = true;
                        }
                        for (d, s) in der.iter_mut().zip(&r.der) {
                            if !s.is_zero() {
                                *d = *d + p * *s;
                            }
                        }
                    }
                }
                for d in der.iter_mut() {
                    disturb(d, noise);
                    rough |= !d.is_finite();
                }
            }
            disturb(&mut val, noise);
            RefRow {
                ops_finite: val.is_finite() && rs.iter().all(|r| r.ops_finite),
                rough: rough || (dir != Dir::None && !(val.abs().f() <= T::BIG)),
                val,
                der,
            }
        }
    }
}

fn disturb<T: Fl>(v: &mut T, noise: &mut Option<Rng>) {
    if let Some(r) = noise {
        let k = (r.f64() - 0.5) * 8.0;
        *v = *v * T::of(1.0 + k * T::eps());
    }
}

/// `got` agrees with the reference value: None = no verdict (ill-conditioned).
pub fn agrees<T: Fl, O: OperatorSet>(
    ast: &Ast,
    x: &dyn Fn(usize) -> T,
    consts: &[T],
    dir: Dir,
    n_dir: usize,
    pick: &dyn Fn(&RefRow<T>) -> T,
    reference: T,
    got: T,
) -> Option<bool> {
    if got.same(reference) || (got == reference) {
        return Some(true);
    }
    let (g, r) = (got.f(), reference.f());
    let base = T::eps() * 16.0 * r.abs().max(T::TINY);
    if g.is_finite() && r.is_finite() && (g - r).abs() <= base {
        return Some(true);
    }
    // conditioning, estimated by disturbing the reference
    let mut spread = 0.0f64;
    for s in 0..12u64 {
        let mut n = Some(Rng::with_seed(s * 7919 + 13));
        let row = ref_row::<T, O>(ast, x, consts, dir, n_dir, &mut n);
        let v = pick(&row).f();
        if row.rough && dir != Dir::None {
            return None;
        }
        if v.is_finite() != r.is_finite() || (v.is_nan() != r.is_nan()) {
            return None;
        }
        if v.is_infinite() && v != r {
            return None;
        }
        if v.is_finite() {
            spread = spread.max((v - r).abs());
        }
    }
    if r.is_nan() {
        return Some(g.is_nan());
    }
    if r.is_infinite() {
        return Some(g == r);
    }
    if !g.is_finite() {
        return Some(false);
    }
    let tol = spread * 64.0 + base * 4.0;
    if spread > 1e-2 * r.abs().max(1.0) {
        return None;
    }
    Some((g - r).abs() <= tol)
}
