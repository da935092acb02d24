//! User code selecting operators through the exported `sr_ops!` macro (P17).
use dynamic_expressions::operator_enum::builtin::{Add, Cos, Fma, Mul, Neg};
use dynamic_expressions::operator_enum::presets::BuiltinOpsF64;
use dynamic_expressions::OperatorSet;

fn main() {
    let o = symbolic_regression::sr_ops!(BuiltinOpsF64, D = 3; 1 => (Cos, Neg), 2 => (Mul, Add), 3 => (Fma));
    for (i, v) in o.ops_by_arity.iter().enumerate() {
        for op in v {
            println!("{} {}", i + 1, BuiltinOpsF64::name(*op));
        }
    }
}
