//! P23 under sanitizers and the undefined-behaviour interpreter: only the hostile workloads.
#![allow(dead_code, unused_imports)]
#[path = "../../harness/src/ast.rs"]
mod ast;
#[path = "../../harness/src/c_mut.rs"]
mod c_mut;
#[path = "../../harness/src/c_san.rs"]
mod c_san;
#[path = "../../harness/src/c_search.rs"]
mod c_search;
#[path = "../../harness/src/common.rs"]
mod common;
#[path = "../../harness/src/gen.rs"]
mod gen;
#[path = "../../harness/src/sgen.rs"]
mod sgen;
#[path = "../../harness/src/spec.rs"]
mod spec;

use common::*;
use std::path::PathBuf;

fn main() {
    let mut only = None;
    let mut args = std::env::args().skip(1);
    while let Some(a) = args.next() {
        if a == "--case" {
            let v = args.next().unwrap_or_default();
            if let Some((g, i)) = v.rsplit_once('/') {
                only = i.parse().ok().map(|i| (g.to_string(), i));
            }
        }
    }
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let verif = std::env::var_os("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif"));
    install_panic_hook();
    let limit = if tier == Tier::Quick { 120 } else { 1500 };
    let m = Mon::new("P23", tier, seed, verif, only, limit);
    c_san::p23(&m);
    std::process::exit(m.finish());
}
