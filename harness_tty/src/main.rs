//! P29: what a search shows on the terminal, watched through a pseudo-terminal.
mod c_tty;
mod child;
#[path = "../../harness/src/common.rs"]
#[allow(dead_code)]
mod common;

use common::*;
use std::path::PathBuf;

fn main() {
    let mut args = std::env::args().skip(1);
    let prop = args.next().unwrap_or_default();
    if prop == "--child" {
        let seed = args.next().and_then(|s| s.parse().ok()).expect("seed");
        let mode = args.next().expect("mode");
        child::run(seed, &mode);
        return;
    }
    let mut only = None;
    while let Some(a) = args.next() {
        if a == "--case" {
            let v = args.next().unwrap_or_default();
            if let Some((g, i)) = v.rsplit_once('/') {
                only = i.parse().ok().map(|i| (g.to_string(), i));
            }
        }
    }
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let verif = std::env::var_os("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif"));
    install_panic_hook();
    let limit = if tier == Tier::Quick { 400 } else { 3000 };
    let m = Mon::new(&prop, tier, seed, verif, only, limit);
    if prop != "P29" {
        eprintln!("unknown property {prop}");
        std::process::exit(2);
    }
    c_tty::p29(&m);
    std::process::exit(m.finish());
}
