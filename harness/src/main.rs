mod ast;
mod c_data;
mod c_eval;
#[cfg(feature = "hooks")]
mod c_evo;
mod c_loss;
#[cfg(feature = "hooks")]
mod c_mut;
#[cfg(feature = "hooks")]
mod c_opt;
mod c_ops;
mod c_par;
#[cfg(feature = "hooks")]
mod c_prog;
#[cfg(feature = "hooks")]
mod c_san;
mod c_search;
#[cfg(feature = "hooks")]
mod c_sel;
mod c_tree;
mod common;
mod gen;
mod sgen;
mod spec;

use common::*;
use std::path::PathBuf;

fn main() {
    let mut args = std::env::args().skip(1);
    let prop = args.next().unwrap_or_default();
    let mut only = None;
    while let Some(a) = args.next() {
        if a == "--case" {
            let v = args.next().unwrap_or_default();
            if let Some((g, i)) = v.rsplit_once('/') {
                only = i.parse().ok().map(|i| (g.to_string(), i));
            }
        }
    }
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let verif = std::env::var_os("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif"));
    install_panic_hook();
    let limit = if tier == Tier::Quick { 400 } else { 3000 };
    let m = Mon::new(&prop, tier, seed, verif, only, limit);
    match prop.as_str() {
        "P01" => c_eval::p01(&m),
        "P02" => c_eval::p02(&m),
        "P03" => c_eval::p03(&m),
        "P04" => c_eval::p04(&m),
        "P05" => c_tree::p05(&m),
        #[cfg(feature = "hooks")]
        "P06" => c_mut::p06(&m),
        #[cfg(feature = "hooks")]
        "P20" => {
            c_mut::p20(&m);
            c_evo::p20_iterations(&m);
        }
        "P07" => c_search::p07(&m),
        "P08" => c_search::p08(&m),
        "P09" => c_search::p09(&m),
        "P10" => c_search::p10(&m),
        #[cfg(feature = "hooks")]
        "P24" => c_search::p24(&m),
        #[cfg(feature = "hooks")]
        "P13" => c_opt::p13(&m),
        "P11" => c_par::p11(&m),
        #[cfg(feature = "hooks")]
        "P23" => c_san::p23(&m),
        #[cfg(feature = "hooks")]
        "P12" => c_evo::p12(&m),
        #[cfg(feature = "hooks")]
        "P27" => c_evo::p27(&m),
        #[cfg(feature = "hooks")]
        "P28" => c_prog::p28(&m),
        "P14" => c_loss::p14(&m),
        "P15" => c_data::p15(&m),
        "P17" => c_ops::p17(&m),
        #[cfg(feature = "hooks")]
        "P18" => c_sel::p18(&m),
        #[cfg(feature = "hooks")]
        "P22" => c_sel::p22(&m),
        "P25" => c_search::p25(&m),
        "P16" => c_tree::p16(&m),
        "P21" => c_tree::p21(&m),
        "P26" => c_tree::p26(&m),
        _ => {
            eprintln!("unknown property {prop}");
            std::process::exit(2);
        }
    }
    std::process::exit(m.finish());
}
