#![allow(dead_code)]
mod cli;
#[macro_use]
mod engine;
mod asm;
mod interp;
mod isa;
mod link;
mod whole;
mod obj;
mod props;
mod rig;
mod source;
mod user;

use engine::*;
use std::path::PathBuf;

fn main() {
    install_panic_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let verif = std::env::var_os("VP_VERIF").map(PathBuf::from).unwrap_or_else(|| "/verif".into());
    let bin = std::env::var_os("VP_BIN").map(PathBuf::from).unwrap_or_else(|| verif.join("target/release"));
    let o = Opts {
        thorough: std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough") || args.iter().any(|a| a == "--thorough"),
        seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
        verif,
        bin,
        cases: std::env::var("VP_CASES").ok().and_then(|s| s.parse().ok()),
    };
    let props = props::all();
    let code = match args.first().map(|s| s.as_str()) {
        Some("run") => {
            silence_stdout();
            let id = args.get(1).cloned().unwrap_or_default();
            match props.iter().find(|p| p.id == id) {
                Some(p) => run(p, &o),
                None => harness_error(&format!("no property {id}")),
            }
        }
        Some("replay") => {
            silence_stdout();
            replay(&props, &o, &PathBuf::from(&args[1]))
        }
        Some("mmap") => props::kernel::mmap_helper(),
        Some("list") => {
            for p in &props {
                println!("{} quick {} thorough {}", p.id, p.quick, p.thorough);
            }
            0
        }
        _ => {
            eprintln!("usage: vp run ID [--thorough] | vp replay FILE | vp list");
            2
        }
    };
    std::process::exit(code);
}
