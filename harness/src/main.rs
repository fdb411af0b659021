mod ast;
mod bnf;
mod chart;
mod checks;
mod dump;
mod e2e;
mod e2e_cpp;
mod e2e_rust;
mod engine;
mod events;
mod gens;
#[cfg(feature = "parser")]
mod lapexg;
mod rx;
#[allow(dead_code)]
mod texts;
mod truth;
mod util;

use std::path::PathBuf;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut id = None;
    let mut replay: Option<PathBuf> = None;
    let mut cases = None;
    let mut i = 1;
    while i < args.len() {
        match args[i].as_str() {
            "--replay" => {
                i += 1;
                replay = args.get(i).map(PathBuf::from);
            }
            "--cases" => {
                i += 1;
                cases = args.get(i).and_then(|s| s.parse().ok());
            }
            s => id = Some(s.to_string()),
        }
        i += 1;
    }
    let root = PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()));
    let seed = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.trim().parse::<u64>().ok())
        .unwrap_or(1);
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => engine::Tier::Thorough,
        _ => engine::Tier::Quick,
    };
    let id = id.unwrap_or_default();
    let props = checks::all();
    let p = match props.iter().find(|p| p.id() == id) {
        Some(p) => p,
        None => {
            for p in &props {
                println!("{}", p.id());
            }
            std::process::exit(2);
        }
    };
    if std::env::var("VERIF_SHOW_PANICS").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let code = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        engine::drive(&**p, &root, seed, tier, replay.as_deref(), cases)
    }))
    .unwrap_or_else(|e| {
        println!("check error: {}", engine::panic_text(&*e));
        2
    });
    util::cleanup_scratch();
    std::process::exit(code);
}
