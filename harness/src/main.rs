mod core;
mod gen;
mod http;
mod srv;
mod wire;
mod props;
use crate::core::{Ctx, Mode};

#[global_allocator]
static ALLOC: core::Alloc = core::Alloc;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
    if a.get(1).map(String::as_str) == Some("child") {
        props::child(&a[2..]);
        return;
    }
    core::install();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let code = match a.get(1).map(String::as_str) {
        Some("check") => {
            let tier = a.get(3).map(String::as_str).unwrap_or("quick");
            let mut ctx = Ctx::new(&a[2], tier, seed, &root, Mode::Run);
            props::run(&a[2], &mut ctx);
            ctx.finish()
        },
        Some("replay") => {
            let v: serde_json::Value =
                serde_json::from_str(&std::fs::read_to_string(&a[2]).expect("read replay")).expect("json");
            let id = v["property"].as_str().unwrap().to_string();
            let mut ctx = Ctx::new(
                &id,
                "quick",
                seed,
                &root,
                Mode::Replay { sub: v["sub"].as_str().unwrap().into(), case: v["case"].clone() },
            );
            props::run(&id, &mut ctx);
            ctx.finish()
        },
        Some("list") => {
            for p in props::ids() {
                println!("{p}");
            }
            0
        },
        _ => {
            eprintln!("usage: vharness check <ID> quick|thorough | replay <file> | list");
            2
        },
    };
    std::process::exit(code);
}
