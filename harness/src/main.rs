mod dict;
mod enc;
mod engine;
mod hist;
mod net;
mod props;

use engine::*;

#[global_allocator]
static ALLOC: mem::Counting = mem::Counting;

fn arg(args: &[String], name: &str) -> Option<String> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).cloned()
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let verif = std::env::var("VH_VERIF").unwrap_or_else(|_| "/verif".into());
    let thorough = arg(&args, "--tier").map(|t| t == "thorough").unwrap_or(false);
    let seed = arg(&args, "--seed")
        .and_then(|s| s.parse().ok())
        .or_else(|| std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()))
        .unwrap_or(1);
    let cfg = Config { thorough, seed, verif, slots: arg(&args, "--slots") };
    let all = props::all();
    let find = |id: &str| match all.iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {}", id);
            std::process::exit(2);
        }
    };
    install_hook();
    let code = match args.first().map(|s| s.as_str()) {
        Some("check") => parent(find(&args[1]), &cfg),
        Some("worker") => run(find(&args[1]), &cfg),
        Some("one") => {
            let src = match arg(&args, "--tape") {
                Some(f) => Err(std::fs::read_to_string(f).unwrap().lines().filter_map(|l| l.parse().ok()).collect()),
                None => Ok(arg(&args, "--idx").unwrap().parse().unwrap()),
            };
            one(find(&args[1]), &args[2], src, &arg(&args, "--sink").unwrap(), &cfg)
        }
        Some("replay") => replay(&args[1], &all),
        Some("dict") => {
            print!("{}", dict::dump());
            0
        }
        Some("list") => {
            for p in &all {
                println!("{} {}", p.id, p.parts.iter().map(|p| p.name).collect::<Vec<_>>().join(" "));
            }
            0
        }
        _ => {
            eprintln!("usage: vh check ID [--tier quick|thorough] [--seed N] | vh replay FILE | vh list");
            2
        }
    };
    std::process::exit(code);
}

/// Runs the case of a replay file again: 1 if it still fails, 0 if it passes.
fn replay(path: &str, all: &[Prop]) -> i32 {
    let s = match std::fs::read_to_string(path) {
        Ok(s) => s,
        Err(e) => {
            eprintln!("{}: {}", path, e);
            return 2;
        }
    };
    let get = |k: &str| s.lines().find_map(|l| l.strip_prefix(k)).unwrap_or("").to_string();
    let (id, part, tier) = (get("property="), get("part="), get("tier="));
    let tape: Vec<u64> = get("tape=").split(',').filter_map(|x| x.parse().ok()).collect();
    let Some(p) = all.iter().find(|p| p.id == id).and_then(|p| p.parts.iter().find(|q| q.name == part)) else {
        eprintln!("no part {} of {}", part, id);
        return 2;
    };
    let o = run_case(p.f, Src::replay(tape), true, tier == "thorough");
    println!("{}", o.case.text);
    match o.res {
        Ok(()) => {
            println!("the case passes");
            0
        }
        Err(e) => {
            println!("{}{}", if e.harness { "HARNESS ERROR " } else { "" }, e.msg);
            if e.harness { 2 } else { 1 }
        }
    }
}
