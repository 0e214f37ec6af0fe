use tedium_verif::engine::{replay_file, run_property, set_slots, single, supervise, Options};
use tedium_verif::props;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let all = props::all();
    let usage = "usage: tedium-verif <property> [--tier quick|thorough] [--seed N] [--cases N] | replay FILE | list";
    let Some(cmd) = args.first() else { eprintln!("{usage}"); std::process::exit(2) };
    if cmd == "list" {
        for p in &all { println!("{} quick={} thorough={}", p.id, p.quick, p.thorough); }
        return;
    }
    if cmd == "replay" {
        std::process::exit(replay_file(&all, &args[1]));
    }
    if cmd == "single" {
        let p = all.iter().find(|p| p.id == args[1]).expect("property");
        std::process::exit(single(p, &args[2], &args[3], &args[4], args[5] == "thorough"));
    }
    let opt = |name: &str, env: &str| -> Option<String> {
        args.iter().position(|a| a == name).and_then(|i| args.get(i + 1).cloned()).or_else(|| if env.is_empty() { None } else { std::env::var(env).ok() })
    };
    let root = opt("--root", "").unwrap_or_else(|| "/verif".into());
    let o = Options {
        seed: opt("--seed", "VERIF_SEED").and_then(|s| s.parse().ok()).unwrap_or(1),
        thorough: opt("--tier", "VERIF_TIER").as_deref() == Some("thorough"),
        cases: opt("--cases", "").and_then(|s| s.parse().ok()),
        root,
        shrink_budget: 6000,
        corpus: opt("--corpus", ""),
        fuzz_runs: opt("--fuzz-runs", "").and_then(|s| s.parse().ok()).unwrap_or(0),
    };
    let Some(p) = all.iter().find(|p| p.id == *cmd) else { eprintln!("unknown property {cmd}"); std::process::exit(2) };
    if let Some(slots) = opt("--child", "") {
        set_slots(&slots);
        std::process::exit(run_property(p, &o));
    }
    std::process::exit(supervise(p, &o, &args));
}
