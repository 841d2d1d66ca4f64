mod asim;
mod aworld;
mod chooser;
mod fab;
mod forge;
mod mix;
mod params;
mod props;
mod replay_party;
mod runner;
mod rworld;
mod scenario;
mod spec;
mod stats;
mod wire;
mod world;
mod xmix;
mod xworld;

use std::time::Duration;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let opt = |name: &str| -> Option<String> { args.iter().position(|a| a == name).and_then(|i| args.get(i + 1).cloned()) };
    let env = |name: &str| std::env::var(name).ok();
    runner::quiet_panics();
    let code = match args.first().map(|s| s.as_str()) {
        Some("check") => {
            let id = args.get(1).cloned().unwrap_or_default();
            let Some(prop) = runner::find(&id) else {
                println!("ERROR: no such property: {id}");
                std::process::exit(2);
            };
            let tier = opt("--tier").or(env("VERIF_TIER")).unwrap_or("quick".into());
            let base = opt("--seed")
                .or(env("VERIF_SEED"))
                .and_then(|s| s.parse().ok())
                .unwrap_or(1u64);
            let thorough = tier == "thorough";
            let runs = opt("--runs")
                .and_then(|s| s.parse().ok())
                .unwrap_or(if thorough { prop.thorough } else { prop.quick });
            let cap = opt("--cap")
                .and_then(|s| s.parse().ok())
                .unwrap_or(if thorough { 3000 } else { 120 });
            runner::explore(&runner::Job {
                prop,
                tier: if thorough { "thorough".into() } else { "quick".into() },
                base,
                runs,
                cap: Duration::from_secs(cap),
                from: opt("--from").and_then(|s| s.parse().ok()).unwrap_or(0),
                keep_going: args.iter().any(|a| a == "--all"),
            })
        }
        Some("replay") => runner::replay(args.get(1).map(|s| s.as_str()).unwrap_or("")),
        Some("run") => {
            // run <scenario> <seed>: one run with its trace
            let sc = args.get(1).cloned().unwrap_or_default();
            let seed = args.get(2).and_then(|s| s.parse().ok()).unwrap_or(0u64);
            match runner::one(&sc, chooser::Chooser::new(seed), true) {
                Ok(out) => {
                    for l in &out.trace {
                        println!("{l}");
                    }
                    println!("{:#?}", out.stats.counts);
                    for v in &out.violations {
                        println!("{:?} {}: {}", v.props, v.kind, v.detail);
                    }
                    !out.violations.is_empty() as i32
                }
                Err(e) => {
                    println!("ERROR: {e}");
                    2
                }
            }
        }
        _ => {
            println!("usage: manul-dst check <property> [--tier quick|thorough] [--seed N] [--runs N] [--cap S] [--all] | replay <file> | run <scenario> <seed>");
            2
        }
    };
    std::process::exit(code);
}
