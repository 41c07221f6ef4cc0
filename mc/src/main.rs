mod drive;
mod engine;
mod fsx;
mod lockstep;
mod model;
mod props;
mod screen;
mod term;

use engine::*;
use std::path::PathBuf;
use std::time::{Duration, Instant};

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let dir = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
    let mut replay = None;
    let mut tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let id;
    match args.get(1).map(|s| s.as_str()) {
        Some("replay") => {
            let f = std::fs::read_to_string(&args[2]).expect("replay file");
            let get = |k: &str| {
                f.lines()
                    .find_map(|l| l.strip_prefix(k).and_then(|l| l.strip_prefix('=')))
                    .unwrap_or("")
                    .to_string()
            };
            id = get("prop");
            tier = get("tier");
            let seq: Vec<u16> = get("seq").split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
            replay = Some((get("space"), get("cfg").parse().unwrap_or(0), seq));
        }
        Some("pty-child") => return props::pty::child(&args[2..]),
        Some(x) => {
            id = x.to_string();
            if let Some(t) = args.get(2) {
                tier = t.clone();
            }
        }
        None => {
            eprintln!("usage: mc <PROPERTY> [quick|thorough] | mc replay FILE");
            std::process::exit(2);
        }
    }
    install_panic_hook();
    let cap: u64 = std::env::var("MC_CAP_S").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == "thorough" {
        3600
    } else {
        420
    });
    let workers = if solo() { 1 } else { std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4) };
    let now = Instant::now();
    let prop: &'static str = Box::leak(id.clone().into_boxed_str());
    let listed = std::fs::read_to_string(PathBuf::from(&dir).join("known-findings.txt"))
        .unwrap_or_default()
        .lines()
        .filter_map(|l| l.strip_prefix("KNOWN-FINDING: property="))
        .filter_map(|l| l.strip_prefix(prop)?.trim().split(':').next().map(|s| s.to_string()))
        .collect();
    let mut ex = Explorer {
        prop,
        level: "model_checking",
        tier,
        seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
        start: now,
        deadline: now + Duration::from_secs(cap),
        dir: dir.into(),
        total: Stats::default(),
        spaces: vec![],
        capped: vec![],
        assumptions: vec![],
        replay,
        rule: String::new(),
        replay_hit: false,
        listed,
        workers,
    };
    let known = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| props::run(&mut ex))) {
        Ok(k) => k,
        Err(_) => {
            let what = engine::LAST_PANIC.with(|p| p.borrow().clone());
            fsx::cleanup();
            eprintln!("the explorer failed: {}", what);
            // In what is done outside of the single executions (histories and start states prepared, fault points
            // counted) the code panicked or failed where it must not; the sandbox may be at fault, too.
            let sandbox = ["No space left", "os error 11", "os error 12", "os error 24", "os error 28", "failed to spawn thread"];
            if ex.replay.is_some() || sandbox.iter().any(|s| what.contains(s)) {
                std::process::exit(2);
            }
            ex.failed_outside(&what)
        }
    };
    if !known {
        eprintln!("unknown property {}", id);
        std::process::exit(2);
    }
    fsx::cleanup();
    if ex.replay.is_some() {
        if !ex.replay_hit {
            eprintln!("no such space");
            std::process::exit(2);
        }
        return;
    }
    if solo() {
        eprintln!("harness error: the failure did not come again");
        std::process::exit(3);
    }
    for (k, v) in &ex.total.known {
        println!("KNOWN-FINDING: property={} {}: {} ({} executions)", prop, k, v.1, v.0);
    }
    ex.write_evidence(0);
    println!(
        "{} {}: held on {} executions, {} steps, {} distinct states, {:.1}s",
        prop,
        ex.tier,
        ex.total.execs,
        ex.total.steps,
        ex.total.states.len(),
        now.elapsed().as_secs_f64()
    );
}
