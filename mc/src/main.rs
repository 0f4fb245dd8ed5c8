//! Checks of the properties in /verif/properties.jsonl.
//!
//! usage: mc <property> <quick|thorough> [--replay <file>] [--only <part of a space name>]

mod engine;
mod gen;
mod imp;
mod model;
mod num;
mod props;
mod report;
mod small;
mod view;

use std::time::{Duration, Instant};

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    if args.first().map(String::as_str) == Some("--list") {
        for (id, _, _) in props::ALL {
            println!("{id}");
        }
        return;
    }
    if args.first().map(String::as_str) == Some("--nest") {
        props::nest(args[1].parse().unwrap(), args[2].parse().unwrap());
        return;
    }
    if args.first().map(String::as_str) == Some("--history") {
        props::history();
        return;
    }
    let Some(id) = args.first() else {
        eprintln!("usage: mc <property> <quick|thorough> [--replay <file>] [--only <space>]");
        std::process::exit(2);
    };
    let thorough = args.get(1).is_some_and(|t| t == "thorough");
    let after = |name: &str| args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).cloned();
    let Some((_, f, assumptions)) = props::ALL.iter().find(|(p, _, _)| p == id) else {
        eprintln!("unknown property {id}");
        std::process::exit(2);
    };
    let replay = after("--replay").map(|p| {
        let p = std::path::Path::new(&p);
        let p = if p.exists() { p.to_path_buf() } else { report::root().join(p) };
        let text = std::fs::read_to_string(&p).unwrap_or_else(|e| {
            eprintln!("cannot read {}: {e}", p.display());
            std::process::exit(2);
        });
        let field = |k: &str| {
            text.lines()
                .find_map(|l| l.strip_prefix(k))
                .unwrap_or_default()
                .trim()
                .to_string()
        };
        let choices = field("choices:").split(',').filter_map(|c| c.parse().ok()).collect();
        (field("space:"), choices, field("budget:").parse().unwrap_or(0))
    });
    engine::install_panic_hook();
    engine::set_thorough(thorough);
    let mut ctx = engine::Ctx {
        property: id.clone(),
        tier_thorough: thorough,
        threads: std::thread::available_parallelism().map_or(8, |n| n.get()).clamp(2, 16),
        reports: vec![],
        violations: vec![],
        known: Default::default(),
        samples: vec![],
        started: Instant::now(),
        deadline: Duration::from_secs(if thorough { 5400 } else { 420 }),
        replay,
        only: after("--only"),
    };
    f(&mut ctx);
    std::process::exit(report::finish(ctx, assumptions));
}
