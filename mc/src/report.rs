//! Evidence, replay files and the verdict lines.

use crate::engine::{Ctx, Fail};
use std::fmt::Write as _;
use std::path::PathBuf;

pub fn root() -> PathBuf {
    std::env::var_os("MC_ROOT")
        .map(PathBuf::from)
        .unwrap_or_else(|| PathBuf::from("/verif"))
}

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn replay_path(property: &str) -> String {
    format!("evidence/replay-{property}.txt")
}

fn write_replay(
    property: &str,
    space: &str,
    budget: u32,
    choices: &[u32],
    message: &str,
    notes: &[String],
) -> String {
    let rel = replay_path(property);
    let _ = std::fs::create_dir_all(root().join("evidence"));
    let mut s = String::new();
    let _ = writeln!(s, "property: {property}");
    let _ = writeln!(s, "space: {space}");
    let _ = writeln!(s, "budget: {budget}");
    let _ = writeln!(
        s,
        "choices: {}",
        choices
            .iter()
            .map(|c| c.to_string())
            .collect::<Vec<_>>()
            .join(",")
    );
    let _ = writeln!(s, "message: {message}");
    for n in notes {
        let _ = writeln!(s, "{n}");
    }
    let _ = writeln!(
        s,
        "\nreplay with: ./check.sh {property} quick --replay {rel}"
    );
    let _ = std::fs::write(root().join(&rel), s);
    rel
}

/// Reports an execution that does not terminate and ends the process.
pub fn hang(property: &str, space: &str, budget: u32, choices: &[u32]) -> ! {
    let message = format!(
        "no result within {} seconds: the code under test does not terminate",
        crate::engine::HANG_SECS
    );
    let rel = write_replay(property, space, budget, choices, &message, &[]);
    println!("violated: {message} (space {space}, choices {choices:?})");
    println!("VIOLATION property={property} replay={rel}");
    std::process::exit(1);
}

/// Keys of the findings that are listed for a property.
pub fn listed_findings(property: &str) -> Vec<(String, String)> {
    let text = std::fs::read_to_string(root().join("known_findings.txt")).unwrap_or_default();
    let mut v = Vec::new();
    for l in text.lines() {
        if let Some(rest) = l.strip_prefix("finding: ") {
            let mut it = rest.splitn(3, ' ');
            let p = it.next().unwrap_or("");
            let k = it.next().unwrap_or("");
            let d = it.next().unwrap_or("");
            if p == format!("property={property}") {
                if let Some(k) = k.strip_prefix("key=") {
                    v.push((k.to_string(), d.to_string()));
                }
            }
        }
    }
    v
}

pub fn finish(mut ctx: Ctx, assumptions: &[&str]) -> i32 {
    let listed = listed_findings(&ctx.property);
    // a known failure that is not listed is a violation
    let known = std::mem::take(&mut ctx.known);
    for (k, (n, m)) in &known {
        if !listed.iter().any(|(l, _)| l == k) {
            ctx.violations.push(crate::engine::Violation {
                space: "known findings".into(),
                budget: 0,
                choices: vec![],
                message: format!("{m} (signature {k}, {n} times, not in known_findings.txt)"),
                notes: vec![],
            });
        }
    }
    let wall = ctx.started.elapsed().as_secs_f64();
    let (mut nodes, mut edges, mut leaves) = (0u64, 0u64, 0u64);
    let mut exhaustive = true;
    for r in &ctx.reports {
        nodes += r.stats.nodes;
        edges += r.stats.edges;
        leaves += r.stats.leaves;
        exhaustive &= r.exhaustive;
    }
    exhaustive &= ctx.violations.is_empty();
    let seed: u64 = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1);
    let mut j = String::new();
    let _ = write!(
        j,
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {seed},\n \"level\": \"model_checking\",\n \"coverage\": {{\n",
        esc(&ctx.property),
        esc(if ctx.tier_thorough { "thorough" } else { "quick" })
    );
    let _ = write!(
        j,
        "  \"states\": {nodes},\n  \"transitions\": {edges},\n  \"traces_validated_against_impl\": {leaves},\n  \"exhaustive\": {exhaustive},\n"
    );
    let _ = write!(
        j,
        "  \"explanation\": {},\n",
        esc("states: distinct choice points of the bounded choice trees (or canonical states of a state graph); transitions: alternatives taken from them; traces: complete executions of the real library, each compared with the model. Nothing is sampled: every path within the bound of each space is executed.")
    );
    j.push_str("  \"spaces\": [\n");
    for (i, r) in ctx.reports.iter().enumerate() {
        let _ = write!(
            j,
            "   {{\"name\": {}, \"bound\": {}, \"states\": {}, \"transitions\": {}, \"executions\": {}, \"depth\": {}, \"complete\": {}, \"wall_s\": {:.3}}}{}\n",
            esc(&r.name),
            r.budget,
            r.stats.nodes,
            r.stats.edges,
            r.stats.leaves,
            r.max_depth,
            r.exhaustive,
            r.wall,
            if i + 1 < ctx.reports.len() { "," } else { "" }
        );
    }
    j.push_str("  ],\n  \"samples\": [\n");
    let n = ctx.samples.len().min(40);
    for (i, s) in ctx.samples.iter().take(n).enumerate() {
        let _ = write!(j, "   {}{}\n", esc(s), if i + 1 < n { "," } else { "" });
    }
    j.push_str("  ]\n },\n \"assumptions\": [\n");
    for (i, a) in assumptions.iter().enumerate() {
        let _ = write!(
            j,
            "  {}{}\n",
            esc(a),
            if i + 1 < assumptions.len() { "," } else { "" }
        );
    }
    let _ = write!(
        j,
        " ],\n \"wall_s\": {wall:.3},\n \"violations\": {}\n}}\n",
        ctx.violations.len()
    );
    if ctx.replay.is_none() && ctx.only.is_none() {
        let _ = std::fs::create_dir_all(root().join("evidence"));
        if let Err(e) = std::fs::write(
            root().join(format!("evidence/{}.json", ctx.property)),
            &j,
        ) {
            eprintln!("cannot write the evidence file: {e}");
            return 2;
        }
    }
    println!(
        "{}: {} spaces, {nodes} states, {edges} transitions, {leaves} executions of the real code, {wall:.1}s{}",
        ctx.property,
        ctx.reports.len(),
        if exhaustive || !ctx.violations.is_empty() {
            ""
        } else {
            " (time limit reached before every space was complete)"
        }
    );
    for (k, d) in &listed {
        if let Some((n, m)) = known.get(k.as_str()) {
            println!(
                "KNOWN-FINDING: property={} {k}: {d} ({n} executions, e.g. {m})",
                ctx.property
            );
        } else {
            println!("note: listed finding {k} of {} did not show up", ctx.property);
        }
    }
    if let Some(v) = ctx.violations.first() {
        if ctx.replay.is_none() {
            let rel = write_replay(
                &ctx.property,
                &v.space,
                v.budget,
                &v.choices,
                &v.message,
                &v.notes,
            );
            println!("violated in space {}: {}", v.space, v.message);
            for n in &v.notes {
                println!("  {n}");
            }
            println!("VIOLATION property={} replay={rel}", ctx.property);
        } else {
            println!("violated: {}", v.message);
        }
        return 1;
    }
    0
}

pub fn ensure(cond: bool, msg: impl FnOnce() -> String) -> Result<(), Fail> {
    if cond {
        Ok(())
    } else {
        Err(Fail::Violation(msg()))
    }
}
