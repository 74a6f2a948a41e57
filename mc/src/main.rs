#![allow(unused_imports)]
mod algos;
mod bound;
mod convex;
mod copy;
mod dynamic;
mod engine;
mod families;
mod gen;
mod hier;
mod limits;
mod maps;
mod multi;
mod pet;
mod pg;
mod refs;
mod render;
mod sched;
mod ser;
mod viewcheck;
mod views;

use engine::*;
use std::time::{Duration, Instant};

#[global_allocator]
static ALLOC: Guarded = Guarded;

pub const VERIF: &str = concat!(env!("CARGO_MANIFEST_DIR"), "/..");

type Check = fn(&mut Ctx);

fn table() -> Vec<(&'static str, Check)> {
    vec![("C01", pg::c01 as Check), ("C02", pg::c02), ("C03", pg::c03), ("C04", pg::c04), ("C05", limits::c05),
        ("C06", limits::c06),
        ("C26", dynamic::c26), ("C27", pet::c27), ("C28", ser::c28), ("C29", render::c29), ("C30", refs::c30), ("C24", convex::c24), ("C25", convex::c25), ("C19", bound::c19), ("C20", algos::c20), ("C21", algos::c21), ("C22", algos::c22), ("C23", algos::c23),
        ("C17", views::c17), ("C18", copy::c18), ("C14", views::c14), ("C15", views::c15), ("C16", views::c16), ("C12", maps::c12), ("C13", maps::c13),
        ("C10", hier::c10), ("C11", hier::c11),
        ("C07", multi::c07), ("C08", multi::c08)]
}

fn main() {
    install_panic_hook();
    sched::install();
    let args: Vec<String> = std::env::args().collect();
    let usage = || -> ! {
        eprintln!("usage: mc <ID> [quick|thorough] | mc replay <file> | mc list");
        std::process::exit(2)
    };
    if args.len() < 2 {
        usage();
    }
    if args[1] == "list" {
        for (n, _) in table() {
            println!("{n}");
        }
        return;
    }
    let mut replay = None;
    let mut id = args[1].clone();
    let mut tier = match args.get(2).cloned().or_else(|| std::env::var("VERIF_TIER").ok()).as_deref() {
        Some("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    if id == "replay" {
        let Some(f) = args.get(2) else { usage() };
        let j: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(f).expect("replay file")).expect("replay json");
        id = j["property"].as_str().unwrap().to_string();
        tier = if j["tier"] == "thorough" { Tier::Thorough } else { Tier::Quick };
        let path: Vec<u64> = j["path"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect();
        replay = Some((j["section"].as_str().unwrap().to_string(), path));
    }
    let Some((_, f)) = table().into_iter().find(|(n, _)| *n == id) else {
        eprintln!("unknown property {id}");
        std::process::exit(2);
    };
    let known: Vec<Known> = std::fs::read_to_string(format!("{VERIF}/known_findings.json"))
        .ok()
        .map(|s| {
            let j: serde_json::Value = serde_json::from_str(&s).expect("known_findings.json");
            serde_json::from_value(j["findings"].clone()).expect("findings")
        })
        .unwrap_or_default();
    let mut ctx = Ctx {
        property: id.clone(),
        tier,
        threads: std::thread::available_parallelism().map_or(4, |n| n.get()).min(16),
        start: Instant::now(),
        deadline: Duration::from_secs(if tier == Tier::Quick { 240 } else { 3000 }),
        sections: vec![],
        samples: vec![],
        known,
        known_hit: vec![],
        assumptions: vec![],
        replay,
        level: "model_checking",
    };
    f(&mut ctx);
    if ctx.replay.is_some() {
        println!("the replayed history does not violate {id} any more");
        return;
    }
    ctx.write_evidence(0);
    println!("OK property={} states={} wall={:.1}s", id, ctx.sections.iter().map(|s| s.states).sum::<u64>(), ctx.start.elapsed().as_secs_f64());
}
