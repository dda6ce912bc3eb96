//! A deterministic simulator for jotdown: see /verif/DESIGN.md.
mod alloc;
mod cli;
mod dict;
mod docgen;
mod engine;
mod scen_ext;
mod scen_lib;
mod scen_mem;
mod scen_sink;
mod scen_stack;
mod scen_text;
mod sched;
mod sessions;
mod sys;
mod tape;
mod twin;
mod world;
mod zygote;
mod registry;

use std::process::exit;

fn main() {
    engine::install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    let cmd = args.get(1).map_or("", String::as_str);
    let opt = |name: &str| args.iter().rposition(|a| a == name).and_then(|i| args.get(i + 1)).cloned();
    let env = |name: &str| std::env::var(name).ok();
    if let Some(t) = env("JDSIM_TWIN") {
        twin::configure(&t);
    }
    // scratch space of the simulated machines: made on demand, removed here at the end
    let mut scratch = None;
    if matches!(cmd, "check" | "replay") && cli::base_dir().is_none() {
        let d = format!("{}/jdsim-{}", std::env::temp_dir().display(), std::process::id());
        std::env::set_var("JDSIM_SCRATCH", &d);
        scratch = Some(d);
    }
    let exit = |code: i32| -> ! {
        if let Some(d) = &scratch {
            let _ = std::fs::remove_dir_all(d);
        }
        exit(code)
    };
    // everything lazily built and shared by all runs exists before the first fork
    let _ = world::gen();
    match cmd {
        "check" => {
            dict::init(&env("JDSIM_SRC").unwrap_or_else(|| "/repo/src".into()));
            let id = opt("--prop").unwrap_or_default();
            let props = registry::props();
            let Some(p) = props.iter().find(|p| p.id == id) else {
                eprintln!("unknown property {id:?}");
                exit(2);
            };
            let tier = opt("--tier").or_else(|| env("VERIF_TIER")).unwrap_or_default();
            let thorough = tier == "thorough";
            let num = |s: Option<String>| s.and_then(|x| x.parse::<u64>().ok());
            let dir = opt("--dir").unwrap_or_else(|| "/verif/evidence".into());
            let o = engine::Options {
                seed: num(opt("--seed").or_else(|| env("VERIF_SEED"))).unwrap_or(1),
                thorough,
                workers: num(opt("--workers")).unwrap_or_else(|| std::thread::available_parallelism().map_or(4, |n| n.get() as u64)) as usize,
                runs: num(opt("--runs")),
                first: num(opt("--first")).unwrap_or(0),
                wall: opt("--wall").and_then(|x| x.parse().ok()).unwrap_or(if thorough { 780.0 } else { 240.0 }),
                digest: opt("--digest"),
                evidence: (!args.iter().any(|a| a == "--no-evidence")).then(|| format!("{dir}/{id}.json")),
                replay_dir: format!("{dir}/replays"),
                extra: Vec::new(),
            };
            exit(engine::check(p, &o));
        }
        "replay" => {
            let quiet = args.iter().any(|a| a == "--quiet");
            exit(engine::replay(args.get(2).map_or("", String::as_str), &registry::props(), quiet));
        }
        "serve" => exit(twin::serve()),
        "dict" => print!("{}", dict::print(&dict::harvest_dir(args.get(2).map_or("/repo/src", String::as_str)))),
        "doc" => {
            dict::init("/repo/src");
            // print a generated document, for a look at the generator
            let s = opt("--seed").and_then(|x| x.parse().ok()).unwrap_or(0);
            print!("{}", world::gen().doc(&mut tape::Tape::search(s)));
        }
        _ => {
            eprintln!("usage: jdsim check --prop ID | replay FILE | serve | doc");
            exit(2);
        }
    }
}
