//! Property-based checks of viadkim. See /verif/DESIGN.md.

mod engine;
mod env;
mod gen;
mod keys;
mod mem;
mod props;
mod refm;
mod scene;
mod text;
mod watch;

use engine::{jstr, Ctx, Outcome, Tape};
use std::{collections::HashMap, fmt::Write as _, process::exit, time::Instant};

fn usage() -> ! {
    eprintln!("usage: vharness list | run PROP [--tier T] [--seed N] [--out F] [--known F] [--replays DIR] [--facet NAME] [--cases N] | replay FILE");
    exit(2)
}

fn main() {
    engine::install_panic_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    match args.first().map(|s| s.as_str()) {
        Some("list") => {
            for p in props::props() {
                println!("{} {} {}", p.id, if p.pre { "both" } else { "default" }, p.facets.iter().map(|f| f.name).collect::<Vec<_>>().join(","));
            }
        }
        Some("leaks") => {
            props::secrets::child(args.get(1).and_then(|s| s.parse().ok()).unwrap_or(0));
        }
        Some("run") if args.len() > 1 => run(&args[1], &opts(&args[2..])),
        Some("replay") if args.len() > 1 => replay(&args[1]),
        _ => usage(),
    }
}

fn opts(a: &[String]) -> HashMap<String, String> {
    let mut m = HashMap::new();
    let mut i = 0;
    while i + 1 < a.len() {
        m.insert(a[i].trim_start_matches("--").to_owned(), a[i + 1].clone());
        i += 2;
    }
    m
}

/// Entries of the known-findings file that suppress: (key, description).
fn known(path: &str, prop: &str) -> Vec<(String, String)> {
    let Ok(s) = std::fs::read_to_string(path) else { return vec![] };
    s.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("known: property=")?;
            let (p, rest) = l.split_once(' ')?;
            let (k, d) = rest.strip_prefix("key=")?.split_once(" :: ")?;
            (p == prop).then(|| (k.to_owned(), d.to_owned()))
        })
        .collect()
}

fn find(id: &str) -> &'static props::Prop {
    props::props().into_iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("unknown property {id}");
        exit(2)
    })
}

/// How many times the facets' case counts are run in the quick tier: evens out
/// that a case of one property costs a hundred times one of another.
fn prop_scale(id: &str) -> u64 {
    match id {
        "C01" => 3,
        "C02" => 1,
        "C03" => 2,
        "C04" => 10,
        "C05" => 4,
        "C06" => 6,
        "C07" => 20,
        "C08" => 10,
        "C09" => 20,
        "C10" => 20,
        "C11" => 3,
        "C12" => 8,
        "C13" => 2,
        "C14" => 3,
        "C15" => 6,
        "C16" => 6,
        "C17" => 15,
        "C18" => 6,
        "C19" => 3,
        "C20" => 1,
        "C21" => 20,
        "C22" => 5,
        "C23" => 4,
        "C24" => 6,
        "C25" => 1,
        "C26" => 20,
        "C27" => 4,
        "C28" => 1,
        "C29" => 1,
        _ => 1,
    }
}

fn run(id: &str, o: &HashMap<String, String>) {
    let t0 = Instant::now();
    let prop = find(id);
    let tier = o.get("tier").map_or("quick", |s| s);
    let seed: u64 = o.get("seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let known = o.get("known").map(|f| known(f, id)).unwrap_or_default();
    let threads = std::thread::available_parallelism().map_or(4, |n| n.get()).min(32);
    let build = if gen::PRE { "pre-rfc8301" } else { "default" };
    if let Some(f) = o.get("crash") {
        watch::install(f);
    }
    // Time limits only guard against a slow machine: normally the number of
    // cases decides. What is left undone is reported in the evidence.
    let (limit, total) = if tier == "thorough" { (300.0, 420.0) } else { (50.0, 150.0) };

    let mut facets = String::new();
    let mut evals = 0;
    let mut nontrivial = 0;
    let mut samples = vec![];
    let mut status = 0;
    let mut known_hits: Vec<String> = vec![];
    let mut violation = String::from("null");
    let mut cut = false;
    for f in prop.facets {
        if o.get("facet").is_some_and(|n| n != f.name) {
            continue;
        }
        let mut n = match (f.enumerate, f.varies) {
            (Some(n), false) => n,
            _ if tier == "thorough" => f.thorough.max(f.quick * 20 * prop_scale(id)),
            _ => f.quick * prop_scale(id),
        };
        if let Some(m) = o.get("cases").and_then(|s| s.parse().ok()) {
            if f.enumerate.is_none() {
                n = m;
            }
        }
        let left = total - t0.elapsed().as_secs_f64();
        let limit = if left < 5.0 { 5.0 } else { f64::min(limit, left) };
        let r = engine::run_facet(id, f, n, seed, threads, &known, limit);
        evals += r.stats.evaluations;
        nontrivial += r.stats.nontrivial.len();
        for (i, s) in &r.stats.samples {
            if samples.len() < 60 && *i < 3 {
                let s: String = s.chars().take(700).collect();
                samples.push(format!("{} #{i}: {s}", f.name));
            }
        }
        let mut classes = String::new();
        for (k, v) in &r.stats.classes {
            write!(classes, "{}{}: {v}", if classes.is_empty() { "" } else { ", " }, jstr(k)).unwrap();
        }
        // an enumerated or random facet that was cut short by the time limit
        let short = r.fault.is_none() && r.broken.is_none() && r.wall > limit;
        cut |= short;
        write!(
            facets,
            "{}{{\"facet\": {}, \"build\": {}, \"cases_planned\": {n}, \"cut_short\": {short}, \"evaluations\": {}, \"distinct_nontrivial\": {}, \"classes\": {{{classes}}}, \"wall_s\": {:.2}}}",
            if facets.is_empty() { "" } else { ", " },
            jstr(f.name),
            jstr(build),
            r.stats.evaluations,
            r.stats.nontrivial.len(),
            r.wall
        )
        .unwrap();
        for k in r.known.keys() {
            if let Some((_, d)) = known.iter().find(|(x, _)| x == k) {
                if !known_hits.contains(d) {
                    known_hits.push(d.clone());
                }
            }
        }
        if let Some(b) = r.broken {
            eprintln!("HARNESS BROKEN: {b}");
            status = 2;
            break;
        }
        if let Some(x) = r.fault {
            let dir = o.get("replays").map_or(".", |s| s);
            let path = format!("{dir}/{id}-{build}-{}-{seed}-{}.json", f.name.replace(|c: char| !c.is_ascii_alphanumeric(), "_"), x.case);
            let tape: Vec<String> = x.tape.iter().map(|v| v.to_string()).collect();
            let notes: Vec<String> = x.notes.iter().map(|s| jstr(s)).collect();
            let j = format!(
                "{{\n\"property\": {},\n\"build\": {},\n\"facet\": {},\n\"seed\": {seed},\n\"case\": {},\n\"message\": {},\n\"key\": {},\n\"notes\": [{}],\n\"shrink_steps\": {},\n\"tape\": [{}]\n}}\n",
                jstr(id), jstr(build), jstr(f.name), x.case, jstr(&x.msg), jstr(&x.key), notes.join(", "), x.shrink_steps, tape.join(", ")
            );
            if let Err(e) = std::fs::write(&path, j) {
                eprintln!("cannot write {path}: {e}");
            }
            println!("{id} [{build}] {}: case {} (seed {seed}), shrunk in {} steps:", x.facet, x.case, x.shrink_steps);
            for n in &x.notes {
                println!("   {n}");
            }
            println!("   {}", x.msg);
            violation = jstr(&path);
            status = 1;
            break;
        }
    }
    let sm: Vec<String> = samples.iter().map(|s| jstr(s)).collect();
    let kh: Vec<String> = known_hits.iter().map(|s| jstr(s)).collect();
    let j = format!(
        "{{\"build\": {}, \"evaluations\": {evals}, \"distinct_nontrivial\": {nontrivial}, \"rule\": {}, \"samples\": [{}], \"facets\": [{facets}], \"known\": [{}], \"violation\": {violation}, \"cut_short\": {cut}, \"wall_s\": {:.2}}}\n",
        jstr(build),
        jstr(prop.rule),
        sm.join(", "),
        kh.join(", "),
        t0.elapsed().as_secs_f64()
    );
    match o.get("out") {
        Some(p) => std::fs::write(p, j).unwrap_or_else(|e| {
            eprintln!("{p}: {e}");
            exit(2)
        }),
        None => print!("{j}"),
    }
    exit(status)
}

/// The text after `"key": ` up to the end of the line, in a replay file.
fn field(s: &str, key: &str) -> Option<String> {
    let p = s.find(&format!("\n\"{key}\": "))?;
    let s = &s[p + key.len() + 5..];
    let s = &s[..s.find('\n')?];
    Some(s.trim_end_matches(',').trim_matches('"').to_owned())
}

fn replay(path: &str) {
    let s = std::fs::read_to_string(path).unwrap_or_else(|e| {
        eprintln!("{path}: {e}");
        exit(2)
    });
    let get = |k: &str| field(&s, k).unwrap_or_else(|| usage());
    let prop = find(&get("property"));
    let fname = get("facet");
    let Some(f) = prop.facets.iter().find(|f| f.name == fname) else { usage() };
    let build = if gen::PRE { "pre-rfc8301" } else { "default" };
    if get("build") != build {
        eprintln!("this replay is for the build {}", get("build"));
        exit(2);
    }
    let tape = match field(&s, "tape") {
        Some(t) if t.len() > 2 => Tape::given(
            t.trim_matches(|c| c == '[' || c == ']').split(',').map(|v| v.trim().parse().unwrap()).collect(),
        ),
        // a case that ended the process: no shrunk tape, the case is generated again
        _ => engine::case_tape(prop.id, f, get("seed").parse().unwrap(), get("case").parse().unwrap()),
    };
    let mut c = Ctx::new(tape, true);
    let r = engine::run_case(f.run, &mut c);
    for n in &c.notes {
        println!("   {n}");
    }
    match r {
        Outcome::Pass => println!("PASS"),
        Outcome::Fail(f) => {
            println!("FAIL {}", f.msg);
            exit(1)
        }
        Outcome::Broken(m) => {
            println!("BROKEN {m}");
            exit(2)
        }
    }
}
