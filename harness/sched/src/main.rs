//! Runs client programs of the library under controlled schedules.
//!
//!   sched explore PROGRAMS OUT MODE BOUND LIMIT SHARD SHARDS   depth-first, at most BOUND preemptions
//!   sched random  PROGRAMS OUT MODE RUNS 0 SHARD SHARDS        random schedules
//!   sched fresh   PROGRAMS OUT MODE BOUND LIMIT SHARD SHARDS   as explore, each execution in a new process
//!   sched one     PROGRAM PREFIX                               one execution (used by fresh)
//!
//! Distinct histories go to OUT, one per line; the last line of stdout is a report. A
//! program that gets stuck ends the process with status 98.
#[path = "../../common/clients.rs"]
mod clients;
#[path = "../../common/chance.rs"]
mod chance;
mod host {
    pub fn extreme(n: u32, ones: bool) { vrand::verif_extreme(n, ones) }
    pub fn step() { vstd::verif::step() }
    pub fn seed(s: u64) { vrand::verif_seed(s) }
}
use clients::*;
use serde_json::{json, Value};
use std::collections::HashSet;
use std::io::{BufRead, BufReader, BufWriter, Write};
use vstd::verif::{next_prefix, run, Choice, Outcome, Strategy};

const STACK: usize = 256 * 1024;

fn programs(path: &str, shard: usize, shards: usize) -> Vec<Value> {
    let f = std::fs::File::open(path).expect("programs");
    BufReader::new(f).lines().map(|l| l.unwrap()).filter(|l| !l.trim().is_empty()).enumerate().filter(|(i, _)| i % shards == shard)
        .map(|(_, l)| serde_json::from_str(&l).expect("program")).collect()
}
fn choices(log: &[Choice]) -> Vec<u8> { log.iter().map(|c| c.took).collect() }
fn stuck(program: &Value, o: &Outcome, r: &Running) -> ! {
    println!("{}", json!({"stuck": {"program": program, "schedule": choices(&o.log), "how": format!("{:?}", o.stuck.as_ref().unwrap()), "calls that do not return": r.pending()}}));
    std::io::stdout().flush().ok();
    // Threads of this process are blocked for good.
    std::process::exit(98)
}
fn execute(w: &mut World, program: &Value, st: Strategy) -> (Outcome, Value) {
    let (bodies, r) = prepare(w, program);
    let o = run(st, STACK, bodies);
    if o.stuck.is_some() { stuck(program, &o, &r) }
    let h = r.history(w, program, true);
    (o, h)
}

fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "chance-counts" { return chance::counts(&a[2..]) }
    if a[1] == "chance-pairs" { return chance::pairs(&a[2..]) }
    if a[1] == "outcomes" { return chance::outcomes(&a[2..]) }
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    if a[1] == "one" {
        let program: Value = serde_json::from_str(&a[2]).expect("program");
        let prefix: Vec<u8> = serde_json::from_str(&a[3]).expect("prefix");
        let mut w = World { fresh: true, ..Default::default() };
        let (o, h) = execute(&mut w, &program, Strategy::Dfs { prefix });
        println!("{}", json!({"h": h, "log": o.log.iter().map(|c| json!([c.enabled, c.from, c.took, c.free])).collect::<Vec<_>>()}));
        return;
    }
    let (mode, path, out) = (a[1].as_str(), &a[2], &a[3]);
    let n: Vec<u64> = a[4..].iter().map(|x| x.parse().expect("number")).collect();
    let (bound, limit, shard, shards) = (n[0], n[1], n[2] as usize, n[3] as usize);
    let ps = programs(path, shard, shards);
    let mut w = World::default();
    let mut seen: HashSet<String> = HashSet::new();
    let mut file = BufWriter::new(std::fs::File::create(out).expect("out"));
    let (mut execs, mut steps, mut cut, mut most, mut with_switch) = (0u64, 0u64, 0u64, 0u64, 0u64);
    let mut samples = vec![];
    let mut keep = |h: Value, seen: &mut HashSet<String>| { let t = h.to_string(); if !seen.contains(&t) { writeln!(file, "{t}").unwrap(); seen.insert(t); } };
    if mode != "fresh" {
        // First uses happen before the exploration, so that equal prefixes give equal executions.
        let warm = json!({"threads": [[{"o": "get", "n": "x"}, {"o": "name", "n": "x"}, {"o": "reg", "n": "x", "c": 1}, {"o": "getf", "n": "x"}, {"o": "abop"},
            {"o": "addp", "p": "A -> B"}, {"o": "der", "a": "A", "i": 1}]], "sys": 1});
        for t in 0..4 { let mut p = warm.clone(); p["variant"] = json!(t); execute(&mut w, &p, Strategy::Dfs { prefix: vec![] }); }
        for c in 1..60 { let _ = rusty_systems::symbols::get_code(&format!("T{c}")); }
    }
    let exe = std::env::current_exe().expect("exe");
    for (pi, p) in ps.iter().enumerate() {
        let mut mine = 0u64;
        if mode == "random" {
            for k in 0..bound {
                let sd = seed ^ (pi as u64 * 1_000_003 + shard as u64).wrapping_mul(0x9E37_79B9) ^ (k << 40);
                let (o, h) = execute(&mut w, p, Strategy::Random { seed: sd, num: 1 + k % 3, den: 4 });
                mine += 1; steps += o.steps;
                if o.log.iter().any(|c| !c.free && c.took != c.from) { with_switch += 1 }
                keep(h, &mut seen);
            }
        } else {
            // First all schedules without preemption, then with one, and so on: what a limit cuts
            // off are schedules with more of them.
            let mut before = 0u64;
            for b in 0..=bound as usize {
            let mut found = 0u64;
            let mut prefix: Option<Vec<u8>> = Some(vec![]);
            while let Some(pre) = prefix {
                if mine >= limit { cut += 1; break }
                let (log, h) = if mode == "fresh" {
                    let c = std::process::Command::new(&exe).args(["one", &p.to_string(), &json!(pre).to_string()]).output().expect("child");
                    let t = String::from_utf8_lossy(&c.stdout);
                    let v: Value = match serde_json::from_str(t.trim()) { Ok(v) => v, Err(_) => { eprintln!("child: {:?} {}", c.status, String::from_utf8_lossy(&c.stderr)); std::process::exit(2) } };
                    if v.get("stuck").is_some() { println!("{v}"); std::process::exit(98) }
                    let log: Vec<Choice> = v["log"].as_array().unwrap().iter().map(|c| Choice { enabled: c[0].as_u64().unwrap() as u32, from: c[1].as_u64().unwrap() as u8, took: c[2].as_u64().unwrap() as u8, free: c[3].as_bool().unwrap() }).collect();
                    (log, v["h"].clone())
                } else {
                    let mut q = p.clone();
                    // The same entry points in every schedule of a program; others in the next program.
                    q["variant"] = json!(pi * 7 + shard);
                    let (o, h) = execute(&mut w, &q, Strategy::Dfs { prefix: pre });
                    steps += o.steps;
                    (o.log, h)
                };
                mine += 1;
                found += 1;
                if log.iter().any(|c| !c.free && c.took != c.from) { with_switch += 1 }
                if samples.len() < 2 && mine == 7 { samples.push(json!({"program": p, "schedule": choices(&log), "history": h})) }
                keep(h, &mut seen);
                prefix = next_prefix(&log, b);
            }
            if mine >= limit || found == before { break }
            before = found;
            }
        }
        execs += mine;
        most = most.max(mine);
    }
    file.flush().unwrap();
    println!("{}", json!({"cases": execs, "nontrivial": with_switch, "mismatch_count": 0, "mismatches": [], "samples": samples,
        "extra": {"programs": ps.len(), "distinct_histories": seen.len(), "steps": steps, "programs_cut_short": cut, "most_schedules_of_a_program": most}}));
}
