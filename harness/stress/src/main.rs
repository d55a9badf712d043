//! Runs the client programs on the real library with free-running threads.
//!   stress PROGRAMS OUT ROUNDS
#[path = "../../common/clients.rs"]
mod clients;
#[path = "../../common/chance.rs"]
mod chance;
mod host {
    pub fn extreme(_: u32, _: bool) {}
    pub fn step() {}
    pub fn seed(_: u64) {}
}
use clients::*;
use serde_json::{json, Value};
use std::collections::HashSet;
use std::io::{BufRead, BufReader, BufWriter, Write};
use std::sync::{Arc, Barrier};
use std::time::Duration;

fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "chance-counts" { return chance::counts(&a[2..]) }
    if a[1] == "chance-pairs" { return chance::pairs(&a[2..]) }
    if a[1] == "outcomes" { return chance::outcomes(&a[2..]) }
    let ps: Vec<Value> = BufReader::new(std::fs::File::open(&a[1]).expect("programs")).lines().map(|l| serde_json::from_str(&l.unwrap()).expect("program")).collect();
    let rounds: u64 = a[3].parse().expect("rounds");
    let mut file = BufWriter::new(std::fs::File::create(&a[2]).expect("out"));
    let mut w = World::default();
    let mut seen: HashSet<String> = HashSet::new();
    let (mut execs, mut raced) = (0u64, 0u64);
    let mut samples = vec![];
    for k in 0..rounds {
        for p in &ps {
            let (bodies, r) = prepare(&mut w, p);
            let b = Arc::new(Barrier::new(bodies.len()));
            let (tx, rx) = std::sync::mpsc::channel();
            let n = bodies.len();
            for (i, f) in bodies.into_iter().enumerate() {
                let (b, tx) = (b.clone(), tx.clone());
                std::thread::spawn(move || { b.wait(); for _ in 0..(k as usize * 37 * (i + 1)) % 400 { std::hint::spin_loop() } f(); let _ = tx.send(()); });
            }
            for _ in 0..n {
                if rx.recv_timeout(Duration::from_secs(60)).is_err() {
                    println!("{}", json!({"stuck": {"program": p, "how": "free-running threads, no return within 60 s", "calls that do not return": r.pending()}}));
                    std::io::stdout().flush().ok();
                    std::process::exit(98);
                }
            }
            let h = r.history(&mut w, p, true);
            execs += 1;
            let ev = h["ev"].as_array().unwrap();
            if ev.windows(2).any(|x| x[0].as_i64() > Some(0) && x[1].as_i64() > Some(0)) { raced += 1 }
            let t = h.to_string();
            if seen.insert(t.clone()) { if samples.is_empty() { samples.push(h) } writeln!(file, "{t}").unwrap(); }
        }
    }
    file.flush().unwrap();
    println!("{}", json!({"cases": execs, "nontrivial": raced, "mismatch_count": 0, "mismatches": [], "samples": samples,
        "extra": {"programs": ps.len(), "distinct_histories": seen.len(), "overlapping": raced}}));
}
