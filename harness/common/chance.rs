//! C10: choices among the bodies of a production.
use crate::host;
use rusty_systems::prelude::*;
use rusty_systems::productions::{Production, ProductionBody, ProductionStore};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::io::{BufRead, BufReader, BufWriter, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn chance(v: i64, u: i64) -> Option<f32> { if v < 0 { None } else { Some((v as f64 / u as f64) as f32) } }
/// The text of a chance, as a person writes it.
fn spelled(v: i64, u: i64, k: usize) -> String {
    let t = format!("{}", v as f64 / u as f64);
    match k % 3 { 0 => t, 1 if t.starts_with("0.") => t[1..].to_string(), _ => if t.contains('.') { format!("{t}0") } else { format!("{t}.0") } }
}
/// The production `head` with bodies `tag1`, `tag2`, ..., made in one of several ways; also a system that has it.
fn build(head: &str, tag: &str, w: &[i64], u: i64, route: usize) -> Result<(Production, System), Error> {
    let body = |k: usize| -> Result<ProductionBody, Error> {
        let s = ProductionString::from(vec![Symbol::build(format!("{tag}{}", k + 1))?]);
        match chance(w[k], u) { None => Ok(ProductionBody::new(s)), Some(c) => ProductionBody::try_with_chance(c, s) }
    };
    let sys = System::new();
    let mut out: Option<Production> = None;
    match route % 4 {
        0 => {
            let mut p = Production::new(rusty_systems::productions::ProductionHead::build(None, Symbol::build(head)?, None)?, body(0)?);
            for k in 1..w.len() { p.add_body(body(k)?) }
            sys.add_production(p.clone())?;
            out = Some(p);
        }
        1 => for k in 0..w.len() {
            let t = if w[k] < 0 { format!("{head} -> {tag}{}", k + 1) } else { format!("{head} -> {} {tag}{}", spelled(w[k], u, k), k + 1) };
            out = Some(sys.add_production(t.as_str())?);
        },
        2 => {
            let store = RefCell::new(Vec::<Production>::new());
            for k in 0..w.len() {
                let t = if w[k] < 0 { format!("{head} -> {tag}{}", k + 1) } else { format!("{head} -> {} {tag}{}", spelled(w[k], u, k), k + 1) };
                store.add_production(t.as_str())?;
            }
            // A plain list keeps them apart.
            for q in store.borrow().iter().cloned() { match out.as_mut() { None => out = Some(q), Some(p) => p.merge(q) } }
            sys.add_production(out.clone().unwrap())?;
        }
        _ => {
            // Two halves merged.
            let mk = |a: usize, b: usize| -> Result<Production, Error> {
                let mut p = Production::new(rusty_systems::productions::ProductionHead::build(None, Symbol::build(head)?, None)?, body(a)?);
                for k in a + 1..b { p.add_body(body(k)?) }
                Ok(p)
            };
            let h = (w.len() + 1) / 2;
            let mut p = mk(0, h)?;
            sys.add_production(p.clone())?;
            if h < w.len() { let q = mk(h, w.len())?; sys.add_production(q.clone())?; p.merge(q) }
            out = Some(p);
        }
    }
    Ok((out.unwrap(), sys))
}
fn cases(path: &str) -> Vec<Value> {
    BufReader::new(std::fs::File::open(path).expect("cases")).lines().map(|l| l.unwrap()).filter(|l| l.starts_with("\"@@"))
        .map(|l| { let s: String = serde_json::from_str(&l).unwrap(); serde_json::from_str(&s[2..]).unwrap() }).collect()
}
fn ints(v: &Value) -> Vec<i64> { v.as_array().map(|a| a.iter().map(|x| x.as_i64().unwrap()).collect()).unwrap_or_default() }
fn which(s: &Symbol, codes: &[u32]) -> Option<usize> { codes.iter().position(|c| *c == s.code()) }
fn codes(tag: &str, n: usize) -> Vec<u32> { (1..=n).map(|k| Symbol::build(format!("{tag}{k}")).unwrap().code()).collect() }
fn quiet<R>(f: impl FnOnce() -> R) -> Result<R, String> { catch_unwind(AssertUnwindSafe(f)).map_err(|_| "panic".to_string()) }

/// CASES OUT N SHARD SHARDS: counts of N choices for every list; extreme draws for the exact ones.
pub fn counts(a: &[String]) {
    let n: u64 = a[2].parse().unwrap();
    let (shard, shards): (usize, usize) = (a[3].parse().unwrap(), a[4].parse().unwrap());
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut out = BufWriter::new(std::fs::File::create(&a[1]).expect("out"));
    let (mut done, mut several) = (0u64, 0u64);
    let mut bad: Vec<Value> = vec![];
    let mut samples = vec![];
    let mut extremes = 0u64;
    for (i, c) in cases(&a[0]).into_iter().enumerate().filter(|(i, _)| i % shards == shard) {
        let (w, u) = (ints(&c["w"]), c["u"].as_i64().unwrap());
        host::seed(seed.wrapping_mul(1_000_003).wrapping_add(i as u64));
        let (head, tag) = ("H", "b");
        let route = i / shards;
        let (p, sys) = match quiet(|| build(head, tag, &w, u, route)) { Ok(Ok(x)) => x, Ok(Err(e)) => { bad.push(json!({"case": {"chances": w, "of": u, "route": route % 4}, "expected": "a production", "got": e.to_string()})); continue } Err(e) => { bad.push(json!({"case": w, "expected": "a production", "got": e})); continue } };
        let cs = codes(tag, w.len());
        let axiom = ProductionString::from(vec![Symbol::build(head).unwrap()]);
        let mut counts = vec![0u64; w.len()];
        let mut errors = 0u64;
        let mut choose = |k: u64| -> Option<usize> {
            if k % 8 == 7 { sys.derive_once(axiom.clone()).ok().and_then(|s| s.symbols().first().copied()).and_then(|s| which(&s, &cs)) }
            else { p.body().ok().and_then(|b| b.string().symbols().first().copied()).and_then(|s| which(&s, &cs)) }
        };
        let r = quiet(|| for k in 0..n { match choose(k) { Some(b) => counts[b] += 1, None => errors += 1 } });
        if r.is_err() { errors = u32::MAX as u64 / 4 }
        let dyadic = [1, 2, 4, 8, 16, 32, 64].contains(&u);
        if dyadic && c["err"] == json!(false) {
            let zero = ints(&c["zero"]);
            for k in 0..12u64 {
                host::extreme(1 + (k % 3) as u32, k % 2 == 0);
                extremes += 1;
                let got = quiet(|| choose(if k < 6 { 0 } else { 7 }));
                host::extreme(0, false);
                let fine = matches!(got, Ok(Some(b)) if !zero.contains(&(b as i64 + 1)));
                if !fine { bad.push(json!({"case": {"chances": w, "of": u, "draw": if k % 2 == 0 { "the greatest" } else { "the smallest" }}, "expected": {"never the bodies": zero}, "got": format!("body {:?}", got.map(|b| b.map(|b| b + 1)))})) }
            }
        }
        done += 1;
        if w.len() > 1 { several += 1 }
        let rec = json!({"o": "counts", "w": w, "u": u, "route": route % 4, "n": n, "errors": errors, "counts": counts});
        if samples.len() < 2 && w.len() == 3 { samples.push(rec.clone()) }
        writeln!(out, "{rec}").unwrap();
    }
    report(done, several, bad, samples, json!({"choices": done * n, "extreme_draws": extremes}));
}
fn report(cases: u64, nontrivial: u64, bad: Vec<Value>, samples: Vec<Value>, extra: Value) {
    println!("{}", json!({"cases": cases, "nontrivial": nontrivial, "mismatch_count": bad.len(), "mismatches": bad.iter().take(10).collect::<Vec<_>>(), "samples": samples, "extra": extra}));
}

/// CASES OUT N SHARD SHARDS: pairs of choices in one string, in one derivation, in repeated ones.
pub fn pairs(a: &[String]) {
    let n: usize = a[2].parse().unwrap();
    let (shard, shards): (usize, usize) = (a[3].parse().unwrap(), a[4].parse().unwrap());
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut out = BufWriter::new(std::fs::File::create(&a[1]).expect("out"));
    let mut done = 0u64;
    let mut bad = vec![];
    let mut samples = vec![];
    let all: Vec<Value> = cases(&a[0]).into_iter().filter(|c| c["err"] == json!(false) && c["w"].as_array().map(|w| w.len() >= 2).unwrap_or(false)).collect();
    for (i, c) in all.iter().enumerate().filter(|(i, _)| i % shards == shard) {
        host::seed(seed.wrapping_mul(7_000_003).wrapping_add(i as u64));
        let (w, u) = (ints(&c["w"]), c["u"].as_i64().unwrap());
        let o = &all[(i * 7 + 3) % all.len()];
        let w2 = if o["u"] == c["u"] { ints(&o["w"]) } else { w.clone() };
        let route = i / shards;
        let built = quiet(|| -> Result<_, Error> {
            let (p, sys) = build("H", "b", &w, u, route)?;
            let (q, _) = build("K", "d", &w2, u, route + 1)?;
            let _ = p;
            sys.add_production(q)?;
            Ok(sys)
        });
        let sys = match built { Ok(Ok(s)) => s, e => { bad.push(json!({"case": {"chances": [w, w2], "of": u}, "expected": "a system", "got": format!("{:?}", e.map(|r| r.err().map(|e| e.to_string())))})); continue } };
        let (cb, cd) = (codes("b", w.len()), codes("d", w2.len()));
        let h = Symbol::build("H").unwrap();
        let k = Symbol::build("K").unwrap();
        let mut put = |what: &str, w1: &[i64], w2: &[i64], ps: Vec<(Option<usize>, Option<usize>)>| {
            let mut m = vec![vec![0u64; w2.len()]; w1.len()];
            let mut errors = 0u64;
            for (x, y) in &ps { match (x, y) { (Some(x), Some(y)) => m[*x][*y] += 1, _ => errors += 1 } }
            let rec = json!({"o": "pairs", "what": what, "w": w1, "w2": w2, "u": u, "n": ps.len(), "errors": errors, "counts": m});
            if samples.len() < 2 { samples.push(rec.clone()) }
            writeln!(out, "{rec}").unwrap();
            done += 1;
        };
        let derive = |s: Vec<Symbol>| -> Vec<Symbol> { quiet(|| sys.derive_once(ProductionString::from(s)).map(|s| s.symbols().to_vec())).ok().and_then(|r| r.ok()).unwrap_or_default() };
        // Neighbours in one string; occurrences two apart; the two heads side by side.
        let one = derive(vec![h; 2 * n]);
        if one.len() == 2 * n {
            put("neighbours", &w, &w, one.chunks(2).map(|x| (which(&x[0], &cb), which(&x[1], &cb))).collect());
            put("two apart", &w, &w, one.chunks(4).filter(|x| x.len() == 4).flat_map(|x| [(which(&x[0], &cb), which(&x[2], &cb)), (which(&x[1], &cb), which(&x[3], &cb))]).collect());
        } else { put("neighbours", &w, &w, vec![(None, None); n]) }
        let two = derive((0..2 * n).map(|i| if i % 2 == 0 { h } else { k }).collect());
        if two.len() == 2 * n { put("two productions", &w, &w2, two.chunks(2).map(|x| (which(&x[0], &cb), which(&x[1], &cd))).collect()) } else { put("two productions", &w, &w2, vec![(None, None); n]) }
        // The same place in two derivations.
        let again = derive(vec![h; 2 * n]);
        if again.len() == one.len() && one.len() == 2 * n { put("repeated derivation", &w, &w, one.iter().zip(&again).step_by(2).map(|(x, y)| (which(x, &cb), which(y, &cb))).collect()) }
        // The same place in derivations of two threads.
        let in_thread = |t: u64| -> Vec<Symbol> {
            let derive = &derive;
            std::thread::scope(|scope| scope.spawn(move || { host::seed(seed.wrapping_mul(11_000_027).wrapping_add(2 * i as u64 + t)); derive(vec![h; n]) }).join().unwrap_or_default())
        };
        let (one, two) = (in_thread(0), in_thread(1));
        if one.len() == n && two.len() == n { put("two threads", &w, &w, one.iter().zip(&two).map(|(x, y)| (which(x, &cb), which(y, &cb))).collect()) } else { put("two threads", &w, &w, vec![(None, None); n]) }
        // Many short strings: the first choice of each derivation.
        let firsts: Vec<Option<usize>> = (0..2 * n.min(20_000)).map(|_| derive(vec![h]).first().and_then(|s| which(s, &cb))).collect();
        put("one derivation after the other", &w, &w, firsts.chunks(2).map(|x| (x[0], x[1])).collect());
    }
    report(done, done, bad, samples, json!({"pairs_of_choices": done * n as u64}));
}

/// CASES OUT N SHARD SHARDS: how often each outcome came of N derivations.
pub fn outcomes(a: &[String]) {
    use rusty_systems::productions::ProductionHead;
    use std::collections::{BTreeMap, HashMap};
    const NAMES: [[&str; 4]; 3] = [["A", "B", "C", "D"], ["+", "Forward", "é", "a-symbol-with-a-rather-long-name"], ["aa", "a", "aaa", "0.5x"]];
    let n: u64 = a[2].parse().unwrap();
    let (shard, shards): (usize, usize) = (a[3].parse().unwrap(), a[4].parse().unwrap());
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut out = BufWriter::new(std::fs::File::create(&a[1]).expect("out"));
    let (mut done, mut several) = (0u64, 0u64);
    let mut bad: Vec<Value> = vec![];
    let mut samples = vec![];
    for (i, c) in cases(&a[0]).into_iter().enumerate().filter(|(i, _)| i % shards == shard) {
        host::seed(seed.wrapping_mul(3_000_017).wrapping_add(i as u64));
        let names = &NAMES[(i / shards) % NAMES.len()];
        let index = |v: &Value| ["A", "B", "C", "D"].iter().position(|x| json!(x) == *v).expect("symbol");
        let syms: Vec<Symbol> = names.iter().map(|n| Symbol::build(n).expect("symbol")).collect();
        let back: HashMap<Symbol, &str> = syms.iter().copied().zip(["A", "B", "C", "D"]).collect();
        let string = |v: &Value| ProductionString::from(v.as_array().unwrap().iter().map(|x| syms[index(x)]).collect::<Vec<_>>());
        let u = c["u"].as_i64().unwrap();
        let route = i % 3;
        let build = || -> Result<(Vec<Production>, System), Error> {
            let sys = System::new();
            let mut list = vec![];
            for p in c["ps"].as_array().unwrap() {
                let ctx = |v: &Value| v.as_array().unwrap().first().map(&string);
                let head = || ProductionHead::build(ctx(&p["l"]), syms[index(&p["t"])], ctx(&p["r"]));
                let w = ints(&p["w"]);
                let bs: Vec<ProductionBody> = p["bs"].as_array().unwrap().iter().zip(&w).map(|(b, w)| match chance(*w, u) { None => Ok(ProductionBody::new(string(b))), Some(x) => ProductionBody::try_with_chance(x, string(b)) }).collect::<Result<_, _>>()?;
                let mut whole = Production::new(head()?, bs[0].clone());
                for b in &bs[1..] { whole.add_body(b.clone()) }
                let plain = p["l"] == json!([]) && p["r"] == json!([]);
                match route {
                    0 => { sys.add_production(whole.clone())?; }
                    1 => for b in &bs { sys.add_production(Production::new(head()?, b.clone()))?; }
                    _ => for (k, b) in bs.iter().enumerate() {
                        // A body starts with a chance or with a symbol that is no number.
                        if plain { sys.add_production(format!("{} -> {} {}", names[index(&p["t"])], if w[k] < 0 { String::new() } else { spelled(w[k], u, k) }, b.string()).as_str())?; }
                        else { sys.add_production(Production::new(head()?, b.clone()))?; }
                    },
                }
                list.push(whole);
            }
            Ok((list, sys))
        };
        let (list, sys) = match quiet(build) { Ok(Ok(x)) => x, e => { bad.push(json!({"case": c, "expected": "a system", "got": format!("{:?}", e.map(|r| r.err().map(|e| e.to_string())))})); continue } };
        for (j, run) in c["runs"].as_array().unwrap().iter().enumerate() {
            let s = string(&run[0]);
            let it = run[1].as_u64().unwrap() as usize;
            let mut counts: BTreeMap<String, u64> = BTreeMap::new();
            let how = (i / 3 + j) % 3;
            let r = quiet(|| for _ in 0..n {
                let got = match how {
                    0 => sys.derive(s.clone(), RunSettings::for_max_iterations(it)),
                    1 => rusty_systems::system::derive(s.clone(), &list, it.into()),
                    _ => (0..it).try_fold(s.clone(), |s, k| if k % 2 == 0 { sys.derive_once(s) } else { rusty_systems::system::derive_once(s, &list) }),
                };
                let o = match got { Ok(s) => json!([s.iter().map(|x| back.get(x).copied().unwrap_or("?")).collect::<Vec<_>>()]), Err(_) => json!([]) };
                *counts.entry(o.to_string()).or_default() += 1;
            });
            if r.is_err() { counts.clear(); counts.insert("[[\"panic\"]]".into(), n); }
            done += 1;
            if counts.len() > 1 { several += 1 }
            let counts: Vec<Value> = counts.into_iter().map(|(o, k)| json!([serde_json::from_str::<Value>(&o).unwrap(), k])).collect();
            let call = ["System::derive", "system::derive", "derive_once, repeated"][how];
            let rec = json!({"ps": c["ps"], "u": u, "s": run[0], "n": it, "m": n, "counts": counts, "call": call, "route": route});
            if samples.len() < 2 && several % 300 == 17 { samples.push(rec.clone()) }
            writeln!(out, "{rec}").unwrap();
        }
    }
    report(done, several, bad, samples, json!({"derivations": done * n}));
}
