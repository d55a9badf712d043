//! C16 (families and their systems), and the sequential side of C15 and C24 (the registry).
use crate::util::*;
use rusty_systems::interpretation::abop::{abop_family, AbopTurtleInterpretation};
use rusty_systems::interpretation::svg::SvgPathInterpretation;
use rusty_systems::interpretation::Interpretation;
use rusty_systems::prelude::*;
use rusty_systems::symbols::SymbolStore;
use rusty_systems::system::family::{self, get_family, get_or_init_family, Builder};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;

const NAMES: &[[&str; 4]] = &[["A", "B", "C", "D"], ["Forward", "+", "]", "X"], ["a", "aa", "ab", "b"], ["é", "漢字", "🌱", "ß"]];

fn desc(s: &str) -> Option<&str> { if s.is_empty() { None } else { Some(s) } }
fn builder(case: &Value, names: &HashMap<String, String>) -> Builder {
    let mut b = SystemFamily::define();
    for d in case["defs"].as_array().unwrap() {
        let (n, ds) = (names[d["n"].as_str().unwrap()].as_str(), desc(d["d"].as_str().unwrap()));
        b = if d["k"] == json!("terminal") { b.with_terminal(n, ds) } else { b.with_production(n, ds) };
    }
    b
}
fn sorted(mut v: Vec<Value>) -> Value { v.sort_by_key(|x| x.to_string()); Value::Array(v) }
fn system_alphabet(s: &System, others: &[&str]) -> Value {
    let found: Vec<&&str> = others.iter().filter(|n| s.get_symbol(n).is_some()).collect();
    json!({"count": s.symbol_len(), "found": found, "productions": s.production_len()})
}

pub fn replay(path: &str) {
    let mut r = Report::default();
    let probes = ["A", "B", "C", "D", "Forward", "+", "]", "X", "a", "aa", "ab", "b", "é", "漢字", "🌱", "ß", "[", "-", "Move"];
    for (ci, case) in tlc_cases(path).enumerate() {
        let words = vocabulary(ci, 4);
        let set = if ci % 3 == 2 { [&words[0][..], &words[1], &words[2], &words[3]] } else { NAMES[ci % NAMES.len()] };
        let probes: Vec<&str> = probes.iter().copied().chain(set.iter().copied().filter(|w| !probes.contains(w))).collect();
        let names: HashMap<String, String> = ["A", "B", "C", "D"].iter().zip(set).map(|(a, b)| (a.to_string(), b.to_string())).collect();
        let back = |n: &str| names.iter().find(|(_, v)| *v == n).map(|(k, _)| k.clone()).unwrap_or(format!("?{n}"));
        running(&format!("family {}", case["defs"]));
        r.cases += 1;
        if case["defs"].as_array().unwrap().len() > 2 { r.nontrivial += 1 }
        let fname = format!("family-{ci}");
        let d = |s: &str| json!({"call": s, "definitions": case["defs"], "names": set});
        let want_alpha: Vec<String> = { let mut v: Vec<String> = strs(&case["alphabet"]).iter().map(|n| names[n].clone()).collect(); v.sort(); v };
        let want_sys = |extra: &[&str]| { let mut f: Vec<&str> = probes.iter().copied().filter(|p| want_alpha.iter().any(|a| a == p) || extra.contains(p)).collect(); f.dedup(); json!({"count": want_alpha.len(), "found": f, "productions": 0}) };
        // blank names
        for blank in ["", " ", "\t\n", "\u{2003}"] {
            let got = guard(|| if ci % 2 == 0 { builder(&case, &names).build(blank).map(|_| ()) } else { builder(&case, &names).register(blank).map(|_| ()) });
            r.check(|| d("build with a blank name"), json!("error"), match got { Ok(Err(_)) => json!("error"), Ok(Ok(_)) => json!("ok"), Err(p) => json!(p) });
        }
        let fam = match guard(|| builder(&case, &names).build(fname.as_str())) {
            Ok(Ok(f)) => f,
            Ok(Err(e)) => { r.mismatch(d("build"), json!("a family"), json!(e.to_string())); continue }
            Err(e) => { r.mismatch(d("build"), json!("a family"), json!(e)); continue }
        };
        let list = |it: &mut dyn Iterator<Item = &rusty_systems::system::family::SymbolDescription>| sorted(it.map(|s| json!({"n": back(&s.name), "d": s.description.clone().unwrap_or_default()})).collect());
        r.check(|| d("name"), json!(fname), json!(fam.name()));
        r.check(|| d("terminals"), sorted(case["terms"].as_array().unwrap().clone()), list(&mut fam.terminals()));
        r.check(|| d("productions"), sorted(case["prods"].as_array().unwrap().clone()), list(&mut fam.productions()));
        let both: Vec<Value> = case["terms"].as_array().unwrap().iter().chain(case["prods"].as_array().unwrap()).cloned().collect();
        r.check(|| d("symbols"), sorted(both), list(&mut fam.symbols()));
        let got = |f: Result<Result<System, Error>, String>| match f { Ok(Ok(s)) => system_alphabet(&s, &probes), Ok(Err(e)) => json!(format!("error: {e}")), Err(p) => json!(p) };
        r.check(|| d("System::of_family(family)"), want_sys(&[]), got(guard(|| System::of_family(fam.clone()))));
        r.check(|| d("System::of_family(Arc)"), want_sys(&[]), got(guard(|| System::of_family(Arc::new(fam.clone())))));
        // by name: an error until it is registered
        let unreg = guard(|| if ci % 2 == 0 { System::of_family(fname.as_str()).is_err() } else { System::of_family(fname.clone()).is_err() });
        r.check(|| d("System::of_family(unregistered name)"), json!("Ok(true)"), json!(format!("{unreg:?}")));
        if ci % 8 == 1 {
            let _ = guard(|| if ci % 16 == 1 { family::register(fam.clone()).is_ok() } else { builder(&case, &names).register(&fname).is_ok() });
            r.check(|| d("System::of_family(registered name)"), want_sys(&[]), got(guard(|| System::of_family(fname.as_str()))));
            r.check(|| d("System::of_family(registered name, as a String)"), want_sys(&[]), got(guard(|| System::of_family(fname.clone()))));
        }
        if ci % 5003 == 9 { r.sample(case.clone()) }
    }
    // The turtle's family and system.
    let want_t = json!(["+", "-", "[", "]"]);
    let want_p = json!(["Forward", "Move", "X"]);
    let f = abop_family();
    let n = |it: &mut dyn Iterator<Item = &rusty_systems::system::family::SymbolDescription>| sorted(it.map(|s| json!(s.name)).collect());
    r.check(|| json!("terminals of the turtle's family"), want_t, n(&mut f.terminals()));
    r.check(|| json!("productions of the turtle's family"), want_p, n(&mut f.productions()));
    let all = ["[", "]", "+", "-", "Forward", "Move", "X", "A", "F", "Branch"];
    let want = json!({"count": 7, "found": ["[", "]", "+", "-", "Forward", "Move", "X"], "productions": 0});
    for i in 0..3 {
        let got = guard(|| if i == 1 { SvgPathInterpretation::<AbopTurtleInterpretation>::system() } else { AbopTurtleInterpretation::system() });
        let got = match got { Ok(Ok(s)) => { let a = system_alphabet(&s, &all); let _ = s.add_symbol("Branch"); let _ = s.add_production("A -> F"); a } Ok(Err(e)) => json!(e.to_string()), Err(p) => json!(p) };
        r.check(|| json!({"call": "AbopTurtleInterpretation::system", "time": i}), want.clone(), got);
    }
    r.finish();
}

/// What the turtle's family says about its symbols.
pub fn descriptions() {
    let f = abop_family();
    let list = |it: &mut dyn Iterator<Item = &rusty_systems::system::family::SymbolDescription>| -> Vec<Value> {
        it.map(|s| json!([s.name, s.description.clone().unwrap_or_default()])).collect()
    };
    println!("{}", json!({"terminals": list(&mut f.terminals()), "productions": list(&mut f.productions())}));
}

/// Families of up to hundreds of definitions, and systems of them.
pub fn record(path: &str, n: usize) {
    let mut out = Out::new(path);
    let mut r = Report::default();
    let mut rng = Rng::from_env(35);
    for ci in 0..n {
        let large = ci % 50 == 7;
        let size = if large { 600 } else { 1 + rng.below(12) };
        let universe: Vec<String> = (0..size).map(|k| match (ci + k) % 5 { 0 => format!("N{k}"), 1 => format!("n{k}"), 2 => format!("é{k}漢"), 3 => format!("{k}"), _ => format!("a name of more than sixteen bytes, number {k}") }).collect();
        let len = if large { 800 } else { rng.below(20) };
        let defs: Vec<Value> = (0..len).map(|k| json!({"k": if large && ci % 150 == 7 || rng.chance(1, 2) && !(large && ci % 150 == 57) { "terminal" } else { "production" }, "n": rng.pick(&universe),
            "d": match rng.below(4) { 0 => String::new(), 1 => "the same".into(), 2 => format!(" what {k} is "), _ => "long ".repeat(60) }})).collect();
        let fname = format!("recorded family {ci}");
        running(&format!("family of {}", json!(defs)));
        let got = guard(|| {
            let mut b = SystemFamily::define();
            for d in &defs {
                let (t, ds) = (d["n"].as_str().unwrap(), desc(d["d"].as_str().unwrap()));
                b = if d["k"] == json!("terminal") { b.with_terminal(t, ds) } else { b.with_production(t, ds) };
            }
            let fam = b.build(fname.as_str()).unwrap();
            let list = |it: &mut dyn Iterator<Item = &rusty_systems::system::family::SymbolDescription>| it.map(|s| json!({"n": s.name, "d": s.description.clone().unwrap_or_default()})).collect::<Vec<Value>>();
            let look = |s: &System| json!({"count": s.symbol_len(), "found": universe.iter().filter(|n| s.get_symbol(n).is_some()).collect::<Vec<_>>(), "productions": s.production_len()});
            let mut systems = vec![];
            for k in 0..3 {
                let s = match (k + ci) % 3 { 0 => System::of_family(fam.clone()).unwrap(), 1 => System::of_family(Arc::new(fam.clone())).unwrap(),
                    _ => { if family::get_family(&fname).is_none() { family::register(fam.clone()).unwrap(); } System::of_family(fname.as_str()).unwrap() } };
                systems.push(look(&s));
                // what is given to this system is none of the family's business
                s.add_symbol("given later").unwrap();
                s.add_production(format!("{} -> given later too", universe[0].split(' ').next().unwrap()).as_str()).unwrap();
            }
            json!({"terms": list(&mut fam.terminals()), "prods": list(&mut fam.productions()), "both": list(&mut fam.symbols()), "systems": systems})
        });
        r.cases += 1;
        if len > 5 { r.nontrivial += 1 }
        let mut ev = match got { Ok(v) => v, Err(p) => { r.mismatch(json!({"family of": defs}), json!("a family"), json!(p)); continue } };
        if ci % 97 == 3 { r.sample(json!({"definitions": defs})) }
        ev["defs"] = json!(defs);
        out.put(ev);
    }
    r.finish();
}

fn content(c: i64, empty: bool) -> Builder {
    // (in every other history, the first content is that of a family without symbols)
    if c == 1 && empty { return SystemFamily::define() }
    let mut b = SystemFamily::define().with_terminal(format!("T{c}"), None);
    for i in 0..c { b = b.with_production(format!("P{c}-{i}"), Some(format!("d{i}"))) }
    b
}
fn content_of(f: &SystemFamily) -> i64 { if f.symbols().next().is_none() { return 1 } f.terminals().next().and_then(|t| t.name[1..].parse().ok()).unwrap_or(-1) }

/// Histories of the registry. what: "once" (C15) or "failures" (C24).
pub fn registry(path: &str, what: &str) {
    let mut r = Report::default();
    for (ci, case) in tlc_cases(path).enumerate() {
        let h = case["h"].as_array().unwrap();
        let real = |n: &str| if n == "blank" { ["", "  ", "\n", " \u{a0}"][ci % 4].to_string() } else { format!("reg {n} {ci}") };
        let mut first: BTreeMap<String, Arc<SystemFamily>> = BTreeMap::new();
        running(&json!(h).to_string());
        let look = |first: &BTreeMap<String, Arc<SystemFamily>>| {
            let mut m = BTreeMap::new();
            for n in ["x", "y", "blank"] {
                let v = guard(|| (family::family_exists(real(n)), get_family(real(n)), System::of_family(real(n)).map(|s| s.symbol_len())));
                m.insert(n, match v {
                    Err(p) => json!(p),
                    Ok((ex, None, of)) => json!({"exists": ex, "family": 0, "system": of.is_ok()}),
                    Ok((ex, Some(f), of)) => json!({"exists": ex, "family": content_of(&f), "system": of.ok() == Some(f.symbols().map(|s| &s.name).collect::<HashSet<_>>().len()),
                        "same": first.get(n).map(|a| Arc::ptr_eq(a, &f))}),
                });
            }
            json!(m)
        };
        let mut ok = true;
        for (k, e) in h.iter().enumerate() {
            let n = e["n"].as_str().unwrap();
            let c = int(&e["c"]);
            let before = look(&first);
            let mut arc: Option<Arc<SystemFamily>> = None;
            let mut got_c = None;
            let got = guard(|| match e["o"].as_str().unwrap() {
                "register" => {
                    let res = if e["via"] == json!("builder") { content(c, ci % 2 == 1).register(real(n)) } else { content(c, ci % 2 == 1).build(real(n)).and_then(family::register) };
                    match res { Ok(a) => { arc = Some(a); "ok" } Err(_) => "error" }
                }
                "get" => match get_family(real(n)) { Some(a) => { arc = Some(a); "found" } None => "none" },
                "exists" => if family::family_exists(real(n)) { "yes" } else { "no" },
                "init" => {
                    let mut ran = false;
                    let a = get_or_init_family(real(n), || { ran = true; content(c, ci % 2 == 1).build(real(n)).unwrap() });
                    arc = Some(a);
                    if ran { "ran" } else { "not run" }
                }
                "initpanic" => {
                    let mut ran = false;
                    match catch_unwind(AssertUnwindSafe(|| get_or_init_family(real(n), || { ran = true; std::panic::resume_unwind(Box::new("the initialiser")) }))) {
                        Ok(a) => { arc = Some(a); if ran { "returned" } else { "not run" } }
                        Err(_) => if ran { "error" } else { "panicked" },
                    }
                }
                _ => match System::of_family(real(n)) { Ok(s) => { got_c = Some(if s.symbol_len() == 0 { 1 } else { (1..9).find(|c| s.get_symbol(&format!("T{c}")).is_some()).unwrap_or(-1) }); "ok" } Err(_) => "error" },
            }.to_string()).unwrap_or_else(|p| p);
            // (in every third history nobody keeps the families)
            if let Some(a) = arc.as_ref().filter(|_| ci % 3 != 2) { first.entry(n.to_string()).or_insert_with(|| a.clone()); }
            let d = || json!({"call": e, "after": &h[..k]});
            if what == "once" {
                ok &= r.check(d, e["res"].clone(), json!(got));
                if let Some(a) = &arc {
                    let want = if !e["got"].is_null() { int(&e["got"]) } else { c };
                    ok &= r.check(d, json!({"content": want, "the registered one": true}), json!({"content": content_of(a), "the registered one": first.get(n).is_none_or(|f| Arc::ptr_eq(a, f))}));
                }
                if let Some(g) = got_c { ok &= r.check(d, json!(c), json!(g)); }
            } else if got == "error" {
                ok &= r.check(|| json!({"after the failing call": e, "history": &h[..k]}), before, look(&first));
            }
            if !ok { break }
        }
        r.cases += 1;
        if h.len() > 2 { r.nontrivial += 1 }
        if ok && what == "once" {
            let after = look(&first);
            for x in case["reg"].as_array().unwrap() {
                let n = x["n"].as_str().unwrap();
                r.check(|| json!({"content of": n, "after": h}), x["c"].clone(), after[n]["family"].clone());
                r.check(|| json!({"exists": n, "after": h}), json!(x["c"] != json!(0)), after[n]["exists"].clone());
                r.check(|| json!({"of_family": n, "after": h}), json!(x["c"] != json!(0)), after[n]["system"].clone());
                r.check(|| json!({"the same family every time": n, "after": h}), json!(false), json!(after[n]["same"] == json!(false)));
            }
        }
        if ci % 4001 == 11 { r.sample(case.clone()) }
    }
    r.finish();
}

/// Long histories of the registry with hundreds of names, odd ones too.
pub fn registry_record(path: &str, runs: usize, len: usize) {
    let mut out = Out::new(path);
    let mut r = Report::default();
    let mut rng = Rng::from_env(151);
    for run in 0..runs {
        let count = [8usize, 60, 1200][run % 3];
        let x = "x".repeat(if run % 2 == 0 { 300 } else { 70_000 });
        let mut seen = HashSet::new();
        let names: Vec<String> = (0..count).map(|k| { let b = k / 12; match k % 12 { 0 => format!("r{run} {b}"), 1 => format!("R{run} {b}"), 2 => format!("r{run}  {b}"), 3 => format!("r{run}\u{a0}{b}"), 4 => format!("r{run}é{b}"),
            5 => format!("r{run}e\u{301}{b}"), 6 => format!("{run}漢{b}"), 7 => format!("r{run} {b}\0"), 8 => format!("\u{feff}r{run} {b}"), 9 => if b < 3 { format!("{x}{run} {b}") } else { format!("{run}/{b}") },
            10 => if b < 3 { format!("{run} {b}{x}") } else { format!("{run}-{b}") }, _ => if b == 0 && run == 0 { "0".into() } else { format!("<{run}:{b}>") } } })
            .filter(|n| seen.insert(n.clone())).collect();
        let mut first: HashMap<usize, Arc<SystemFamily>> = HashMap::new();
        let mut tried: HashMap<usize, Vec<i64>> = HashMap::new();
        let make = |c: i64| { if c % 11 == 4 { return SystemFamily::define() } let mut b = SystemFamily::define().with_terminal(format!("T{run}-{c}"), None); for i in 0..c % 3 { b = b.with_production(format!("P{i}"), Some(format!("d{i}"))) } b };
        // (a family without symbols: the first such that was offered under the name)
        let content = |f: &SystemFamily, offered: &[i64]| -> i64 { if f.symbols().next().is_none() { return offered.iter().copied().find(|c| c % 11 == 4).unwrap_or(-1) } f.terminals().next().and_then(|t| t.name.strip_prefix(&format!("T{run}-")).and_then(|n| n.parse().ok())).filter(|c: &i64| f.productions().count() as i64 == c % 3).unwrap_or(-1) };
        let mut ops = vec![];
        for k in 1..=len as i64 {
            let n = rng.below(names.len());
            let name = &names[n];
            let how = rng.below(3);
            running(&format!("call {k} on the family {:?}", name.chars().take(100).collect::<String>()));
            // (a third of the families is not kept by anybody)
            let mut same = |f: Arc<SystemFamily>, tried: &HashMap<usize, Vec<i64>>| -> i64 { let c = content(&f, tried.get(&n).map(|v| v.as_slice()).unwrap_or_default()); if f.name() == name && ((n + run) % 3 == 0 || Arc::ptr_eq(first.entry(n).or_insert_with(|| f.clone()), &f)) { c } else { -1 } };
            let op = match rng.below(if count > 1000 { 6 } else { 10 }) {
                0 | 1 => {
                    tried.entry(n).or_default().push(k);
                    let got = guard(|| match how { 0 => make(k).register(name), 1 => make(k).register(name.clone()), _ => make(k).build(name).and_then(family::register) });
                    json!({"o": "reg", "c": k, "r": match got { Ok(Ok(f)) => same(f, &tried), Ok(Err(_)) => 0, Err(_) => -2 }})
                }
                2 if rng.chance(1, 5) => {
                    let mut ran = false;
                    let got = catch_unwind(AssertUnwindSafe(|| get_or_init_family(name, || { ran = true; std::panic::resume_unwind(Box::new("the initialiser")) })));
                    json!({"o": "initpanic", "ran": ran, "r": match got { Ok(f) => same(f, &tried), Err(_) => 0 }})
                }
                2 => {
                    tried.entry(n).or_default().push(k);
                    let mut ran = false;
                    let got = guard(|| get_or_init_family(name, || { ran = true; make(k).build(name).unwrap() }));
                    json!({"o": "init", "c": k, "ran": ran, "r": match got { Ok(f) => same(f, &tried), Err(_) => -2 }})
                }
                3 => {
                    let got = guard(|| System::of_family(name.as_str()).map(|s| tried.get(&n).into_iter().flatten().copied().find(|c| if c % 11 == 4 { s.symbol_len() == 0 } else { s.get_symbol(&format!("T{run}-{c}")).is_some() && s.symbol_len() as i64 == 1 + c % 3 }).unwrap_or(-1)));
                    json!({"o": "of", "r": match got { Ok(Ok(c)) => c, Ok(Err(_)) => 0, Err(_) => -2 }})
                }
                4 => json!({"o": "has", "r": guard(|| family::family_exists(name)).map(|b| b as i64).unwrap_or(-2)}),
                _ => json!({"o": "getf", "r": match guard(|| get_family(name)) { Ok(Some(f)) => same(f, &tried), Ok(None) => 0, Err(_) => -2 }}),
            };
            let mut op = op;
            op["n"] = json!(n + 1);
            ops.push(op);
        }
        let ev: Vec<i64> = (1..=ops.len() as i64).flat_map(|k| [k, -k]).collect();
        r.cases += 1;
        r.nontrivial += 1;
        if run == 0 { r.sample(json!({"first calls": &ops[..12.min(ops.len())]})) }
        out.put(json!({"ops": ops, "ev": ev}));
    }
    r.finish();
}
