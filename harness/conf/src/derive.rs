//! C07 (matching), C08 (one step), C09 (iterations): src/productions.rs, src/system.rs.
use crate::util::*;
use rusty_systems::interpretation::abop::AbopTurtleInterpretation;
use rusty_systems::interpretation::svg::SvgPathInterpretation;
use rusty_systems::interpretation::NullInterpretation;
use rusty_systems::prelude::*;
use rusty_systems::productions::{Production, ProductionBody, ProductionHead};
use rusty_systems::system::{self as sys, find_matching};
use serde_json::{json, Value};
use std::collections::HashMap;

/// Names of the specification's symbols. Several sets, so that nothing depends on one.
const NAMES: &[[&str; 6]] = &[["A", "B", "C", "D", "E", "F"], ["Forward", "+", "-", "[", "B", "."], ["a", "aa", "aaa", "a1", "b", "1a"],
    ["é", "漢", "e\u{301}", "🌱", "é1", "ß"], ["]", "Move", "X", "#", "=", ":"], ["F<", ">F", "(", "0x", "--", "<<"], LONG, ["[", "]", "F", "f", "+", "-"]];
/// Names of sixteen bytes and many more, equal up to their last characters (or after their first).
const LONG: [&str; 6] = ["a-long-name-of-1", "a-long-name-of-2", concat!("0123456789012345678901234567890123456789012345678901234567890123", "456789012345678901234567890123456789012345678901234567890123456789é"),
    concat!("0123456789012345678901234567890123456789012345678901234567890123", "456789012345678901234567890123456789012345678901234567890123456789è"),
    concat!("1123456789012345678901234567890123456789012345678901234567890123", "456789012345678901234567890123456789012345678901234567890123456789é"), "漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢"];

pub const SYMS: [&str; 4] = ["A", "B", "C", "D"];
pub struct Names(pub HashMap<String, Symbol>, pub HashMap<Symbol, String>);
impl Names {
    pub fn set(k: usize) -> Names {
        let words = vocabulary(k, 6);
        let n: Vec<&str> = if k % 3 == 2 { words.iter().map(|w| w.as_str()).collect() } else { NAMES[k % NAMES.len()].to_vec() };
        let mut f = HashMap::new();
        let mut b = HashMap::new();
        for (i, a) in ["A", "B", "C", "D", "E", "F"].iter().enumerate() {
            let s = Symbol::build(n[i]).expect("symbol");
            f.insert(a.to_string(), s);
            b.insert(s, a.to_string());
        }
        Names(f, b)
    }
    /// Any number of symbols.
    pub fn wide(n: usize) -> Names {
        let all: Vec<(String, Symbol)> = (0..n).map(|i| (format!("S{i}"), Symbol::build(format!("wide-{i}")).expect("symbol"))).collect();
        Names(all.iter().cloned().collect(), all.into_iter().map(|(a, b)| (b, a)).collect())
    }
    pub fn string(&self, v: &Value) -> ProductionString {
        ProductionString::from(strs(v).iter().map(|s| self.0[s]).collect::<Vec<_>>())
    }
    pub fn ctx(&self, v: &Value) -> Option<ProductionString> {
        v.as_array().and_then(|a| a.first()).map(|s| self.string(s))
    }
    pub fn back(&self, s: &ProductionString) -> Value {
        Value::Array(s.iter().map(|x| json!(self.1.get(x).cloned().unwrap_or_else(|| format!("?{x}")))).collect())
    }
    pub fn head(&self, p: &Value) -> ProductionHead {
        ProductionHead::build(self.ctx(&p["l"]), self.0[p["t"].as_str().unwrap()], self.ctx(&p["r"])).expect("head")
    }
    pub fn production(&self, p: &Value) -> Production {
        Production::new(self.head(p), ProductionBody::new(self.string(&p["b"])))
    }
}

fn ok_or(r: Result<crate::util::Res<Value>, String>) -> Value {
    match r { Ok(Ok(v)) => v, Ok(Err(e)) => json!(format!("error: {e}")), Err(p) => json!(p) }
}

pub fn match_replay(path: &str) {
    let mut r = Report::default();
    for (ci, case) in tlc_cases(path).enumerate() {
        let names = Names::set(ci);
        let head = names.head(&case);
        let prod = Production::new(head.clone(), ProductionBody::new(ProductionString::new()));
        let s = names.string(&case["s"]);
        let hits: Vec<i64> = case["hits"].as_array().unwrap().iter().map(int).collect();
        running(&format!("matches {case}"));
        r.cases += 1;
        if !hits.is_empty() && (head.pre_context().is_some() || head.post_context().is_some()) { r.nontrivial += 1 }
        // position n of the specification is index n-1; 0 and Len+1 are outside
        for n in 1..=s.len() as i64 + 3 {
            let idx = if n == s.len() as i64 + 3 { usize::MAX } else { (n - 1) as usize };
            let want = json!(hits.contains(&n));
            for (call, got) in [("Production::matches", guard(|| prod.matches(&s, idx))),
                                ("ProductionHead::matches", guard(|| head.matches(&s, idx)))] {
                let got = got.map(|b| json!(b)).unwrap_or_else(Value::String);
                r.check(|| json!({"call": call, "head": {"l": case["l"], "t": case["t"], "r": case["r"]}, "string": case["s"], "index": idx}), want.clone(), got);
            }
        }
        // Each context alone, inside of the string.
        for (call, side) in [("ProductionHead::pre_matches", "lefts"), ("ProductionHead::post_matches", "rights")] {
            let want: Vec<i64> = case[side].as_array().unwrap().iter().map(int).collect();
            for n in 1..=s.len() as i64 {
                let got = guard(|| if side == "lefts" { head.pre_matches(&s, (n - 1) as usize) } else { head.post_matches(&s, (n - 1) as usize) }).map(|b| json!(b)).unwrap_or_else(Value::String);
                r.check(|| json!({"call": call, "head": {"l": case["l"], "t": case["t"], "r": case["r"]}, "string": case["s"], "index": n - 1}), json!(want.contains(&n)), got);
            }
        }
        if ci % 3001 == 77 { r.sample(case.clone()) }
    }
    r.finish();
}

fn once_via(names: &Names, prods: &[Production], system: &System, s: &ProductionString, how: usize) -> Value {
    ok_or(guard(|| {
        let out = match how {
            0 => sys::derive_once(s.clone(), prods),
            1 => system.derive_once(s.clone()),
            2 => system.derive(s.clone(), RunSettings::for_max_iterations(1)),
            _ => sys::derive(s.clone(), prods, 1.into()),
        };
        out.map(|o| names.back(&o)).map_err(|e| e.to_string())
    }))
}

/// Very long strings: the parts of a string between symbols that no production mentions
/// are derived independently (invariant Cut of DeriveGen).
fn long_string(r: &mut Report, rng: &mut Rng, case: &Value, names: &Names, prods: &[Production], system: &System) {
    let cut = Symbol::build("Zcut").expect("symbol");
    let runs: Vec<(ProductionString, ProductionString)> = case["runs"].as_array().unwrap().iter()
        .filter(|x| x.as_array().unwrap().len() > 1).map(|x| (names.string(&x[0]), names.string(&x[1]))).collect();
    // (matching with a context copies the rest of the string: keep those shorter)
    let free = case["ps"].as_array().unwrap().iter().all(|p| p["l"] == json!([]) && p["r"] == json!([]));
    let target = if free { 70_000 } else { *rng.pick(&[300usize, 2_500]) };
    let (mut s, mut want) = (ProductionString::new(), ProductionString::new());
    while s.len() < target {
        let (a, b) = rng.pick(&runs);
        a.iter().for_each(|x| s.push_symbol(*x));
        b.iter().for_each(|x| want.push_symbol(*x));
        s.push_symbol(cut);
        want.push_symbol(cut);
    }
    running(&format!("derive {} on a string of {} symbols", case["ps"], s.len()));
    for how in 0..2 {
        let got = guard(|| if how == 0 { sys::derive_once(s.clone(), prods) } else { system.derive(s.clone(), 1.into()) }.map_err(|e| e.to_string()));
        let diff = match &got {
            Ok(Ok(g)) if *g == want => json!("as the parts"),
            Ok(Ok(g)) => json!({"length": g.len(), "want length": want.len(), "first difference at": g.iter().zip(want.iter()).position(|(a, b)| a != b)}),
            Ok(Err(e)) => json!(e), Err(e) => json!(e),
        };
        r.check(|| json!({"call": "one derivation step of a long string", "productions": case["ps"], "length": s.len()}), json!("as the parts"), diff);
    }
    r.cases += 1;
}

/// Runs hold a string and its successive steps.
pub fn derive_replay(path: &str, mode: &str) {
    let mut r = Report::default();
    let mut rng = Rng::from_env(8);
    let mut cycles = 0;
    for (ci, case) in tlc_cases(path).enumerate() {
        let names = Names::set(ci);
        let prods: Vec<Production> = case["ps"].as_array().unwrap().iter().map(|p| names.production(p)).collect();
        let system = System::new();
        running(&format!("add_production {}", case["ps"]));
        for p in &prods {
            if let Err(e) = guard(|| system.add_production(p.clone()).map(|_| ()).map_err(|e| e.to_string())).and_then(|x| x) {
                r.mismatch(json!({"call": "System::add_production", "productions": case["ps"]}), json!("added"), json!(e));
            }
        }
        if ci % 151 == 7 { long_string(&mut r, &mut rng, &case, &names, &prods, &system) }
        for run in case["runs"].as_array().unwrap() {
            let steps = run.as_array().unwrap();
            let s = names.string(&steps[0]);
            running(&format!("derive {} from {}", case["ps"], steps[0]));
            r.cases += 1;
            if steps.len() > 1 && steps[1] != steps[0] { r.nontrivial += 1 }
            if mode == "once" {
                if steps.len() < 2 { continue }
                for how in 0..4 {
                    let call = ["system::derive_once", "System::derive_once", "System::derive, 1 iteration", "system::derive, 1 iteration"][how];
                    r.check(|| json!({"call": call, "productions": case["ps"], "string": steps[0]}), steps[1].clone(), once_via(&names, &prods, &system, &s, how));
                }
                // find_matching gives the first-added production that matches
                for i in 0..s.len() + 1 {
                    let want = prods.iter().position(|p| p.matches(&s, i));
                    let got = guard(|| find_matching(&prods, &s, i).and_then(|f| prods.iter().position(|p| std::ptr::eq(p, f))));
                    r.check(|| json!({"call": "find_matching", "productions": case["ps"], "string": steps[0], "index": i}), json!(want), got.map(|g| json!(g)).unwrap_or_else(Value::String));
                }
            } else {
                let all = |n: usize, s: &ProductionString, how: usize| ok_or(guard(|| match how {
                    0 => system.derive(s.clone(), RunSettings::for_max_iterations(n)),
                    _ => sys::derive(s.clone(), &prods, n.into()),
                }.map(|o| names.back(&o)).map_err(|e| e.to_string())));
                let last = steps.len() - 1;
                for (n, want) in steps.iter().enumerate() {
                    for how in 0..2 {
                        r.check(|| json!({"call": "derive", "productions": case["ps"], "string": steps[0], "iterations": n}), want.clone(), all(n, &s, how));
                    }
                    // m iterations and then the rest
                    let mid = names.string(want);
                    r.check(|| json!({"call": "derive in two parts", "productions": case["ps"], "string": steps[0], "first": n, "then": last - n}),
                        steps[last].clone(), all(last - n, &mid, 0));
                }
                if steps.len() > 10 {
                    let got = ok_or(guard(|| system.derive(s.clone(), RunSettings::default()).map(|o| names.back(&o)).map_err(|e| e.to_string())));
                    r.check(|| json!({"call": "derive with default settings", "productions": case["ps"], "string": steps[0]}), steps[10].clone(), got);
                }
                // A string that comes back cycles for ever.
                if let Some(start) = steps[..last].iter().position(|x| *x == steps[last]) {
                    let period = last - start;
                    cycles += 1;
                    let far: &[usize] = if period > 1 && cycles % 50 == 1 { &[1000, 1001, 65_535, 65_536, 65_537] } else { &[127 + ci % 5, 256 + ci % 7] };
                    for n in far {
                        let want = steps[start + (n - start) % period].clone();
                        r.check(|| json!({"call": "derive", "productions": case["ps"], "string": steps[0], "iterations": n}), want, all(*n, &s, ci % 2));
                    }
                }
            }
            if r.cases % 50_021 == 77 { r.sample(json!({"productions": case["ps"], "steps": run})) }
        }
    }
    r.extra.insert("cycling strings".into(), json!(cycles));
    if mode != "once" {
        for n in [0usize, 1, 2, 5, 10, 11, 77, 1000, usize::MAX] {
            for (call, got) in [
                ("RunSettings::for_max_iterations", guard(|| RunSettings::for_max_iterations(n).max_iterations)),
                ("RunSettings::from", guard(|| RunSettings::from(n).max_iterations)),
                ("AbopTurtleInterpretation::run_settings", guard(|| AbopTurtleInterpretation::new(n, 20.0).run_settings().max_iterations)),
                ("AbopTurtleInterpretation::n", guard(|| AbopTurtleInterpretation::new(n, 20.0).n())),
                ("SvgPathInterpretation::run_settings", guard(|| SvgPathInterpretation::new_with(3, 4, AbopTurtleInterpretation::new(n, 20.0)).run_settings().max_iterations)),
            ] {
                r.cases += 1;
                r.check(|| json!({"call": call, "n": n}), json!(n), got.map(|g| json!(g)).unwrap_or_else(Value::String));
            }
            // The empty string derives to the empty string at once.
            let system = System::new();
            let _ = system.add_production("A -> A A");
            running(&format!("derive the empty string {n} times"));
            let got = guard(|| system.derive(ProductionString::new(), n.into()).map(|s| s.len()).unwrap_or(999));
            r.check(|| json!({"call": "derive the empty string", "n": n}), json!(0), got.map(|g| json!(g)).unwrap_or_else(Value::String));
        }
        for (call, got) in [("RunSettings::default", guard(|| RunSettings::default().max_iterations)),
                            ("NullInterpretation::run_settings", guard(|| NullInterpretation::default().run_settings().max_iterations))] {
            r.check(|| json!({"call": call}), json!(10), got.map(|g| json!(g)).unwrap_or_else(Value::String));
        }
    }
    r.finish();
}

fn rand_string(rng: &mut Rng, k: usize, n: usize) -> Value {
    let n = rng.below(n + 1);
    json!((0..n).map(|_| SYMS[rng.below(k)]).collect::<Vec<_>>())
}
fn rand_ctx(rng: &mut Rng, k: usize) -> Value {
    if rng.chance(1, 3) { json!([]) } else { let m = 1 + rng.below(4); json!([rand_string(rng, k, m)]) }
}

/// Many symbols, many productions, long contexts, bodies and strings; or many iterations.
fn large(rng: &mut Rng, what: &str, turn: usize, r: &mut Report, out: &mut Out) {
    let k = [300usize, 2, 40, 3, 1000][turn % 5];
    let names = Names::wide(k);
    let sym = |rng: &mut Rng| format!("S{}", rng.below(k));
    let (len, np, nc, nb, n) = match what {
        "match" => (*rng.pick(&[300usize, 70, 140]), 4, *rng.pick(&[12usize, 20, 34, 66, 130]), 0, 0),
        "once" => (*rng.pick(&[200usize, 500]), *rng.pick(&[300usize, 40]), *rng.pick(&[2usize, 40]), *rng.pick(&[3usize, 30]), 1),
        _ => if turn % 2 == 0 { (3, 12, 1, 1, *rng.pick(&[66usize, 300])) } else { (40, 40, 3, 1, 20) },
    };
    let s: Vec<String> = { let unit: Vec<String> = (0..1 + rng.below(9)).map(|_| sym(rng)).collect(); (0..len).map(|i| if rng.chance(1, 60) { sym(rng) } else { unit[i % unit.len()].clone() }).collect() };
    let mut ps: Vec<Value> = vec![];
    for _ in 0..np * 3 {
        if ps.len() >= np { break }
        // a head with the surroundings of some place, the far ends sometimes wrong
        let at = rng.below(len);
        let (a, b) = (at - rng.below(nc.min(at) + 1), at + 1 + rng.below(nc.min(len - at - 1) + 1));
        let (mut l, mut rr) = (s[a..at].to_vec(), s[at + 1..b].to_vec());
        if rng.chance(1, 4) { if let Some(x) = l.first_mut() { *x = sym(rng) } }
        if rng.chance(1, 4) { if let Some(x) = rr.last_mut() { *x = sym(rng) } }
        if rng.chance(1, 8) && !l.is_empty() { let k = rng.below(l.len()); l[k] = sym(rng) }
        if rng.chance(1, 8) && !rr.is_empty() { let k = rng.below(rr.len()); rr[k] = sym(rng) }
        let ctx = |c: Vec<String>, rng: &mut Rng| if c.is_empty() && rng.chance(1, 2) { json!([]) } else { json!([c]) };
        let t = if rng.chance(1, 6) { sym(rng) } else { s[at].clone() };
        let body: Vec<String> = if nb == 1 { vec![sym(rng)] } else { (0..rng.below(nb + 1)).map(|_| sym(rng)).collect() };
        let p = json!({"l": ctx(l, rng), "t": t, "r": ctx(rr, rng), "b": body});
        if ps.iter().all(|q| (&q["l"], &q["t"], &q["r"]) != (&p["l"], &p["t"], &p["r"])) { ps.push(p) }
    }
    let prods: Vec<Production> = ps.iter().map(|p| names.production(p)).collect();
    let sv = json!(s);
    let s = names.string(&sv);
    running(&format!("{what} on {} symbols with {} productions, {n} times", s.len(), ps.len()));
    r.cases += 1;
    r.nontrivial += 1;
    let mut ev = json!({"kind": what, "ps": ps, "s": sv, "n": n});
    if what == "match" {
        let hits = guard(|| prods.iter().map(|p| (1..=s.len() + 1).filter(|n| p.matches(&s, n - 1)).collect::<Vec<_>>()).collect::<Vec<_>>());
        ev["hits"] = hits.map(|h| json!(h)).unwrap_or_else(|e| json!([e]));
    } else {
        let system = System::new();
        for p in &prods { let _ = guard(|| system.add_production(p.clone()).is_ok()); }
        let got = guard(|| match turn % 3 { 0 => sys::derive(s.clone(), &prods, n.into()), 1 if n == 1 => system.derive_once(s.clone()), _ => system.derive(s.clone(), RunSettings::for_max_iterations(n)) });
        let (k, v) = match got { Ok(Ok(v)) => ("ok".to_string(), names.back(&v)), Ok(Err(e)) => (format!("error: {e}"), json!([])), Err(e) => (e, json!([])) };
        ev["k"] = json!(k);
        ev["res"] = v;
    }
    out.put(ev);
}

/// Larger random systems and strings. `what`: match, once or n.
/// Strings of hundreds of thousands of symbols, as runs of equal ones.
fn giant(rng: &mut Rng, what: &str, turn: usize, r: &mut Report, out: &mut Out) {
    let names = Names::wide(4);
    let large = [63usize, 64, 65, 127, 129, 255, 256, 257, 1000, 4095, 4097, 32_767, 32_769, 65_535, 65_536, 65_537, 70_001, 131_073];
    let mut runs: Vec<(String, usize)> = vec![];
    let count = 2 + rng.below(9);
    // S3 comes in large runs; most heads are for the others.
    for i in 0..count {
        let x = if i % 2 == turn % 2 { 3 } else { rng.below(3) };
        let n = if x == 3 { if turn % 3 == 2 { 1 + rng.below(4) } else { *rng.pick(&large) } } else { 1 + rng.below(5) };
        if runs.last().is_none_or(|l| l.0 != format!("S{x}")) && runs.iter().map(|r| r.1).sum::<usize>() + n < 300_000 { runs.push((format!("S{x}"), n)) }
    }
    let s: Vec<String> = runs.iter().flat_map(|(x, n)| std::iter::repeat_n(x.clone(), (*n).min(9))).collect();
    let grow = what == "n" && turn % 2 == 0;
    let mut ps: Vec<Value> = vec![];
    for _ in 0..6 {
        let at = rng.below(s.len());
        let t = if rng.chance(1, 8) { "S1".to_string() } else { s[at].clone() };
        let heavy = t == "S3";
        let ctx = |around: &[String], left: bool, rng: &mut Rng| {
            // (matching a context takes the real code time in proportion to the string)
            if heavy || (grow && turn % 4 == 0) || rng.chance(1, 4) { return json!([]) }
            let n = rng.below(around.len().min(2) + 1);
            let mut c = if left { around[around.len() - n..].to_vec() } else { around[..n].to_vec() };
            if n > 0 && rng.chance(1, 4) { c[0] = format!("S{}", rng.below(4)) }
            json!([c])
        };
        let (l, rr) = (ctx(&s[..at], true, rng), ctx(&s[at + 1..], false, rng));
        let k = if grow { rng.below(3) } else if what == "n" { rng.below(2) } else if heavy { rng.below(4) } else { *rng.pick(&[0usize, 1, 2, 63, 64, 65, 100, 129, 255, 256, 257, 1000, 5000, 70_000]) };
        let b = if k == 0 { json!([]) } else { json!([format!("S{}", rng.below(4)), k]) };
        if ps.iter().all(|q| (&q["l"], &q["t"], &q["r"]) != (&l, &json!(t), &rr)) { ps.push(json!({"l": l, "t": t, "r": rr, "b": b})) }
    }
    let flat = |runs: &[(String, usize)]| ProductionString::from(runs.iter().flat_map(|(x, n)| std::iter::repeat_n(names.0[x], *n)).collect::<Vec<_>>());
    let string = flat(&runs);
    let prods: Vec<Production> = ps.iter().map(|p| Production::new(names.head(p), ProductionBody::new(
        match p["b"].as_array().filter(|b| b.len() == 2) { None => ProductionString::empty(), Some(b) => flat(&[(b[0].as_str().unwrap().to_string(), int(&b[1]) as usize)]) }))).collect();
    let n = match what { "n" => if grow { let mut n = 0; while string.len() << (n + 1) < (if turn % 4 == 0 { 400_000 } else { 9_000 }) && n < 18 { n += 1 } n } else { 2 + rng.below(6) }, _ => 1 };
    running(&format!("{what} on runs {runs:?} with {}, {n} times", json!(ps)));
    r.cases += 1;
    r.nontrivial += 1;
    let mut ev = json!({"kind": "runs", "ps": ps, "s": runs, "n": n, "k": "ok"});
    if what == "match" {
        ev["kind"] = json!("runhits");
        let hits = guard(|| prods.iter().map(|p| {
            let mut h: Vec<(usize, usize)> = vec![];
            for i in (0..string.len() + 2).filter(|i| p.matches(&string, *i)) { match h.last_mut() { Some(l) if l.1 == i => l.1 = i + 1, _ => h.push((i + 1, i + 1)) } }
            h
        }).collect::<Vec<_>>());
        match hits { Ok(h) => ev["hits"] = json!(h), Err(e) => { ev["hits"] = json!([]); ev["k"] = json!(e) } }
    } else {
        let system = System::new();
        for p in &prods { let _ = guard(|| system.add_production(p.clone()).is_ok()); }
        let got = guard(|| match turn % 3 { 0 => sys::derive(string.clone(), &prods, n.into()), 1 if n == 1 => system.derive_once(string.clone()), _ => system.derive(string.clone(), RunSettings::for_max_iterations(n)) });
        let mut res: Vec<(String, usize)> = vec![];
        match got {
            Ok(Ok(v)) => for x in v.iter() { let x = names.1.get(x).cloned().unwrap_or("?".into()); match res.last_mut() { Some(l) if l.0 == x => l.1 += 1, _ => res.push((x, 1)) } },
            Ok(Err(e)) => ev["k"] = json!(format!("error: {e}")),
            Err(e) => ev["k"] = json!(e),
        }
        ev["res"] = json!(res);
    }
    out.put(ev);
}

pub fn record(path: &str, count: usize, what: &str) {
    let mut out = Out::new(path);
    let mut r = Report::default();
    let mut rng = Rng::from_env(7 + what.len() as u64);
    for ci in 0..count {
        let every = if what == "match" { 20 } else { 400 };
        if ci % every == 78 % every && ci / every < 90 { giant(&mut rng, what, ci / every, &mut r, &mut out); continue }
        if ci % every == 77 % every { large(&mut rng, what, ci / every, &mut r, &mut out); continue }
        let k = 1 + rng.below(4);
        let names = Names::set(rng.below(100));
        let mut ps: Vec<Value> = Vec::new();
        let np = if what == "match" { 4 } else { rng.below(7) };
        let mut tries = 0;
        while ps.len() < np && tries < 50 {
            tries += 1;
            let p = json!({"l": rand_ctx(&mut rng, k), "t": SYMS[rng.below(k)], "r": rand_ctx(&mut rng, k), "b": rand_string(&mut rng, k, 3)});
            if ps.iter().all(|q| (&q["l"], &q["t"], &q["r"]) != (&p["l"], &p["t"], &p["r"])) { ps.push(p) }
        }
        let sv = rand_string(&mut rng, k, if what == "n" { 5 } else { 24 });
        let s = names.string(&sv);
        let prods: Vec<Production> = ps.iter().map(|p| names.production(p)).collect();
        running(&format!("{what} {} on {sv}", json!(ps)));
        r.cases += 1;
        let ev = match what {
            "match" => {
                let hits = guard(|| prods.iter().map(|p| (0..=s.len() + 1).filter(|n| *n > 0 && p.matches(&s, n - 1)).collect::<Vec<_>>()).collect::<Vec<_>>());
                let hits = hits.map(|h| json!(h)).unwrap_or_else(|e| json!([e]));
                if hits.as_array().is_some_and(|a| a.iter().any(|h| h.as_array().is_some_and(|h| !h.is_empty()))) { r.nontrivial += 1 }
                json!({"kind": "match", "ps": ps, "s": sv, "n": 0, "hits": hits})
            }
            _ => {
                let n = if what == "once" { 1 } else { rng.below(5) };
                // keep the result small enough for the model checker
                let mut cur = s.clone();
                let mut n_ok = 0;
                for _ in 0..n {
                    match guard(|| sys::derive_once(cur.clone(), &prods)) { Ok(Ok(c)) => cur = c, _ => { n_ok += 1; break } }
                    n_ok += 1;
                    if cur.len() > 60 { break }
                }
                let system = System::new();
                for p in &prods { let _ = guard(|| system.add_production(p.clone()).is_ok()); }
                let got = guard(|| if what == "once" && ci % 2 == 0 { system.derive_once(s.clone()) } else { system.derive(s.clone(), RunSettings::for_max_iterations(n_ok)) });
                if n_ok > 0 && !s.is_empty() && !ps.is_empty() { r.nontrivial += 1 }
                match got {
                    Ok(Ok(v)) => json!({"kind": what, "ps": ps, "s": sv, "n": n_ok, "k": "ok", "res": names.back(&v)}),
                    Ok(Err(e)) => json!({"kind": what, "ps": ps, "s": sv, "n": n_ok, "k": format!("error: {e}"), "res": []}),
                    Err(e) => json!({"kind": what, "ps": ps, "s": sv, "n": n_ok, "k": e, "res": []}),
                }
            }
        };
        if ci % 307 == 5 { r.sample(ev.clone()) }
        out.put(ev);
    }
    r.finish();
}
