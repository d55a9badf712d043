//! C11, C14, C24, C25: histories of calls on systems and on the caller's own stores.
use crate::derive::Names;
use crate::util::*;
use rusty_systems::parser::parse_and_add_production;
use rusty_systems::prelude::*;
use rusty_systems::productions::{Production, ProductionBody};
use rusty_systems::symbols::iterator::SymbolIterable;
use rusty_systems::symbols::SymbolStore;
use rusty_systems::system::family::SystemFamily;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeSet, HashSet};

pub const ALL: [&str; 6] = ["A", "B", "C", "D", "E", "F"];

/// Converts to a symbol or a production, or fails, in the caller's own way.
struct Custom<T>(Option<T>);
#[derive(Debug)]
struct Mine;
impl From<Mine> for Error { fn from(_: Mine) -> Error { Error::general("mine") } }
impl TryFrom<Custom<Symbol>> for Symbol { type Error = Mine; fn try_from(c: Custom<Symbol>) -> Result<Symbol, Mine> { c.0.ok_or(Mine) } }
impl TryFrom<Custom<Production>> for Production { type Error = Mine; fn try_from(c: Custom<Production>) -> Result<Production, Mine> { c.0.ok_or(Mine) } }

pub enum Store {
    Sys(System),
    Own(RefCell<HashSet<u32>>, RefCell<Vec<Production>>),
}

impl Names {
    pub fn text(&self, n: &str) -> String { self.0[n].name().expect("name") }
    fn terms(&self, v: &Value) -> String { strs(v).iter().map(|n| self.text(n)).collect::<Vec<_>>().join(" ") }
    /// The text of a production [l, t, r, bs] with one body.
    pub fn prod_text(&self, p: &Value, pad: bool) -> String {
        let sp = if pad { " \t " } else { " " };
        let mut s = String::new();
        if let Some(l) = p["l"].as_array().unwrap().first() { s += &format!("{}{sp}<{sp}", self.terms(l)) }
        s += &self.text(p["t"].as_str().unwrap());
        if let Some(r) = p["r"].as_array().unwrap().first() { s += &format!("{sp}>{sp}{}", self.terms(r)) }
        s += &format!("{sp}->{sp}");
        let b = &p["bs"][0];
        if int(&b["c"]) >= 0 { s += &format!("{}{sp}", int(&b["c"]) as f64 / 100.0) }
        s += &self.terms(&b["b"]);
        if pad { s = format!("  {s}\n") }
        s
    }
    pub fn prod_value(&self, p: &Value) -> Production {
        let body = |b: &Value| if int(&b["c"]) < 0 { ProductionBody::new(self.string(&b["b"])) }
            else { ProductionBody::try_with_chance(int(&b["c"]) as f32 / 100.0, self.string(&b["b"])).expect("chance") };
        let bs = p["bs"].as_array().unwrap();
        let mut out = Production::new(self.head(p), body(&bs[0]));
        for b in &bs[1..] { out.add_body(body(b)) }
        out
    }
    fn ctx_back(&self, c: Option<&ProductionString>) -> Value { match c { None => json!([]), Some(s) => json!([self.back(s)]) } }
    pub fn stored(&self, p: &Production) -> Value {
        let h = p.head();
        json!({"l": self.ctx_back(h.pre_context()), "t": self.1.get(h.target()).cloned().unwrap_or("?".into()), "r": self.ctx_back(h.post_context()),
            "bs": p.all_bodies().iter().map(|b| {
                let c = if b.chance().is_derived() || !b.chance().is_user_set() { -1 } else { (b.chance().unwrap_or(-5.0) * 100.0).round() as i64 };
                json!({"c": c, "b": self.back(b.string())})
            }).collect::<Vec<_>>()})
    }
}

pub fn malformed(kind: &str, names: &Names, k: usize) -> String {
    let two = if names.0.contains_key("A") { ["A", "B"] } else { ["S0", "S1"] };
    let (a, b) = (names.text(two[0]), names.text(two[1]));
    match kind {
        "no arrow" => [format!("{a} {b}"), String::new(), "  \n".into(), format!("{a} - > {b}")][k % 4].clone(),
        "no head" => [format!("-> {b}"), format!("  ->"), format!("{a} < -> {b}"), format!("> {a} -> {b}")][k % 4].clone(),
        "two targets" => [format!("{a} {b} -> {a}"), format!("F9 < {a} {b} -> {b}"), format!("{a} {a} > F8 -> {b}")][k % 3].clone(),
        _ => [format!("{a} -> 1.5 F6"), format!("{a} -> -0.25 F7 {b}"), format!("F5 -> 7"), format!("F4 < {a} -> nan {b}"), format!("{a} -> inf")][k % 5].clone(),
    }
}

fn err_or<T>(r: Result<Result<T, Error>, String>, f: impl FnOnce(T) -> Value) -> Value {
    match r { Ok(Ok(v)) => f(v), Ok(Err(_)) => json!("error"), Err(p) => json!(p) }
}

impl Store {
    pub fn new(kind: &str) -> Store {
        if kind == "own" { Store::Own(RefCell::new(HashSet::new()), RefCell::new(Vec::new())) } else { Store::Sys(System::new()) }
    }
    pub fn of(alpha: &[String], names: &Names, k: usize) -> Store {
        if alpha.is_empty() { return Store::Sys(if k % 2 == 0 { System::new() } else { System::default() }) }
        let mut b = SystemFamily::define();
        for (i, n) in alpha.iter().enumerate() {
            let t = names.text(n);
            b = if i % 2 == 0 { b.with_terminal(t.as_str(), None) } else { b.with_production(t.as_str(), Some("x")) };
        }
        Store::Sys(System::of_family(b.build("storefam").expect("family")).expect("of_family"))
    }
    fn sym<S>(&self, s: S) -> Result<Symbol, Error> where S: TryInto<Symbol>, S::Error: Into<Error> {
        match self { Store::Sys(x) => x.add_symbol(s), Store::Own(q, _) => q.add_symbol(s) }
    }
    fn prod<P>(&self, p: P) -> Result<Production, Error> where P: TryInto<Production>, P::Error: Into<Error> {
        match self { Store::Sys(x) => x.add_production(p), Store::Own(_, l) => l.add_production(p) }
    }
    fn pap(&self, text: &str) -> Result<Production, Error> {
        match self { Store::Sys(x) => parse_and_add_production(x, x, text), Store::Own(q, l) => parse_and_add_production(q, l, text) }
    }
    pub fn get(&self, name: &str) -> Option<Symbol> {
        match self { Store::Sys(x) => x.get_symbol(name), Store::Own(q, _) => q.get_symbol(name) }
    }
    pub fn derive_once(&self, s: ProductionString) -> Result<ProductionString, Error> {
        match self { Store::Sys(x) => x.derive_once(s), Store::Own(_, l) => rusty_systems::system::derive_once(s, &l.borrow()) }
    }

    /// One call of a history; its result in the specification's terms.
    pub fn call(&self, e: &Value, names: &Names, k: usize) -> Value {
        let n = e["n"].as_str().unwrap_or("");
        match e["o"].as_str().unwrap() {
            "sym" => {
                let (t, s) = (names.text(n), names.0[n]);
                let r = guard(|| match k % 6 {
                    0 => self.sym(t.as_str()), 1 => self.sym(format!("  {t}\n")), 2 => self.sym(s),
                    3 => self.sym(s.code()), 4 => self.sym(Custom(Some(s))), _ => self.sym(t.clone()),
                });
                err_or(r, |x| if x == s { json!("ok") } else { json!(format!("another symbol: {x}")) })
            }
            "badsym" => {
                let r = guard(|| match (n, k % 3) {
                    ("blank", 0) => self.sym(""), ("blank", 1) => self.sym(" \t\u{2003}"), ("blank", _) => self.sym(String::from("\n")),
                    (_, 0) => self.sym(4_000_000_000u32 + k as u32), (_, 1) => self.sym(u32::MAX), (_, _) => self.sym(Custom(None)),
                });
                err_or(r, |_| json!("ok"))
            }
            "get" => {
                let t = names.text(n);
                match guard(|| self.get(&if k % 3 == 1 { format!(" {t}  ") } else { t.clone() })) {
                    Ok(None) => json!("none"), Ok(Some(s)) if s == names.0[n] => json!("found"), Ok(Some(s)) => json!(format!("another symbol: {s}")), Err(p) => json!(p),
                }
            }
            "prod" => {
                let several = e["p"]["bs"].as_array().unwrap().len() > 1;
                let r = guard(|| match if several { k % 2 * 2 + 1 } else { k % 4 } {
                    0 => self.prod(names.prod_text(&e["p"], false).as_str()), 1 => self.prod(names.prod_value(&e["p"])),
                    2 => self.prod(names.prod_text(&e["p"], true)), _ => self.prod(Custom(Some(names.prod_value(&e["p"])))),
                });
                err_or(r, |p| names.stored(&p))
            }
            "pap" => err_or(guard(|| self.pap(&names.prod_text(&e["p"], k % 2 == 1))), |p| names.stored(&p)),
            "badprod" => {
                let t = malformed(n, names, k);
                let r = guard(|| if e["via"] == json!("pap") { self.pap(&t) } else { match k % 3 { 0 => self.prod(t.as_str()), 1 => self.prod(t.clone()), _ => if k % 5 == 2 { self.prod(Custom(None)) } else { self.prod(t.as_str()) } } });
                err_or(r, |_| json!("ok"))
            }
            "derive" => {
                let s = names.string(&e["str"]);
                err_or(guard(|| match (k % 3, self) {
                    (1, Store::Sys(x)) => x.derive(s, 1.into()), _ => self.derive_once(s),
                }), |o| names.back(&o))
            }
            o => panic!("unknown call {o}"),
        }
    }

    /// What can be seen from outside: number of symbols, which of the names are found,
    /// the number of productions, and (own stores) all of them.
    pub fn observe(&self, names: &Names) -> Value {
        guard(|| {
            let found: BTreeSet<&String> = names.0.keys().filter(|n| self.get(&names.text(n)) == Some(names.0[*n])).collect();
            match self {
                Store::Sys(x) => json!({"n": x.symbol_len(), "found": found, "m": x.production_len(), "list": []}),
                Store::Own(q, l) => json!({"n": q.borrow().len(), "found": found, "m": l.borrow().len(),
                    "list": l.borrow().iter().map(|p| names.stored(p)).collect::<Vec<_>>()}),
            }
        }).unwrap_or_else(|p| json!({"panic": p}))
    }
}

fn sorted(v: &Value) -> BTreeSet<String> { strs(v).into_iter().collect() }

pub fn replay(path: &str, what: &str) {
    let mut r = Report::default();
    for (ci, case) in tlc_cases(path).enumerate() {
        let names = Names::set(ci);
        let h = case["h"].as_array().unwrap();
        let kinds = strs(&case["kinds"]);
        let stores: Vec<Store> = kinds.iter().enumerate().map(|(i, kind)| {
            if kind == "own" { Store::new(kind) } else { Store::of(&strs(&h[0]["alpha"][i]), &names, ci) }
        }).collect();
        running(&format!("{}", json!(h)));
        let desc = || json!({"history": &h[1..], "kinds": kinds, "names": ALL.iter().map(|n| names.text(n)).collect::<Vec<_>>()});
        let mut ok = true;
        let mut before: Vec<Value> = stores.iter().map(|s| s.observe(&names)).collect();
        for (k, e) in h.iter().enumerate().skip(1) {
            let s = int(&e["s"]) as usize - 1;
            let o = e["o"].as_str().unwrap();
            let fails = o.starts_with("bad");
            let probes: Vec<Value> = if what == "failures" && fails { deterministic(&case, &stores, &names) } else { vec![] };
            let got = stores[s].call(e, &names, ci + k);
            let after: Vec<Value> = stores.iter().map(|s| s.observe(&names)).collect();
            match what {
                "failures" => if fails && got == json!("error") {
                    ok &= r.check(|| json!({"after the failing call": e, "of": desc()}), json!(before), json!(after));
                    ok &= r.check(|| json!({"derivations after the failing call": e, "of": desc()}), json!(probes), json!(deterministic(&case, &stores, &names)));
                },
                "productions" => if matches!(o, "prod" | "pap") { ok &= r.check(|| json!({"result of": e, "in": desc()}), e["res"].clone(), got) },
                "symbols" => if matches!(o, "sym" | "get" | "badsym") { ok &= r.check(|| json!({"result of": e, "in": desc()}), e["res"].clone(), got) },
                _ => ok &= r.check(|| json!({"result of": e, "in": desc()}), e["res"].clone(), got),
            }
            before = after;
        }
        r.cases += 1;
        if h.len() > 3 { r.nontrivial += 1 }
        if !ok || what == "failures" { if ci % 9001 == 5 { r.sample(case) } continue }
        for (i, s) in stores.iter().enumerate() {
            let obs = &before[i];
            if what != "productions" {
                let want = sorted(&case["alpha"][i]);
                r.check(|| json!({"number of symbols after": desc(), "store": i + 1}), json!(want.len()), obs["n"].clone());
                r.check(|| json!({"symbols found after": desc(), "store": i + 1}), json!(want), json!(sorted(&obs["found"])));
            }
            if what != "symbols" {
                let prods = case["prods"][i].as_array().unwrap();
                r.check(|| json!({"number of productions after": desc(), "store": i + 1}), json!(prods.len()), obs["m"].clone());
                if kinds[i] == "own" { r.check(|| json!({"list of productions after": desc()}), case["prods"][i].clone(), obs["list"].clone()); }
                for c in case["can"][i].as_array().unwrap() {
                    let got = err_or(guard(|| s.derive_once(names.string(&c["from"]))), |o| names.back(&o));
                    let allowed = c["to"].as_array().unwrap().contains(&got);
                    if !allowed { r.mismatch(json!({"derive_once": c["from"], "after": desc(), "store": i + 1}), c["to"].clone(), got) }
                }
                // One more body for every stored production shows all the others.
                if kinds[i] != "own" {
                    for p in prods {
                        let mut want = p.clone();
                        want["bs"].as_array_mut().unwrap().push(json!({"c": 1, "b": ["F", "F"]}));
                        let e = json!({"o": "prod", "p": {"l": p["l"], "t": p["t"], "r": p["r"], "bs": [{"c": 1, "b": ["F", "F"]}]}});
                        let got = s.call(&e, &names, ci + 1);
                        r.check(|| json!({"one more body for": p, "after": desc(), "store": i + 1}), want, got);
                    }
                    r.check(|| json!({"number of productions after one more body each": desc(), "store": i + 1}), json!(prods.len()), s.observe(&names)["m"].clone());
                }
            }
        }
        if ci % 9001 == 5 { r.sample(case) }
    }
    r.finish();
}

/// Derivations whose outcome is certain.
fn deterministic(case: &Value, stores: &[Store], names: &Names) -> Vec<Value> {
    let mut out = vec![];
    for (i, s) in stores.iter().enumerate() {
        for c in case["can"][i].as_array().unwrap() {
            if c["to"].as_array().unwrap().len() == 1 { out.push(err_or(guard(|| s.derive_once(names.string(&c["from"]))), |o| names.back(&o))) }
        }
    }
    out
}

fn rand_seq(rng: &mut Rng, k: usize, n: usize) -> Value { rand_of(rng, &ALL[..k], n) }
fn rand_of<S: AsRef<str>>(rng: &mut Rng, all: &[S], n: usize) -> Value {
    let n = rng.below(n + 1);
    json!((0..n).map(|_| all[rng.below(all.len())].as_ref()).collect::<Vec<_>>())
}

/// Long random histories on two systems and one pair of own stores.
/// (hot: with chances that can add up to more than 1, so that deriving can fail).
/// Very many symbols and productions in one store.
fn bulk(out: &mut Out, r: &mut Report, turn: usize) {
    let (m, q, t) = [(70_000usize, 300usize, 3usize), (300, 300, 2), (20_000, 3_000, 2), (5_000, 40, 60), (66_000, 20, 2)][turn / 2 % 5];
    let kind = turn % 2 * 2 + 1;      // the first system, or the caller's own store
    running(&format!("{m} symbols and {q} productions, each added {t} times"));
    let syms: Vec<Symbol> = (0..m).map(|k| Symbol::build(format!("bulk {k}")).expect("symbol")).collect();
    let store = Store::new(if kind == 3 { "own" } else { "system" });
    let got = guard(|| {
        for (k, s) in syms.iter().enumerate() { for _ in 0..t { if k % 2 == 0 { store.sym(*s) } else { store.sym(format!("bulk {k}")) }.map_err(|e| e.to_string())?; } }
        let mut merged = 0;
        for j in 0..t { for i in 0..q {
            let p = Production::new(rusty_systems::productions::ProductionHead::build(None, syms[i], None).map_err(|e| e.to_string())?, ProductionBody::new(ProductionString::from(vec![syms[(i + j + 1) % m]])));
            let p = store.prod(p).map_err(|e| e.to_string())?;
            let want: Vec<Symbol> = if kind == 3 { vec![syms[(i + j + 1) % m]] } else { (0..=j).map(|j| syms[(i + j + 1) % m]).collect() };
            let bodies: Vec<Symbol> = p.all_bodies().iter().flat_map(|b| b.string().symbols().clone()).collect();
            merged += (*p.head().target() == syms[i] && bodies == want) as usize;
        } }
        let found = (0..m).filter(|k| store.get(&format!("bulk {k}")) == Some(syms[*k])).count();
        let other = (m..m + 1000).filter(|k| store.get(&format!("bulk {k}")).is_some()).count();
        let to = store.derive_once(ProductionString::from(syms[..q].to_vec())).map_err(|e| e.to_string())?;
        let derived = to.iter().enumerate().filter(|(i, s)| (0..t).any(|j| syms[(i + j + 1) % m] == **s)).count();
        let (n, prods) = match &store { Store::Sys(x) => (x.symbol_len(), x.production_len()), Store::Own(q, l) => (q.borrow().len(), l.borrow().len()) };
        Ok::<_, String>(json!({"n": n, "found": found, "other": other, "prods": prods, "merged": merged, "derived": derived}))
    });
    r.cases += 1;
    r.nontrivial += 1;
    match got {
        Ok(Ok(res)) => out.put(json!({"h": [{"o": "start", "alpha": [[], [], []], "err": false, "after": []}, {"o": "bulk", "s": kind, "m": m, "q": q, "t": t, "res": res, "err": false, "after": []}]})),
        other => r.mismatch(json!({"symbols": m, "productions": q, "times": t}), json!("success"), json!(format!("{other:?}"))),
    }
}

pub fn record(path: &str, n: usize, salt: usize, hot: bool) {
    let mut out = Out::new(path);
    let mut r = Report::default();
    let mut rng = Rng::from_env(20 + salt as u64);
    for ci in 0..n {
        if ci % 25 == 9 && !hot { bulk(&mut out, &mut r, ci / 25) }
        // Now and then with hundreds of symbols and productions, looked at now and then.
        let large = ci % 250 == 17 || ci % 250 == 18;
        // productions of many bodies (then nothing is derived)
        let many = ci % 9 == 4 && !large && !hot;
        let names = if many { Names::wide(80) } else if large { Names::wide(if hot { 1500 } else { 100 } + rng.below(900)) } else { Names::set(rng.below(60)) };
        let mut all: Vec<String> = names.0.keys().cloned().collect();
        all.sort();
        let k = if large || many { all.len() } else { 2 + rng.below(5) };
        let few = &all[..k];
        let mut alphas: Vec<Vec<String>> = vec![];
        for _ in 0..2 { let x: HashSet<String> = if large && hot { all.iter().cloned().collect() } else if rng.chance(1, 2) { HashSet::new() } else { strs(&rand_of(&mut rng, few, if large { k } else { 4 })).into_iter().collect() }; alphas.push(x.into_iter().collect()) }
        let stores = [Store::of(&alphas[0], &names, ci), Store::of(&alphas[1], &names, ci + 1), Store::new("own")];
        let look = |stores: &[Store]| json!(stores.iter().map(|s| s.observe(&names)).collect::<Vec<_>>());
        let mut h = vec![json!({"o": "start", "alpha": [alphas[0], alphas[1], []], "err": false, "after": look(&stores)})];
        // a few heads, so that they meet again
        let deep = if large { *rng.pick(&[3, 40]) } else { 3 };
        let mut heads: Vec<Value> = (0..if large { 200 + rng.below(200) } else { 1 + rng.below(5) }).map(|_| {
            let ctx = |rng: &mut Rng| if rng.chance(1, 2) { json!([]) } else { json!([rand_of(rng, few, deep)]) };
            json!({"l": ctx(&mut rng), "t": few[rng.below(k)], "r": ctx(&mut rng)})
        }).collect();
        // and some that are almost the same
        for _ in 0..if large { 60 } else { rng.below(4) } {
            let mut q = rng.pick(&heads).clone();
            let side = *rng.pick(&["l", "r"]);
            match rng.below(6) {
                0 => { let x = q["l"].take(); q["l"] = q["r"].take(); q["r"] = x; }
                1 => q[side] = if q[side] == json!([]) { json!([[]]) } else { json!([]) },
                2 => q["t"] = json!(few[rng.below(k)]),
                n => if let Some(c) = q[side].as_array_mut().and_then(|a| a.first_mut()).and_then(|c| c.as_array_mut()) {
                    match n { 3 => c.reverse(), 4 => { c.pop(); } _ => { let x = c.first().cloned().unwrap_or(json!(few[0])); c.push(x) } }
                },
            }
            heads.push(q);
        }
        let main = if ci % 250 == 18 { 3 } else { 1 + ci / 250 % 2 };
        for j in 0..if large { 600 } else { 5 + rng.below(25) } {
            let s = if large && rng.chance(9, 10) { main } else { rng.below(3) + 1 };
            let mut p = if large && j < heads.len() { heads[j].clone() } else { rng.pick(&heads).clone() };
            let m = if many && rng.chance(1, 8) { 15 + rng.below(20) } else if rng.chance(1, 3) { 2 + rng.below(3) } else { 1 };
            p["bs"] = json!((0..m).map(|_| json!({"c": if hot { *rng.pick(&[-1, 0, 60, 70]) } else { *rng.pick(&[-1, -1, 0, 1, 1]) }, "b": rand_of(&mut rng, few, deep)})).collect::<Vec<_>>());
            let mut e = match rng.below(12) {
                0 | 1 => json!({"o": "sym", "n": few[rng.below(k)]}),
                2 => json!({"o": "badsym", "n": *rng.pick(&["blank", "code"])}),
                3 => json!({"o": "get", "n": all[rng.below(all.len())]}),
                4 => json!({"o": "badprod", "via": *rng.pick(&["prod", "pap"]), "n": *rng.pick(&["no arrow", "no head", "two targets", "chance"])}),
                5 if !many => json!({"o": "derive", "str": rand_of(&mut rng, few, 6)}),
                6 if m == 1 => json!({"o": "pap", "p": p}),
                _ => json!({"o": "prod", "p": p}),
            };
            e["s"] = json!(s);
            let failing = e["o"].as_str().unwrap().starts_with("bad") || e["o"] == json!("derive");
            if large && failing { let n = h.len() - 1; h[n]["after"] = look(&stores) }
            running(&format!("call {e} after {}", if large { json!(h.len()) } else { json!(h) }));
            let res = stores[s - 1].call(&e, &names, rng.below(1000) + j);
            e["err"] = json!(res == json!("error"));
            // (TLC compares like with like only)
            e["res"] = match (e["o"].as_str().unwrap(), &res) {
                ("prod" | "pap", Value::String(m)) => json!({"l": [], "t": m, "r": [], "bs": []}),
                ("derive", Value::String(m)) => json!([m]),
                _ => res,
            };
            e["after"] = if large && !failing && j % 97 != 96 && j != 599 { json!([]) } else { look(&stores) };
            let stop = e["after"].to_string().contains("panic");
            h.push(e);
            if stop { break }
        }
        r.cases += 1;
        r.nontrivial += 1;
        if ci % 101 == 3 && !large { r.sample(json!(h)) }
        out.put(json!({"h": h}));
    }
    r.finish();
}

/// The symbols that iterating over a production gives: exactly those of its parts, in order (C25).
pub fn iterate(n: usize) {
    let mut r = Report::default();
    let mut rng = Rng::from_env(31);
    for ci in 0..n {
        let names = Names::set(ci);
        let ctx = |rng: &mut Rng| if rng.chance(1, 3) { json!([]) } else { json!([rand_seq(rng, 6, 3)]) };
        let p = json!({"l": ctx(&mut rng), "t": ALL[rng.below(6)], "r": ctx(&mut rng), "bs": [{"c": -1, "b": rand_seq(&mut rng, 6, 4)}]});
        let more: Vec<Value> = (0..rng.below(4)).map(|_| rand_seq(&mut rng, 6, 4)).collect();
        let mut want: Vec<String> = vec![];
        if let Some(l) = p["l"].as_array().unwrap().first() { want.extend(strs(l)) }
        want.push(p["t"].as_str().unwrap().into());
        if let Some(l) = p["r"].as_array().unwrap().first() { want.extend(strs(l)) }
        want.extend(strs(&p["bs"][0]["b"]));
        more.iter().for_each(|b| want.extend(strs(b)));
        let got = guard(|| {
            let mut prod = names.prod_value(&p);
            for b in &more { prod.add_body(ProductionBody::new(names.string(b))) }
            let set: HashSet<Symbol> = prod.all_symbols();
            let v: Vec<Symbol> = prod.all_symbols_iter().collect();
            (names.back(&ProductionString::from(v)), set.len())
        });
        r.cases += 1;
        let distinct: HashSet<&String> = want.iter().collect();
        match got {
            Ok((v, d)) => { r.check(|| json!({"all_symbols_iter of": p, "further bodies": more}), json!(sorted(&json!(want))), json!(sorted(&v))); r.check(|| json!({"all_symbols of": p, "further bodies": more}), json!(distinct.len()), json!(d)); }
            Err(e) => r.mismatch(json!({"all_symbols_iter of": p}), json!(want), json!(e)),
        }
    }
    r.finish();
}
