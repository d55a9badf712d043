//! C29: productions made from parts.
use crate::derive::Names;
use crate::util::*;
use rusty_systems::prelude::*;
use rusty_systems::productions::{Chance, Production, ProductionBody, ProductionHead};
use rusty_systems::symbols::iterator::SymbolIterable;
use serde_json::{json, Value};
use std::collections::hash_map::DefaultHasher;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};

fn chance(c: i64) -> f32 { c as f32 / 100.0 }
fn body(b: &Value, names: &Names, k: usize) -> ProductionBody {
    let (c, s) = (int(&b["c"]), names.string(&b["b"]));
    if c < 0 { if s.is_empty() && k % 2 == 0 { ProductionBody::empty() } else { ProductionBody::new(s) } }
    else { ProductionBody::try_with_chance(chance(c), s).expect("a chance between 0 and 1") }
}
fn head(p: &Value, names: &Names) -> ProductionHead { ProductionHead::build(names.ctx(&p["l"]), names.0[p["t"].as_str().unwrap()], names.ctx(&p["r"])).expect("head") }

struct Two { p: Production, q: Production }
impl Two {
    fn new(names: &Names) -> Two {
        let p = Production::new(ProductionHead::build(None, names.0["A"], None).unwrap(), ProductionBody::empty());
        Two { q: p.clone(), p }
    }
    /// Whether the call was refused.
    fn call(&mut self, o: &str, x: &Value, names: &Names, k: usize) -> bool {
        match o {
            "make" => self.p = Production::new(head(x, names), body(&x["bs"][0], names, k)),
            "parse" => {
                let t = names.prod_text(x, k % 2 == 0);
                self.p = match k % 4 { 0 => t.parse().expect("production"), 1 => Production::try_from(t.as_str()).expect("production"), 2 => Production::try_from(t).expect("production"), _ => rusty_systems::parser::parse_production(&t).expect("production") };
            }
            "add" => self.p.add_body(body(x, names, k)),
            "merge" => self.p.merge(self.q.clone()),
            "refuse" => {
                let c = match (x["c"].as_str().unwrap(), k % 3) {
                    ("below", 0) => -0.25, ("below", 1) => -1e-30, ("below", _) => f32::MIN,
                    ("above", 0) => 1.25, ("above", 1) => 1.0 + f32::EPSILON, ("above", _) => f32::MAX,
                    ("nan", _) => f32::NAN, (_, 0) => f32::NEG_INFINITY, _ => f32::INFINITY,
                };
                return ProductionBody::try_with_chance(c, names.string(&x["b"])).is_err();
            }
            "copy" => self.q = self.p.clone(),
            "swap" => std::mem::swap(&mut self.p, &mut self.q),
            o => panic!("unknown operation {o}"),
        }
        false
    }
    fn look(&self, names: &Names) -> Value {
        let show = |x: &Production| {
            let ctx = |c: Option<&ProductionString>| match c { None => json!([]), Some(s) => json!([names.back(s)]) };
            let h = x.head();
            json!({"l": ctx(h.pre_context()), "t": names.1.get(h.target()).cloned().unwrap_or("?".into()), "r": ctx(h.post_context()), "bs": x.all_bodies().iter().map(|b| {
                let (ch, s) = (b.chance(), b.string());
                let lens = b.len() == s.len() && b.is_empty() == s.is_empty() && b.all_symbols_iter().count() == s.len();
                let c = if !lens { -9 }
                    else if ch.is_derived() && !ch.is_user_set() && ch.unwrap_or(0.125) == 0.125 && ch.unwrap_or(7.5) == 7.5 { -1 }
                    else if ch.is_user_set() && !ch.is_derived() { let v = ch.unwrap(); if v != ch.expect("set") || v != ch.unwrap_or(0.33) { -8 } else { (0..=100).find(|c| chance(*c) == v).unwrap_or(-7) } }
                    else { -6 };
                json!({"c": c, "b": names.back(s)})
            }).collect::<Vec<_>>()})
        };
        let syms = |x: &Production| {
            let v: ProductionString = x.all_symbols_iter().collect::<Vec<_>>().into();
            let by_parts: Vec<Symbol> = x.head().all_symbols_iter().chain(x.all_bodies().iter().flat_map(|b| b.all_symbols::<Vec<_>>())).collect();
            if x.all_symbols::<Vec<_>>() != by_parts || v.symbols() != &by_parts { json!(["ways differ"]) } else { names.back(&v) }
        };
        let hash = |x: &Production| { let mut h = DefaultHasher::new(); x.hash(&mut h); h.finish() };
        let hh = |x: &ProductionHead| { let mut h = DefaultHasher::new(); x.hash(&mut h); h.finish() };
        let same = self.p == self.q;
        let consistent = same == (self.q == self.p) && same == (self.p.head() == self.q.head()) && same != (self.p != self.q)
            && (!same || hash(&self.p) == hash(&self.q) && hh(self.p.head()) == hh(self.q.head()) && HashSet::from([self.p.clone()]).contains(&self.q));
        // one body alone is the body of the production
        let single = |x: &Production| x.all_bodies().len() != 1 || x.body().is_ok_and(|b| b.string() == x.all_bodies()[0].string());
        let same = if !consistent { json!("equality and hashes differ") } else if !single(&self.p) || !single(&self.q) { json!("body() is not the only body") } else { json!(same) };
        json!({"p": show(&self.p), "q": show(&self.q), "same": same, "ps": syms(&self.p), "qs": syms(&self.q)})
    }
}

pub fn replay(path: &str) {
    let mut r = Report::default();
    for (ci, case) in tlc_cases(path).enumerate() {
        let names = Names::set(ci);
        let log = case["log"].as_array().unwrap();
        running(&case["log"].to_string());
        let mut refused = vec![];
        let got = guard(|| {
            let mut t = Two::new(&names);
            for (n, o) in log.iter().enumerate() { refused.push(t.call(o["o"].as_str().unwrap(), &o["x"], &names, ci + n)) }
            t.look(&names)
        }).unwrap_or_else(|p| json!(p));
        r.cases += 1;
        if log.len() > 1 { r.nontrivial += 1 }
        let want: Vec<bool> = log.iter().map(|o| o["o"] == json!("refuse")).collect();
        r.check(|| json!({"chances refused in": log}), json!(want), json!(refused));
        r.check(|| json!({"program": log, "names": names.0.values().map(|s| s.to_string()).collect::<Vec<_>>()}), json!({"p": case["p"], "q": case["q"], "same": case["same"], "ps": case["ps"], "qs": case["qs"]}), got);
        if ci % 20_011 == 9 { r.sample(case) }
    }
    // Every chance there is reads back as it was given.
    let mut rng = Rng::from_env(111);
    for k in 0..20_000u64 {
        let c = match k % 4 { 0 => f32::from_bits(rng.next() as u32), 1 => rng.below(1 << 24) as f32 / (1 << 24) as f32, 2 => f32::from_bits(rng.below(0x3f80_0001) as u32), _ => [0.0, -0.0, 1.0, f32::MIN_POSITIVE, 1.0 - f32::EPSILON / 2.0, 1.0 + f32::EPSILON, -f32::MIN_POSITIVE, 1e-45][k as usize / 4 % 8] };
        running(&format!("try_with_chance({c})"));
        r.cases += 1;
        let got = guard(|| ProductionBody::try_with_chance(c, ProductionString::empty()).map(|b| (b.chance().unwrap(), b.chance().is_user_set())).ok());
        let want = (0.0..=1.0).contains(&c).then_some((c, true));
        let ok = matches!(&got, Ok(g) if *g == want);
        if !ok { r.mismatch(json!({"try_with_chance": format!("{c:e}")}), json!(format!("{want:?}")), json!(format!("{got:?}"))) }
        if want.is_some() {
            let got = guard(|| { let ch = Chance::new(c); (ch.unwrap(), ch.is_user_set()) });
            if got != Ok((c, true)) { r.mismatch(json!({"Chance::new": format!("{c:e}")}), json!(c), json!(format!("{got:?}"))) }
        }
    }
    r.finish();
}

pub fn record(path: &str, n: usize) {
    let mut out = Out::new(path);
    let mut r = Report::default();
    let mut rng = Rng::from_env(110);
    for ci in 0..n {
        let large = ci % 100 == 61;
        let names = if large { let mut w = Names::wide(300); let a = Symbol::build("A").unwrap(); w.0.insert("A".into(), a); w.1.insert(a, "A".into()); w } else { Names::set(rng.below(60)) };
        let mut all: Vec<String> = names.0.keys().cloned().collect();
        all.sort();
        let few = &all[..if large { all.len() } else { 2 + rng.below(4) }];
        let some = |rng: &mut Rng, n: usize| -> Vec<String> { (0..rng.below(n + 1)).map(|_| rng.pick(few).clone()).collect() };
        let deep = if large && ci % 200 != 61 { 100 } else { *rng.pick(&[3usize, 3, 20]) };
        let mut heads: Vec<Value> = vec![];
        let mut t = Two::new(&names);
        let mut h = vec![];
        for j in 0..if large { 80 } else { 30 } {
            let ctx = |rng: &mut Rng| if rng.chance(1, 2) { json!([]) } else { json!([some(rng, deep)]) };
            let hd = if heads.is_empty() || rng.chance(1, 3) { let l = ctx(&mut rng); json!({"l": l, "t": rng.pick(few), "r": ctx(&mut rng)}) } else { rng.pick(&heads).clone() };
            // or one that is not quite an earlier one
            let mut hd = hd;
            let side = if rng.chance(1, 2) { "l" } else { "r" };
            if rng.chance(1, 4) && hd[side].as_array().is_some_and(|c| !c.is_empty()) {
                let mut c = strs(&hd[side][0]);
                let at = rng.below(c.len() + 1);
                match rng.below(3) { 0 => c.insert(at, rng.pick(few).clone()), 1 if at < c.len() => { c.remove(at); }, _ if at < c.len() => c[at] = rng.pick(few).clone(), _ => {} }
                hd[side] = json!([c]);
            }
            heads.push(hd.clone());
            let bd = json!({"c": if rng.chance(1, 2) { -1 } else { rng.below(101) as i64 }, "b": some(&mut rng, 2 * deep)});
            let mut whole = hd.clone();
            whole["bs"] = json!([bd]);
            let textual = hd["l"] != json!([[]]) && hd["r"] != json!([[]]);
            let grow = large && ci % 200 == 61 && j > 0;
            let (o, x) = match if grow { *rng.pick(&[4usize, 4, 6, 7, 8, 8, 8, 9, 5]) } else { rng.below(10) } {
                0 | 1 => ("make", whole), 2 | 3 if textual => ("parse", whole), 4 if t.p.all_bodies().len() < 300 => ("merge", json!(0)),
                5 => ("refuse", json!({"c": *rng.pick(&["below", "above", "nan", "infinite"]), "b": bd["b"]})), 6 => ("copy", json!(0)), 7 => ("swap", json!(0)), _ => ("add", bd),
            };
            running(&format!("{o} {x}"));
            let mut ev = match guard(|| { let f = t.call(o, &x, &names, j + rng.below(100)); let mut v = t.look(&names); v["refused"] = json!(f); v }) {
                Ok(v) => v, Err(p) => { r.mismatch(json!({"operation": o, "with": x, "after": h}), json!("no panic"), json!(p)); break }
            };
            if !ev["same"].is_boolean() { r.mismatch(json!({"operation": o, "with": x}), json!("agreeing answers"), ev["same"].clone()); break }
            ev["o"] = json!(o);
            ev["x"] = x;
            h.push(ev);
        }
        r.cases += 1;
        r.nontrivial += 1;
        if ci % 41 == 7 && !large { r.sample(json!(&h[..4.min(h.len())])) }
        out.put(json!({"h": h}));
    }
    r.finish();
}
