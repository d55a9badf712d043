//! C28: production strings and paths as plain values.
use crate::util::*;
use rusty_systems::geometry::{Path, Point, Vector};
use rusty_systems::prelude::*;
use rusty_systems::symbols::iterator::SymbolIterable;
use serde_json::{json, Value};
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeSet, HashSet};
use std::hash::{Hash, Hasher};

/// What a program does with one kind of sequence.
trait Seq: Clone {
    fn fresh(k: usize) -> Self;
    fn of(x: &[String], e: &Elems) -> Self;
    fn one(x: &str, e: &Elems) -> Self;
    fn put(&mut self, x: &str, e: &Elems, k: usize);
    fn again(self, k: usize) -> Self;
    /// Read in every way there is; all of them have to agree.
    fn read(&self, e: &Elems) -> Value;
    fn same(&self, o: &Self) -> bool;
}
/// What the elements of the specification stand for.
struct Elems { names: Vec<String>, syms: Vec<Symbol>, points: Vec<(f64, f64)> }
impl Elems {
    fn of(names: &[&str], k: usize) -> Elems {
        let set: Vec<Symbol> = (0..names.len()).map(|i| match (names[i], k % 4) {
            ("U", _) => Symbol::from_code(4_000_000_000 + k as u32 % 7),
            (n, 0) => Symbol::build(n).unwrap(), (_, 1) => Symbol::build(format!("é {i}")).unwrap(),
            (_, 2) => Symbol::build(format!("a name that is long enough for every buffer, {i}")).unwrap(), _ => Symbol::build(["[", "+", "->", "<", "\u{1F331}"][i % 5].to_string() + &"+".repeat(i / 5)).unwrap(),
        }).collect();
        let points = (0..names.len()).map(|i| match k % 5 { 0 => (i as f64, -(i as f64)), 3 => ([f64::INFINITY, 1.0, -0.0, f64::MAX, 0.0, f64::NEG_INFINITY][i % 6], i as f64), 4 => (f64::MIN_POSITIVE * i as f64, [f64::NEG_INFINITY, f64::INFINITY, -0.0, f64::EPSILON, f64::MIN][i % 5]), 1 => (0.1 * i as f64, 1e300 / (1 + i) as f64), _ => (-1e-300 * i as f64, i as f64 * 1e9) }).collect();
        Elems { names: names.iter().map(|s| s.to_string()).collect(), syms: set, points }
    }
    fn at(&self, n: &str) -> usize { self.names.iter().position(|x| x == n).unwrap() }
    fn sym(&self, s: &Symbol) -> String { self.syms.iter().position(|x| x.code() == s.code()).map(|i| self.names[i].clone()).unwrap_or_else(|| format!("?{}", s.code())) }
    fn point(&self, p: &Point) -> String { self.points.iter().position(|x| x.0.to_bits() == p.x().to_bits() && x.1.to_bits() == p.y().to_bits()).map(|i| self.names[i].clone()).unwrap_or_else(|| format!("?{p}")) }
}
fn agree(ways: Vec<(&str, Vec<String>)>) -> Value {
    if let Some(w) = ways.iter().find(|w| w.1 != ways[0].1) { return json!([format!("{} reads {:?} where {} reads {:?}", w.0, w.1, ways[0].0, ways[0].1)]) }
    json!(ways[0].1)
}

impl Seq for ProductionString {
    fn fresh(k: usize) -> Self { match k % 4 { 0 => Self::new(), 1 => Self::empty(), 2 => Self::default(), _ => Self::from(vec![]) } }
    fn of(x: &[String], e: &Elems) -> Self { x.iter().map(|n| e.syms[e.at(n)]).collect::<Vec<_>>().into() }
    fn one(x: &str, e: &Elems) -> Self { e.syms[e.at(x)].into() }
    fn put(&mut self, x: &str, e: &Elems, _: usize) { self.push_symbol(e.syms[e.at(x)]) }
    fn again(self, k: usize) -> Self {
        match k % 5 { 0 => self.iter().cloned().collect::<Vec<_>>().into(), 1 => (&self).into_iter().collect::<Vec<_>>().into(), 2 => self.all_symbols::<Vec<_>>().into(), 3 => self.symbols().clone().into(), _ => self.into_iter().collect::<Vec<_>>().into() }
    }
    fn read(&self, e: &Elems) -> Value {
        let list = |v: Vec<Symbol>| v.iter().map(|s| e.sym(s)).collect::<Vec<_>>();
        let mut ways = vec![("iter", list(self.iter().cloned().collect())), ("a reference's into_iter", list(self.into_iter().collect())), ("into_iter", list(self.clone().into_iter().collect())),
            ("symbols", list(self.symbols().to_vec())), ("all_symbols_iter", list(self.all_symbols_iter().collect())), ("all_symbols", list(self.all_symbols())),
            ("index", list((0..self.len()).map(|i| self[i]).collect())), ("backwards", list({ let mut v: Vec<_> = self.iter().rev().cloned().collect(); v.reverse(); v }))];
        let n = self.len();
        if self.is_empty() != (n == 0) || self.iter().len() != n { ways.push(("is_empty", vec!["something else".into()])) }
        let distinct: BTreeSet<String> = ways[0].1.iter().cloned().collect();
        let set: HashSet<Symbol> = self.all_symbols();
        if set.len() != distinct.len() { ways.push(("all_symbols into a set", vec![format!("{} symbols", set.len())])) }
        let text = ways[0].1.iter().map(|x| match e.names.iter().position(|y| y == x) { Some(i) => { let s = &e.syms[i]; s.name().unwrap_or(format!("code:{}", s.code())) } None => x.clone() }).collect::<Vec<_>>().join(" ");
        if self.to_string() != text { ways.push(("to_string", vec![self.to_string(), text])) }
        agree(ways)
    }
    fn same(&self, o: &Self) -> bool {
        let h = |s: &Self| { let mut h = DefaultHasher::new(); s.hash(&mut h); h.finish() };
        let eq = self == o;
        // (equal strings have equal hashes: otherwise neither answer is right)
        if eq != (o == self) || (self != o) == eq || (eq && h(self) != h(o)) { return !self.symbols().eq(o.symbols()) }
        if eq && HashSet::from([self.clone()]).get(o).is_none() { return false }
        eq
    }
}

impl Seq for Path {
    fn fresh(k: usize) -> Self { match k % 3 { 0 => Self::new(), 1 => Self::default(), _ => Vec::<Point>::new().into_iter().collect() } }
    fn of(x: &[String], e: &Elems) -> Self { x.iter().map(|n| { let p = e.points[e.at(n)]; Point::new(p.0, p.1) }).collect() }
    fn one(x: &str, e: &Elems) -> Self { let mut p = Path::new(); p.put(x, e, 1); p }
    fn put(&mut self, x: &str, e: &Elems, k: usize) { let p = e.points[e.at(x)]; if k % 2 == 0 { self.push(Point::new(p.0, p.1)) } else { self.push(Vector::new(p.0, p.1)) } }
    fn again(self, k: usize) -> Self { if k % 2 == 0 { self.iter().cloned().collect() } else { self.into_iter().collect() } }
    fn read(&self, e: &Elems) -> Value {
        let list = |v: Vec<Point>| v.iter().map(|s| e.point(s)).collect::<Vec<_>>();
        let mut ways = vec![("iter", list(self.iter().cloned().collect())), ("into_iter", list(self.clone().into_iter().collect())), ("index", list((0..self.len()).map(|i| self[i]).collect())),
            ("get", list((0..self.len()).map(|i| *self.get(i).unwrap_or(&Point::new(f64::NAN, 0.0))).collect()))];
        let n = self.len();
        if self.is_empty() != (n == 0) || self.get(n).is_some() || self.get(usize::MAX).is_some() { ways.push(("is_empty, or get after the end", vec!["something else".into()])) }
        if self.get_start().map(|p| e.point(p)) != ways[0].1.first().cloned() { ways.push(("get_start", vec![format!("{:?}", self.get_start())])) }
        agree(ways)
    }
    fn same(&self, o: &Self) -> bool { self.len() == o.len() && self.iter().zip(o.iter()).all(|(p, q)| p.x().to_bits() == q.x().to_bits() && p.y().to_bits() == q.y().to_bits()) }
}

struct Two<S: Seq>(S, S);
impl<S: Seq> Two<S> {
    fn call(&mut self, o: &str, x: &[String], e: &Elems, k: usize) {
        match o {
            "fresh" => self.0 = S::fresh(k),
            "of" => self.0 = S::of(x, e),
            "one" => self.0 = S::one(&x[0], e),
            "push" => self.0.put(&x[0], e, k),
            "again" => self.0 = std::mem::replace(&mut self.0, S::fresh(0)).again(k),
            "copy" => if k % 2 == 0 { self.1 = self.0.clone() } else { self.1.clone_from(&self.0) },
            "move" => self.1 = std::mem::replace(&mut self.0, S::fresh(k)),
            "swap" => std::mem::swap(&mut self.0, &mut self.1),
            o => panic!("unknown operation {o}"),
        }
    }
    fn look(&self, e: &Elems) -> Value { json!({"a": self.0.read(e), "b": self.1.read(e), "same": self.0.same(&self.1)}) }
}

fn one_case<S: Seq>(r: &mut Report, what: &str, case: &Value, k: usize) {
    let e = Elems::of(&["A", "B", "U"], k);
    let log = case["log"].as_array().unwrap();
    running(&format!("{what} {}", case["log"]));
    let got = guard(|| {
        let mut t = Two(S::fresh(0), S::fresh(1));
        for (n, o) in log.iter().enumerate() { t.call(o["o"].as_str().unwrap(), &strs(&o["x"]), &e, k + n) }
        t.look(&e)
    }).unwrap_or_else(|p| json!(p));
    r.cases += 1;
    if log.len() > 1 { r.nontrivial += 1 }
    r.check(|| json!({"a": what, "program": log, "names": e.syms.iter().map(|s| s.to_string()).collect::<Vec<_>>()}), json!({"a": case["a"], "b": case["b"], "same": case["same"]}), got);
}

pub fn replay(path: &str) {
    let mut r = Report::default();
    for (ci, case) in tlc_cases(path).enumerate() {
        one_case::<ProductionString>(&mut r, "production string", &case, ci);
        one_case::<Path>(&mut r, "path", &case, ci);
        if ci % 20_011 == 9 { r.sample(case) }
    }
    r.finish();
}

fn history<S: Seq>(rng: &mut Rng, large: bool) -> (Vec<Value>, bool) {
    let size = if large { 200 } else { 1 + rng.below(12) };
    let names: Vec<String> = (0..size).map(|i| if i == 0 { "U".into() } else { format!("E{i}") }).collect();
    let refs: Vec<&str> = names.iter().map(|s| s.as_str()).collect();
    let e = Elems::of(&refs, rng.below(1000));
    let mut t = Two(S::fresh(0), S::fresh(1));
    let mut h = vec![];
    for n in 0..if large { 40 } else { 60 } {
        let some: Vec<String> = (0..rng.below(if large { 500 } else { 40 })).map(|_| rng.pick(&names).clone()).collect();
        let (o, x) = match rng.below(12) { 0 => ("fresh", vec![]), 1 | 2 => ("of", some), 3 => ("one", vec![rng.pick(&names).clone()]), 4 => ("again", vec![]), 5 => ("copy", vec![]), 6 => ("move", vec![]), 7 => ("swap", vec![]), _ => ("push", vec![rng.pick(&names).clone()]) };
        // (now and then what the other one is, but for one place)
        let other: Vec<String> = h.last().map(|e: &Value| strs(&e["b"])).unwrap_or_default();
        let (o, x) = if !other.is_empty() && other.iter().all(|n| names.contains(n)) && rng.chance(1, 6) {
            let mut x = other;
            let k = rng.below(x.len());
            match rng.below(4) { 0 => x[k] = rng.pick(&names).clone(), 1 => { x.remove(k); } 2 => { let l = rng.below(x.len()); x.swap(k, l) } _ => {} }
            ("of", x)
        } else { (o, x) };
        running(&format!("{o} {x:?}"));
        let mut ev = match guard(|| { t.call(o, &x, &e, n + rng.below(100)); t.look(&e) }) { Ok(v) => v, Err(p) => json!({"a": [p], "b": [], "same": false}) };
        ev["o"] = json!(o);
        ev["x"] = json!(x);
        let died = ev["a"].to_string().contains("panic");
        h.push(ev);
        if died { break }
    }
    (h, large)
}

pub fn record(path: &str, n: usize) {
    let mut out = Out::new(path);
    let mut r = Report::default();
    let mut rng = Rng::from_env(100);
    for ci in 0..n {
        let large = ci % 40 < 2;
        let (h, large) = if ci % 2 == 0 { history::<ProductionString>(&mut rng, large) } else { history::<Path>(&mut rng, large) };
        r.cases += 1;
        r.nontrivial += 1;
        if ci % 41 == 7 && !large { r.sample(json!(&h[..5.min(h.len())])) }
        out.put(json!({"kind": if ci % 2 == 0 { "production string" } else { "path" }, "h": h}));
    }
    r.finish();
}
