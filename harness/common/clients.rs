//! Concurrent client programs, the same for the scheduled and the free-running build.
//! A program is a list of threads, each a list of calls; running it records the history
//! of invocations and returns in one total order.
use crate::host;
use rusty_systems::interpretation::abop::AbopTurtleInterpretation;
use rusty_systems::interpretation::Interpretation;
use rusty_systems::parser::{parse_prod_string, parse_production};
use rusty_systems::prelude::*;
use rusty_systems::productions::{Production, ProductionStore};
use rusty_systems::symbols::{get_code, get_name, SymbolStore};
use rusty_systems::system::family::{self, get_family, get_or_init_family, SystemFamily};
use serde_json::{json, Map, Value};
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};

pub type Body = Box<dyn FnOnce() + Send>;

/// What is known about the process from earlier executions.
#[derive(Default)]
pub struct World {
    pub exec: u64,
    /// Codes given in earlier executions, with their names.
    pub known: HashMap<u32, String>,
    pub fresh: bool,
}

/// A result as it was returned. It is read only after the execution, so that reading it
/// adds no steps to the schedule.
enum Got { V(Value), Symbol(Symbol), Text(ProductionString), Rule(Production), Sys(System) }
enum Prepared { No, Text(ProductionString), Rule(Production) }

struct Shared {
    tag: String,
    sys: Vec<System>,
    codes: Mutex<HashMap<String, u32>>,
    guess: Vec<u32>,
    log: Mutex<Vec<(usize, bool, Map<String, Value>, Option<Got>)>>,
    variant: u64,
}
pub struct Running { shared: Arc<Shared>, ops: Vec<(usize, Value)> }

fn s<'a>(op: &'a Value, k: &str) -> &'a str { op[k].as_str().unwrap_or("") }
const PADS: &[(&str, &str)] = &[("", ""), (" ", ""), ("", "\t"), ("\n ", "\u{2003}"), ("\u{a0}", " ")];

impl Shared {
    fn name(&self, n: &str) -> String { format!("{n}{}", self.tag) }
    fn unname(&self, n: &str) -> String { n.strip_suffix(self.tag.as_str()).map(|x| x.to_string()).unwrap_or_else(|| format!("?{n}")) }
    fn text(&self, t: &str) -> String { t.split(' ').map(|w| if w.chars().all(|c| c.is_ascii_alphabetic()) { self.name(w) } else { w.to_string() }).collect::<Vec<_>>().join(" ") }
    fn untext(&self, t: &ProductionString) -> String { t.symbols().iter().map(|y| self.unname(&get_name(y.code()).unwrap_or_else(|| "?".into()))).collect::<Vec<_>>().join(" ") }
    fn code_of(&self, n: &str) -> u32 {
        match n { "1" => self.guess[0], "2" => self.guess[1], _ => self.codes.lock().unwrap().get(n).copied().unwrap_or(self.guess[if n == "x" { 0 } else { 1 }]) }
    }
    fn read(&self, g: Got) -> Value {
        match g {
            Got::V(v) => v,
            Got::Symbol(y) => json!(self.unname(&get_name(y.code()).unwrap_or_default())),
            Got::Text(t) => json!(self.untext(&t)),
            Got::Rule(p) => self.bodies(&p),
            Got::Sys(y) => json!((1..100).find(|c| y.get_symbol(&format!("T{c}")).is_some()).unwrap_or(-1)),
        }
    }
    /// What a call's caller has at hand before the race.
    fn prepared(&self, k: usize, op: &Value) -> Prepared {
        match s(op, "o") {
            "der" => parse_prod_string(&self.text(s(op, "a"))).map(Prepared::Text).unwrap_or(Prepared::No),
            "addp" if (self.variant as usize + k) % 2 == 1 => parse_production(&self.text(s(op, "p"))).map(Prepared::Rule).unwrap_or(Prepared::No),
            _ => Prepared::No,
        }
    }
    fn bodies(&self, p: &Production) -> Value { Value::Array(p.all_bodies().iter().map(|b| json!(self.untext(b.string()))).collect()) }
    fn content(&self, c: i64) -> rusty_systems::system::family::Builder { SystemFamily::define().with_terminal(format!("T{c}"), None).with_production("P", Some("d")) }
    fn content_of(f: &SystemFamily) -> i64 { f.terminals().next().and_then(|t| t.name[1..].parse().ok()).unwrap_or(-1) }

    /// Carries out one call. Fills in what the call was given (`given`) and returns its result.
    fn call(self: &Arc<Self>, k: usize, op: &Value, given: &mut Map<String, Value>, pre: Prepared) -> Got {
        let v = self.variant as usize + k;
        let sys = || &self.sys[op["s"].as_u64().unwrap_or(0) as usize];
        Got::V(match s(op, "o") {
            // ---- the symbol registry
            "get" => {
                let n = s(op, "n");
                let raw = if n == "blank" { ["", " ", "\t\n", "\u{2003}"][v % 4].to_string() } else { let p = PADS[v % PADS.len()]; format!("{}{}{}", p.0, self.name(n), p.1) };
                let r = match v % 6 {
                    0 => Symbol::build(&raw).map(|y| y.code()),
                    1 => Symbol::try_from(raw.as_str()).map(|y| y.code()),
                    2 => Symbol::try_from(raw).map(|y| y.code()),
                    3 => raw.parse::<Symbol>().map(|y| y.code()),
                    4 if !self.sys.is_empty() => self.sys[0].add_symbol(raw.as_str()).map(|y| y.code()),
                    _ => get_code(&raw),
                };
                match r { Ok(c) => { self.codes.lock().unwrap().insert(n.to_string(), c); json!(c) } Err(_) => json!(0) }
            }
            "name" | "guess" => {
                let c = self.code_of(s(op, "n"));
                given.insert("c".into(), json!(c));
                let r = match v % 4 {
                    0 => get_name(c),
                    1 => Symbol::from_code(c).name(),
                    2 => { let t = Symbol::from_code(c).to_string(); if t == format!("code:{c}") { None } else { Some(t) } }
                    // A checked symbol, whose name is then there.
                    _ => match Symbol::try_from(c) { Err(_) => None, Ok(y) => Some(y.name().unwrap_or_else(|| "?nameless".into())) },
                };
                match r { None => json!("none"), Some(t) => json!(self.unname(&t)) }
            }
            // ---- a system
            "addp" => {
                let r = match pre { Prepared::Rule(p) => sys().add_production(p), _ => sys().add_production(self.text(s(op, "p")).as_str()) };
                match r { Ok(p) => return Got::Rule(p), Err(_) => json!(["error"]) }
            }
            "adds" => {
                let n = self.name(s(op, "n"));
                let r = if v % 2 == 0 { sys().add_symbol(n.as_str()) } else { Symbol::build(&n).and_then(|y| sys().add_symbol(y)) };
                match r { Ok(y) => return Got::Symbol(y), Err(_) => json!("error") }
            }
            "gets" => match sys().get_symbol(&self.name(s(op, "n"))) { Some(y) => return Got::Symbol(y), None => json!("none") },
            "slen" => json!(sys().symbol_len()),
            "plen" => json!(sys().production_len()),
            "der" => {
                let n = op["i"].as_u64().unwrap_or(1) as usize;
                let Prepared::Text(a) = pre else { return Got::V(json!("no axiom")) };
                let r = if n == 1 && v % 2 == 0 { sys().derive_once(a) } else { sys().derive(a, RunSettings::for_max_iterations(n)) };
                match r { Ok(t) => return Got::Text(t), Err(_) => json!("error") }
            }
            "show" => { let _ = format!("{:?}", sys()); json!("done") }
            // ---- the family registry
            "reg" => {
                let (n, c) = (self.name(s(op, "n")), op["c"].as_i64().unwrap());
                let r = if v % 2 == 0 { self.content(c).register(&n) } else { self.content(c).build(&n).and_then(family::register) };
                match r { Ok(a) => json!(Self::content_of(&a)), Err(_) => json!(0) }
            }
            "getf" => json!(get_family(self.name(s(op, "n"))).map(|a| Self::content_of(&a)).unwrap_or(0)),
            "has" => json!(family::family_exists(self.name(s(op, "n"))) as u32),
            "init" => {
                let (n, c) = (self.name(s(op, "n")), op["c"].as_i64().unwrap());
                let mut ran = false;
                let sym = op["y"] == json!(1);
                let a = get_or_init_family(&n, || {
                    ran = true;
                    host::step();
                    // Initialisers may use the symbols, as the turtle's does when its system is made.
                    if sym { let _ = get_code(&self.name("I")); }
                    self.content(c).build(&n).unwrap()
                });
                given.insert("ran".into(), json!(ran));
                json!(Self::content_of(&a))
            }
            "of" => {
                let n = self.name(s(op, "n"));
                let r = if v % 2 == 0 { System::of_family(n.as_str()) } else { System::of_family(n) };
                match r { Ok(y) => return Got::Sys(y), Err(_) => json!(0) }
            }
            "abop" => match AbopTurtleInterpretation::system() { Ok(y) => json!(y.symbol_len()), Err(_) => json!("error") },
            o => panic!("unknown call {o}"),
        })
    }
}

/// The threads of a program, and what is needed to read its history afterwards.
/// Extra calls (`after`) are made one after the other when all threads have ended.
pub fn prepare(w: &mut World, program: &Value) -> (Vec<Body>, Running) {
    w.exec += 1;
    let guess = if w.fresh { vec![100, 101] } else {
        let base = get_code(&format!("base{}", w.exec)).unwrap_or(0);
        w.known.insert(base, format!("base{}", w.exec));
        let mut g = vec![];
        let mut c = base;
        while g.len() < 2 { c = c.wrapping_add(1); if !w.known.contains_key(&c) { g.push(c) } }
        g
    };
    let nsys = program["sys"].as_u64().unwrap_or(0) as usize;
    let sh = Arc::new(Shared {
        // Letters, so that the names are symbols to the production parser as well.
        tag: if w.fresh { "F".into() } else { let mut t = String::from("N"); let mut e = w.exec; while e > 0 { t.push((b'a' + (e % 26) as u8) as char); e /= 26 } t },
        sys: (0..nsys).map(|_| System::new()).collect(),
        codes: Mutex::new(HashMap::new()),
        guess,
        log: Mutex::new(vec![]),
        variant: program["variant"].as_u64().unwrap_or(w.exec),
    });
    // Calls that set the scene: not part of the race.
    let mut ops: Vec<(usize, Value)> = vec![];
    for op in program["pre"].as_array().into_iter().flatten() { ops.push((0, op.clone())); let k = ops.len() - 1; let pre = sh.prepared(k, op); one(&sh, k, op, pre) }
    let mut bodies: Vec<Body> = vec![];
    for (t, th) in program["threads"].as_array().expect("threads").iter().enumerate() {
        let mut mine = vec![];
        for op in th.as_array().unwrap() { mine.push((ops.len(), op.clone(), sh.prepared(ops.len(), op))); ops.push((t + 1, op.clone())); }
        let sh = sh.clone();
        bodies.push(Box::new(move || { host::seed(t as u64 + 1); for (k, op, pre) in mine { host::step(); one(&sh, k, &op, pre) } }));
    }
    (bodies, Running { shared: sh, ops })
}
fn one(sh: &Arc<Shared>, k: usize, op: &Value, pre: Prepared) {
    sh.log.lock().unwrap().push((k, true, Map::new(), None));
    let mut given = Map::new();
    let r = catch_unwind(AssertUnwindSafe(|| sh.call(k, op, &mut given, pre))).unwrap_or_else(|_| Got::V(match s(op, "o") {
        "addp" => json!(["panic"]),
        "name" | "guess" | "adds" | "gets" | "der" | "show" => json!("panic"),
        _ => json!(-1),
    }));
    sh.log.lock().unwrap().push((k, false, given, Some(r)));
}

impl Running {
    /// Makes the final calls and returns the history. Calls that never returned have no "r".
    pub fn history(mut self, w: &mut World, program: &Value, ended: bool) -> Value {
        if ended {
            for op in program["after"].as_array().into_iter().flatten() {
                self.ops.push((0, op.clone()));
                let k = self.ops.len() - 1;
                let pre = self.shared.prepared(k, op);
                one(&self.shared, k, op, pre);
            }
        }
        let log = std::mem::take(&mut *self.shared.log.lock().unwrap());
        // Codes are renamed in the order in which they appear.
        let mut ids: HashMap<u32, usize> = HashMap::new();
        let mut given: HashMap<u32, String> = HashMap::new();
        let mut pre: Vec<Value> = vec![];
        let mut id = |c: u64, w: &World, pre: &mut Vec<Value>| -> usize {
            let c = c as u32;
            let n = ids.len() + 1;
            *ids.entry(c).or_insert_with(|| { if let Some(o) = w.known.get(&c) { pre.push(json!([n, format!("old {o}")])) } n })
        };
        let mut ops: Vec<Value> = self.ops.iter().map(|(t, o)| { let mut o = o.clone(); o["t"] = json!(t); o }).collect();
        let mut number: HashMap<usize, usize> = HashMap::new();
        let mut sorted: Vec<Value> = vec![];
        let mut ev = vec![];
        for (k, inv, mut g, got) in log {
            if inv {
                number.insert(k, number.len() + 1);
                ev.push(number[&k] as i64);
                sorted.push(ops[k].take());
            } else {
                let o = &mut sorted[number[&k] - 1];
                g.insert("r".into(), self.shared.read(got.unwrap()));
                for (a, b) in &g { o[a.as_str()] = b.clone() }
                if s(o, "o") == "get" { if let Some(c) = o["r"].as_u64().filter(|c| *c > 0) { given.insert(c as u32, self.shared.name(s(o, "n"))); o["r"] = json!(id(c, w, &mut pre)) } }
                if o["c"].is_u64() && (s(o, "o") == "name" || s(o, "o") == "guess") { o["c"] = json!(id(o["c"].as_u64().unwrap(), w, &mut pre)) }
                ev.push(-(number[&k] as i64));
            }
        }
        for (c, n) in given { w.known.entry(c).or_insert(n); }
        json!({"ops": sorted, "ev": ev, "pre": pre})
    }
    /// The calls that were made and have not returned.
    pub fn pending(&self) -> Vec<Value> {
        let log = self.shared.log.lock().unwrap_or_else(|e| e.into_inner());
        log.iter().filter(|(k, inv, ..)| *inv && !log.iter().any(|(j, i, ..)| j == k && !i)).map(|(k, ..)| json!({"thread": self.ops[*k].0, "call": self.ops[*k].1})).collect()
    }
}
