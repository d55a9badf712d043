//! C32: interpretations and run settings hold what they were made with
//! (src/interpretation.rs, src/interpretation/abop.rs, src/interpretation/svg.rs, src/system.rs).
use crate::util::*;
use rusty_systems::geometry::{Path, Point};
use rusty_systems::interpretation::abop::{AbopSvgInterpretation, AbopTurtleInterpretation};
use rusty_systems::interpretation::svg::{Svg, SvgElement, SvgPathInterpretation};
use rusty_systems::interpretation::{Interpretation, NullInterpretation};
use rusty_systems::prelude::{ProductionString, RunSettings, System};
use rusty_systems::symbols::SymbolStore;
use serde_json::{json, Value};

/// An interpretation that says nothing about how to derive, and one that does.
#[derive(Debug, Clone, Default)]
struct Own;
#[derive(Debug, Clone)]
struct Saying(usize);
impl Default for Saying { fn default() -> Self { Saying(3) } }
fn corner() -> Vec<Path> { vec![[Point::new(0.0, 0.0), Point::new(1.0, 0.0), Point::new(1.0, 2.0)].into_iter().collect()] }
fn own_system() -> rusty_systems::Result<System> { let s = System::new(); s.add_symbol("Own")?; Ok(s) }
impl Interpretation for Own {
    type Item = Vec<Path>;
    fn system() -> rusty_systems::Result<System> { own_system() }
    fn interpret<S: SymbolStore>(&self, _: &S, _: &ProductionString) -> rusty_systems::Result<Vec<Path>> { Ok(corner()) }
}
impl Interpretation for Saying {
    type Item = Vec<Path>;
    fn system() -> rusty_systems::Result<System> { own_system() }
    fn interpret<S: SymbolStore>(&self, _: &S, _: &ProductionString) -> rusty_systems::Result<Vec<Path>> { Ok(corner()) }
    fn run_settings(&self) -> RunSettings { RunSettings::for_max_iterations(self.0) }
}

#[derive(Clone)]
enum It { Turtle(AbopTurtleInterpretation), Own(Own), Saying(Saying), Null(NullInterpretation), DTurtle(AbopSvgInterpretation), DOwn(SvgPathInterpretation<Own>), DSaying(SvgPathInterpretation<Saying>) }

/// What the names of numbers stand for.
struct Means { k: usize }
impl Means {
    fn number(&self, t: &str) -> usize {
        match t {
            "zero" => 0, "three" => 3, "five" => 5, "ten" => 10, "fivehundred" => 500,
            "many" => [7, 1, 65536, 255, 1 << 40, usize::MAX, 11, 1000][self.k % 8],
            "some" => [640, 2, 499, 1025, 77777, 1 << 33][self.k % 6],
            _ => t[1..].parse().expect("number"),
        }
    }
    fn shown(&self, v: usize) -> String { ["zero", "three", "five", "ten", "fivehundred", "many", "some"].iter().find(|t| self.number(t) == v && (self.k != usize::MAX || !matches!(**t, "many" | "some"))).map_or(format!("u{v}"), |t| t.to_string()) }
    fn angle(&self, t: &str) -> f32 {
        match t {
            "a22.5" => 22.5,
            "right" => [90.0, -90.0, 120.0, 89.99999, -135.0, 725.5, -400.25][self.k % 7],
            "small" => [0.5, -1.25, 25.714, 0.0078125, 7.0, 360.5][self.k % 6],
            _ => f32::from_bits(u32::from_str_radix(&t[1..], 16).expect("bits")),
        }
    }
    fn angle_shown(&self, v: f32) -> String { if v == 22.5 { return "a22.5".into() } if self.k == usize::MAX { return format!("b{:08x}", v.to_bits()) } ["right", "small"].iter().find(|t| self.angle(t) == v).map_or(format!("{v}"), |t| t.to_string()) }
    /// The name of the angle that was measured, if it is one of those that it can be.
    fn measured(&self, v: f64, candidates: &[f32]) -> String { candidates.iter().find(|c| apart(v, **c as f64) < 1e-9).map_or(format!("{v}"), |c| self.angle_shown(*c)) }
}

/// How far two angles are apart on the circle.
fn apart(a: f64, b: f64) -> f64 { let d = (a - b).rem_euclid(360.0); d.min(360.0 - d) }
fn turn(p: &[(f64, f64)]) -> f64 {
    if p.len() != 3 { return f64::NAN }
    let (a, b) = ((p[1].0 - p[0].0, p[1].1 - p[0].1), (p[2].0 - p[1].0, p[2].1 - p[1].1));
    (a.0 * b.1 - a.1 * b.0).atan2(a.0 * b.0 + a.1 * b.1).to_degrees()
}
/// The first value of an attribute after the beginning of a tag.
fn attribute(text: &str, tag: &str, name: &str) -> Option<String> {
    let t = &text[text.find(&format!("<{tag}"))?..];
    let t = &t[..t.find('>')?];
    let mut from = 0;
    while let Some(i) = t[from..].find(name) {
        let (before, after) = (&t[..from + i], t[from + i + name.len()..].trim_start());
        if before.ends_with(char::is_whitespace) && after.starts_with('=') {
            let v = after[1..].trim_start();
            let q = v.chars().next()?;
            return v[1..].split(q).next().map(|s| s.to_string());
        }
        from += i + name.len();
    }
    None
}
fn points(text: &str) -> Vec<(f64, f64)> {
    let d = attribute(text, "path", "d").unwrap_or_default();
    let n: Vec<f64> = d.split(|c: char| c.is_ascii_alphabetic() && c != 'e' && c != 'E' || c.is_whitespace() || c == ',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap_or(f64::NAN)).collect();
    n.chunks(2).map(|c| (c[0], *c.get(1).unwrap_or(&f64::NAN))).collect()
}
fn canvas(m: &Means, d: &Svg) -> Value {
    let t = d.to_svg();
    json!(["width", "height"].iter().map(|a| attribute(&t, "svg", a).and_then(|v| v.parse().ok()).map_or("?".into(), |v| m.shown(v))).collect::<Vec<_>>())
}

struct World { it: It, other: It, rs: RunSettings }
impl World {
    fn new() -> Self { World { it: It::Turtle(AbopTurtleInterpretation::default()), other: It::Null(NullInterpretation::default()), rs: RunSettings::default() } }
    fn call(&mut self, o: &str, x: &Value, m: &Means, k: usize) {
        let num = |v: &Value| m.number(v.as_str().expect("number"));
        let s = || x.as_str().expect("name");
        match o {
            "default" => self.it = match s() { "turtle" => It::Turtle(Default::default()), "own" => It::Own(Own), "saying" => It::Saying(Saying::default()), _ => It::Null(NullInterpretation::default()) },
            "turtle" => self.it = It::Turtle(AbopTurtleInterpretation::new(num(&x["n"]), m.angle(x["d"].as_str().unwrap()))),
            "saying" => self.it = It::Saying(Saying(num(x))),
            "wrap" => {
                let (w, h) = (num(&x["w"]), num(&x["h"]));
                self.it = match self.it.clone() { It::Turtle(t) => It::DTurtle(SvgPathInterpretation::new_with(w, h, t)), It::Own(t) => It::DOwn(SvgPathInterpretation::new_with(w, h, t)), It::Saying(t) => It::DSaying(SvgPathInterpretation::new_with(w, h, t)), _ => panic!("nothing to wrap") };
            }
            "sized" => {
                let (w, h) = (num(&x["w"]), num(&x["h"]));
                self.it = match x["of"].as_str().unwrap() { "turtle" => It::DTurtle(AbopSvgInterpretation::new(w, h)), "own" => It::DOwn(SvgPathInterpretation::new(w, h)), _ => It::DSaying(SvgPathInterpretation::new(w, h)) };
            }
            "unsized" => self.it = match s() { "turtle" => It::DTurtle(Default::default()), "own" => It::DOwn(Default::default()), _ => It::DSaying(Default::default()) },
            "copy" => self.other = self.it.clone(),
            "swap" => std::mem::swap(&mut self.it, &mut self.other),
            "take" => self.rs = match &self.it { It::Turtle(t) => t.run_settings(), It::Own(t) => t.run_settings(), It::Saying(t) => t.run_settings(), It::Null(t) => t.run_settings(), It::DTurtle(t) => t.run_settings(), It::DOwn(t) => t.run_settings(), It::DSaying(t) => t.run_settings() },
            "runs" => self.rs = RunSettings::default(),
            "for" => self.rs = match k % 3 { 0 => RunSettings::for_max_iterations(num(x)), 1 => RunSettings::from(num(x)), _ => num(x).into() },
            "set" => if k % 2 == 0 { self.rs.max_iterations = num(x) } else { #[allow(clippy::needless_update)] { self.rs = RunSettings { max_iterations: num(x), ..self.rs.clone() } } },
            o => panic!("unknown operation {o}"),
        }
    }
    fn seen(&self, m: &Means, angles: &[f32]) -> Value { json!([see(&self.it, m, angles), see(&self.other, m, angles), m.shown(self.rs.clone().max_iterations)]) }
}

fn see(it: &It, m: &Means, angles: &[f32]) -> Value {
    fn paths_turn(p: &[Path]) -> f64 { if p.len() == 1 { turn(&p[0].iter().map(|q| (q.x(), q.y())).collect::<Vec<_>>()) } else { f64::NAN } }
    fn common<T: Interpretation>(t: &T, m: &Means, string: &ProductionString) -> (T::Item, T::Item, Value) {
        let system = T::system().expect("system");
        let mut names: Vec<&str> = ["[", "]", "+", "-", "Forward", "Move", "X", "Own", "other", "F"].into_iter().filter(|n| system.get_symbol(n).is_some()).collect();
        if names.len() != system.symbol_len() { names.push("and others") }
        names.sort();
        let a = t.interpret(&system, string).expect("drawing");
        let b = T::default_interpret(&system, string).expect("drawing");
        (a, b, json!({"runs": m.shown(t.run_settings().max_iterations), "alphabet": names, "productions": system.production_len()}))
    }
    let string: ProductionString = "Forward + Forward".parse().expect("string");
    let nothing = json!([]);
    let full = |of: &str, n: Value, d: Value, size: Value, drawn: Value, canvas: Value, by_default: Value, drawn_by_default: Value, c: Value| {
        let mut v = json!({"of": of, "n": n, "d": d, "size": size, "drawn": drawn, "canvas": canvas, "byDefault": by_default, "drawnByDefault": drawn_by_default});
        for (k, x) in c.as_object().unwrap() { v[k] = x.clone() }
        v
    };
    let none = json!("-");
    match it {
        It::Turtle(t) => {
            let (a, b, c) = common(t, m, &string);
            full("turtle", json!(m.shown(t.n())), json!(m.angle_shown(t.delta())), nothing.clone(), json!(m.measured(paths_turn(&a), angles)), nothing.clone(), nothing, json!(m.measured(paths_turn(&b), angles)), c)
        }
        It::Own(t) => { let (_, _, c) = common(t, m, &string); full("own", none.clone(), none.clone(), nothing.clone(), none.clone(), nothing.clone(), nothing, none, c) }
        It::Saying(t) => { let (_, _, c) = common(t, m, &string); full("saying", none.clone(), none.clone(), nothing.clone(), none.clone(), nothing.clone(), nothing, none, c) }
        It::Null(t) => { let ((), (), c) = common(t, m, &string); full("null", none.clone(), none.clone(), nothing.clone(), none.clone(), nothing.clone(), nothing, none, c) }
        It::DTurtle(t) => {
            let (a, b, c) = common(t, m, &string);
            let angle = |d: &Svg| json!(m.measured(turn(&points(&d.to_svg())), angles));
            full("turtle", none.clone(), none, json!([m.shown(t.width()), m.shown(t.height())]), angle(&a), canvas(m, &a), canvas(m, &b), angle(&b), c)
        }
        It::DOwn(t) => { let (a, b, c) = common(t, m, &string); full("own", none.clone(), none.clone(), json!([m.shown(t.width()), m.shown(t.height())]), none.clone(), canvas(m, &a), canvas(m, &b), none, c) }
        It::DSaying(t) => { let (a, b, c) = common(t, m, &string); full("saying", none.clone(), none.clone(), json!([m.shown(t.width()), m.shown(t.height())]), none.clone(), canvas(m, &a), canvas(m, &b), none, c) }
    }
}

/// NullInterpretation gives nothing for every string and every store.
fn nothing_for(r: &mut Report, rng: &mut Rng) {
    let system = System::new();
    let words: Vec<&str> = (0..rng.below(40)).map(|_| *rng.pick(&["]", "[", "Forward", "+", "unknown", "Move", "x"])).collect();
    let string: ProductionString = words.join(" ").parse().expect("string");
    let got = guard(|| (NullInterpretation::default().interpret(&system, &string).is_ok(), NullInterpretation::default_interpret(&system, &string).is_ok(), system.symbol_len(), system.production_len()));
    r.check(|| json!({"nothing is drawn of": words}), json!([true, true, 0, 0]), got.map_or_else(|p| json!(p), |g| json!(g)));
}

pub fn replay(path: &str) {
    let mut r = Report::default();
    let mut rng = Rng::from_env(320);
    for (ci, case) in tlc_cases(path).enumerate() {
        let m = Means { k: ci };
        let log = case["log"].as_array().unwrap();
        running(&case["log"].to_string());
        let angles = [22.5, m.angle("right"), m.angle("small")];
        let got = guard(|| { let mut w = World::new(); for (n, s) in log.iter().enumerate() { w.call(s["o"].as_str().unwrap(), &s["x"], &m, ci + n) } w.seen(&m, &angles) });
        let sorted = |v: &Value| { let mut v = v.clone(); let mut a = strs(&v["alphabet"]); a.sort(); v["alphabet"] = json!(a); v };
        r.cases += 1;
        if log.len() > 1 { r.nontrivial += 1 }
        if ci % 3001 == 7 { r.sample(json!({"program": log, "seen": case["it"]})) }
        r.check(|| json!({"program": log, "numbers": ci}), json!([sorted(&case["it"]), sorted(&case["other"]), case["rs"]]), got.unwrap_or_else(|p| json!(p)));
        if ci % 50 == 0 { nothing_for(&mut r, &mut rng) }
    }
    r.finish();
}

pub fn record(out: &str, n: usize) {
    let mut o = Out::new(out);
    let mut r = Report::default();
    let mut rng = Rng::from_env(321);
    let m = Means { k: usize::MAX };
    for ci in 0..n {
        let mut w = World::new();
        let mut h = vec![];
        let mut angles = vec![22.5];
        for j in 0..25 {
            let number = |rng: &mut Rng| { let v = match rng.below(4) { 0 => rng.below(12), 1 => *rng.pick(&[499, 500, 501, 255, 256, 65535, 65536, usize::MAX, u32::MAX as usize, 1 << 53]), 2 => rng.next() as usize, _ => rng.below(100_000) }; m.shown(v) };
            let of = |rng: &mut Rng| *rng.pick(&["turtle", "own", "saying"]);
            let mut op = *rng.pick(&["default", "turtle", "turtle", "saying", "wrap", "wrap", "sized", "unsized", "copy", "swap", "take", "take", "runs", "for", "set"]);
            if op == "wrap" && !matches!(w.it, It::Turtle(_) | It::Own(_) | It::Saying(_)) { op = "turtle" }
            let x = match op {
                "default" => json!(*rng.pick(&["turtle", "own", "saying", "null"])),
                "turtle" => {
                    let a = loop {
                        let a = match rng.below(4) { 0 => rng.below(360) as f32 - 180.0, 1 => rng.below(3_600_000) as f32 / 10_000.0 - 180.0, 2 => (rng.below(7200) as f32 - 3600.0) * 1.25, _ => f32::from_bits(rng.next() as u32) };
                        // Told from the others by what it draws.
                        if a.is_finite() && a.abs() < 5000.0 && a.abs() > 1e-6 && apart(a as f64, 180.0) > 0.5 && angles.iter().all(|b: &f32| b.to_bits() == a.to_bits() || apart(a as f64, *b as f64) > 1e-6) { break a }
                    };
                    angles.push(a);
                    json!({"n": number(&mut rng), "d": m.angle_shown(a)})
                }
                "saying" | "for" | "set" => json!(number(&mut rng)),
                "wrap" => json!({"w": number(&mut rng), "h": number(&mut rng)}),
                "sized" => json!({"of": of(&mut rng), "w": number(&mut rng), "h": number(&mut rng)}),
                "unsized" => json!(of(&mut rng)),
                _ => json!(0),
            };
            running(&format!("{op} {x}"));
            // The last angle first: two that are nearly the same measure the same.
            let recent: Vec<f32> = angles.iter().rev().copied().collect();
            match guard(|| { w.call(op, &x, &m, ci + j); w.seen(&m, &recent) }) {
                Ok(v) => h.push(json!({"o": op, "x": x, "it": v[0], "other": v[1], "rs": v[2]})),
                Err(p) => { r.mismatch(json!({"operation": op, "with": x, "after": h}), json!("no panic"), json!(p)); break }
            }
        }
        nothing_for(&mut r, &mut rng);
        r.cases += 1;
        r.nontrivial += 1;
        if ci % 41 == 7 { r.sample(json!(&h[..3.min(h.len())])) }
        o.put(json!({"h": h}));
    }
    r.finish();
}
