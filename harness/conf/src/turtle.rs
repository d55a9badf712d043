//! C17, C18: the turtle (src/interpretation/abop.rs).
use crate::util::*;
use rusty_systems::geometry::{Path, Point};
use rusty_systems::interpretation::abop::AbopTurtleInterpretation;
use rusty_systems::prelude::*;
use rusty_systems::productions::ProductionStore;
use rusty_systems::symbols::SymbolStore;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};

/// The fixed step length: what one Forward draws (that it is fixed is what is checked).
pub fn step() -> f64 {
    static STEP: std::sync::OnceLock<f64> = std::sync::OnceLock::new();
    *STEP.get_or_init(|| {
        let known: Vec<String> = vec!["Forward".into()];
        match draw(2, &known, 22.5, &string(&known)) {
            Ok(Ok(p)) => segments(&p).first().map(|s| s.1.y() - s.0.y()).filter(|l| *l > 1e-6 && l.is_finite()).unwrap_or(5.0),
            _ => 5.0,
        }
    })
}
const DELTAS: &[f32] = &[22.5, 90.0, 60.0, 45.0, -30.0, 25.7, 0.0, 120.0, 180.0, 360.0, 725.0, 0.25, -90.0, 5.0, 1.0e-3, 19000.0];

/// Any angle at all, of any size.
fn any_angle(rng: &mut Rng) -> f32 {
    // close to an angle that is often used, which is another angle all the same
    if rng.chance(1, 4) {
        let often = *rng.pick(&[15i32, 30, 45, 60, 90]) * (rng.below(25) as i32 - 12);
        return often as f32 + [1.0e-4f32, 5.0e-4, 1.0e-3, 1.0e-2, -1.0e-4, -7.0e-4, -1.0e-3, 0.03][rng.below(8)];
    }
    let size = [1.0e-4f32, 1.0e-3, 0.01, 0.1, 1.0, 10.0, 100.0, 1000.0][rng.below(8)];
    let a = size * (1.0 + rng.below(90_000) as f32 / 10_000.0);
    if rng.chance(1, 2) { -a } else { a }
}
/// How far a point may be from the exact one.
fn tolerance() -> f64 { 1e-6 * step() }

/// A store of the caller's own kind.
struct Own(RefCell<HashMap<String, Symbol>>);
impl SymbolStore for Own {
    fn add_symbol<S>(&self, symbol: S) -> Result<Symbol, Error> where S: TryInto<Symbol>, S::Error: Into<Error> {
        let s = symbol.try_into().map_err(Into::into)?;
        self.0.borrow_mut().insert(s.to_string(), s);
        Ok(s)
    }
    fn get_symbol(&self, name: &str) -> Option<Symbol> { self.0.borrow().get(name).cloned() }
}

fn sym(n: &str) -> Symbol { Symbol::build(n).expect("symbol") }
fn string(t: &[String]) -> ProductionString { t.iter().map(|s| sym(s)).collect::<Vec<_>>().into() }

fn fill<S: SymbolStore>(s: S, known: &[String]) -> S { for k in known { s.add_symbol(k.as_str()).expect("symbol"); } s }

/// Draws the string with the store of kind `how`.
fn draw(how: usize, known: &[String], delta: f32, s: &ProductionString) -> Res<Res<Vec<Path>>> {
    guard(|| {
        let i = AbopTurtleInterpretation::new(3, delta);
        match how {
            0 => i.interpret(&AbopTurtleInterpretation::system().expect("system"), s),
            1 => i.interpret(&fill(System::new(), known), s),
            2 => i.interpret(&fill(RefCell::new(HashSet::new()), known), s),
            3 => i.interpret(&fill(Own(RefCell::new(HashMap::new())), known), s),
            4 => {
                // a system that knows much more, and the same symbols through its productions
                let sys = System::new();
                sys.add_production(format!("Zother < Zthing > Zmore -> {}", known.join(" ")).as_str()).expect("production");
                sys.add_symbol("X").expect("symbol");
                i.interpret(&sys, s)
            }
            _ => AbopTurtleInterpretation::default_interpret(&fill(System::new(), known), s),
        }.map_err(|e| e.to_string())
    })
}

pub fn segments(paths: &[Path]) -> Vec<(Point, Point)> {
    paths.iter().flat_map(|p| { let v: Vec<Point> = p.iter().cloned().collect(); v.windows(2).map(|w| (w[0], w[1])).collect::<Vec<_>>() }).collect()
}

/// The point that a position of the specification stands for.
fn place(counts: &Value, k: i64, delta: f64) -> (f64, f64) {
    let (mut x, mut y) = (0.0, 0.0);
    for (i, c) in counts.as_array().unwrap().iter().enumerate() {
        let c = int(c);
        if c != 0 {
            let (ux, uy) = unit(i as i64 - k, delta);
            x += c as f64 * ux;
            y += c as f64 * uy;
        }
    }
    (x, y)
}
fn unit(h: i64, delta: f64) -> (f64, f64) {
    let a = (h as f64 * delta).to_radians();
    (-step() * a.sin(), step() * a.cos())
}
fn near(p: &Point, q: (f64, f64), tol: f64) -> bool { (p.x() - q.0).abs() <= tol && (p.y() - q.1).abs() <= tol }

fn expected(out: &Value, k: i64, delta: f64) -> Option<Vec<((f64, f64), (f64, f64))>> {
    if out["v"] != json!("ok") { return None }
    Some(out["segs"].as_array().unwrap().iter().map(|s| {
        let a = place(&s["from"], k, delta);
        let u = unit(int(&s["h"]), delta);
        (a, (a.0 + u.0, a.1 + u.1))
    }).collect())
}

fn agree(want: &Option<Vec<((f64, f64), (f64, f64))>>, got: &Res<Res<Vec<Path>>>, tol: f64) -> Result<(), Value> {
    match (want, got) {
        (None, Ok(Err(_))) => Ok(()),
        (Some(w), Ok(Ok(paths))) => {
            let s = segments(paths);
            if s.len() != w.len() { return Err(json!(format!("{} segments", s.len()))) }
            for (n, (g, w)) in s.iter().zip(w).enumerate() {
                if !near(&g.0, w.0, tol) || !near(&g.1, w.1, tol) {
                    return Err(json!({"segment": n + 1, "from": [g.0.x(), g.0.y()], "to": [g.1.x(), g.1.y()]}));
                }
            }
            Ok(())
        }
        (_, Ok(Ok(paths))) => Err(json!(format!("a drawing of {} segments", segments(paths).len()))),
        (_, Ok(Err(e))) => Err(json!(format!("error: {e}"))),
        (_, Err(p)) => Err(json!(p)),
    }
}

pub fn replay(path: &str) {
    let mut r = Report::default();
    let mut rng = Rng::from_env(60);
    let mut ci = 0usize;
    for case in tlc_cases(path) {
        ci += 1;
        let text = strs(&case["text"]);
        let known = strs(&case["known"]);
        let k = int(&case["k"]);
        let s = string(&text);
        let full = known.len() == 6;
        for d in 0..2 {
            let how = if full { (ci + 3 * d) % 6 } else { 1 + (ci + d) % 3 };
            let delta = if how == 5 { 22.5 } else if d == 0 { DELTAS[ci % 3] } else if rng.chance(1, 2) { any_angle(&mut rng) } else { *rng.pick(DELTAS) };
            let want = expected(&case["out"], k, delta as f64);
            running(&format!("interpret {text:?} known {known:?} delta {delta} store {how}"));
            r.cases += 1;
            if case["out"]["segs"].as_array().unwrap().len() > 1 { r.nontrivial += 1 }
            if let Err(got) = agree(&want, &draw(how, &known, delta, &s), tolerance()) {
                r.mismatch(json!({"string": text.join(" "), "known": known, "delta": delta, "store": how}),
                           want.as_ref().map(|w| json!({"segments": w})).unwrap_or(json!("an error")), got);
            }
        }
        // Every turn made of many small ones of the same size: the headings are the same.
        if full && rng.chance(1, 40) && text.iter().any(|t| t == "+" || t == "-") {
            let parts = *rng.pick(&[64usize, 1024, 4096]);
            let delta = any_angle(&mut rng);
            let fine: Vec<String> = text.iter().flat_map(|t| std::iter::repeat_n(t.clone(), if t == "+" || t == "-" { parts } else { 1 })).collect();
            let part = delta / parts as f32;
            running(&format!("interpret {text:?}, every turn {parts} times, delta {part}"));
            r.cases += 1;
            let want = expected(&case["out"], k, part as f64 * parts as f64);
            if let Err(got) = agree(&want, &draw(ci % 5, &known, part, &string(&fine)), tolerance()) {
                r.mismatch(json!({"string": text.join(" "), "every turn": parts, "delta": part}), want.as_ref().map(|w| json!({"segments": w})).unwrap_or(json!("an error")), got);
            }
        }
        // The same string drawn many times over from within a branch: every copy is drawn
        // in the same place (BranchesLeaveNoTrace).
        if full && ci % 400 == 7 && case["out"]["v"] == json!("ok") && text.iter().filter(|t| *t == "[").count() == text.iter().filter(|t| *t == "]").count() {
            let times = 4000;
            let mut big = vec![];
            for _ in 0..times { big.push("[".to_string()); big.extend(text.iter().cloned()); big.push("]".into()) }
            big.extend(text.iter().cloned());
            running(&format!("interpret [ {} ] repeated {times} times", text.join(" ")));
            let one = expected(&case["out"], k, 22.5).unwrap();
            let want = Some((0..=times).flat_map(|_| one.iter().cloned()).collect());
            r.cases += 1;
            if let Err(got) = agree(&want, &draw(ci % 4, &known, 22.5, &string(&big)), tolerance()) {
                r.mismatch(json!({"string": format!("[ {} ], {times} times and once more without the branch", text.join(" "))}), json!("the drawing of the string repeated"), got);
            }
        }
        // From the bottom of thousands of branches, and again when all of them are closed.
        if full && ci % 50 == 11 && case["out"]["v"] == json!("ok") && text.iter().filter(|t| *t == "[").count() == text.iter().filter(|t| *t == "]").count() {
            let levels = *rng.pick(&[300usize, 5000, 70_000]);
            let mut big = vec![];
            for _ in 0..levels { big.push("Move".to_string()); big.push("[".to_string()) }
            big.extend(text.iter().cloned());
            for _ in 0..levels { big.push("]".to_string()) }
            big.extend(text.iter().cloned());
            running(&format!("interpret {levels} times Move [ then {} then {levels} times ] then the same", text.join(" ")));
            let one = expected(&case["out"], k, 22.5).unwrap();
            let at = |n: usize| { let n = n as f64 * step(); one.iter().map(move |(a, b)| ((a.0, a.1 + n), (b.0, b.1 + n))).collect::<Vec<_>>() };
            let want = Some(at(levels).into_iter().chain(at(1)).collect());
            r.cases += 1;
            if let Err(got) = agree(&want, &draw(ci % 4, &known, 22.5, &string(&big)), tolerance()) {
                r.mismatch(json!({"string": format!("{levels} times Move [, then {}, then {levels} times ], then the same", text.join(" "))}), json!("the drawing of the string, in both places"), got);
            }
        }
        if ci % 4001 == 1234 { r.sample(json!({"string": text.join(" "), "known": known, "segments": expected(&case["out"], k, 90.0).map(|w| w.len())})) }
    }
    r.finish();
}

pub fn record(path: &str, n: usize) {
    let mut out = Out::new(path);
    let mut r = Report::default();
    let mut rng = Rng::from_env(61);
    let all = ["Forward", "Move", "+", "-", "[", "]"];
    for ci in 0..n {
        // now and then branches within branches, as deep as there are
        let deep = ci % 120 == 50;
        let (base, unit) = if deep || rng.chance(1, 8) { (4i64, 90.0f32) } else if rng.chance(1, 2) { (16, 22.5) } else { (12, 30.0) };
        let m = *rng.pick(&[1i64, 1, 2, 3, 4, 5, 7, -1, -3, 8, 0, 11]);
        let known: Vec<String> = all.iter().filter(|_| ci % 3 != 0 || rng.chance(4, 5)).map(|s| s.to_string()).collect();
        // now and then very long, or with very deep branches
        let large = ci % 60 == 9;
        let len = if large { 1500 } else { match rng.below(6) { 0 => rng.below(8), 1..=4 => rng.below(120), _ => 200 + rng.below(200) } };
        let mut t: Vec<String> = vec![];
        let mut depth = 0usize;
        if deep {
            let most = *rng.pick(&[600usize, 2500]);
            let levels = 1 + rng.below(most);
            for _ in 0..levels {
                if rng.chance(1, 4) { t.push(rng.pick(&["Forward", "Move", "+", "-"]).to_string()) }
                t.push("[".into());
            }
            for _ in 0..levels {
                if rng.chance(1, 3) { t.push(rng.pick(&["Forward", "Move", "Forward", "+"]).to_string()) }
                t.push("]".into());
            }
            t.push("Forward".into());
        }
        let len = if deep { t.len() } else { len };
        // mostly balanced strings, deep ones too
        let bias = if large { *rng.pick(&[1usize, 60]) } else { *rng.pick(&[1usize, 1, 4]) };
        while t.len() < len {
            let s = match rng.below(12 + bias) {
                0..=3 => "Forward", 4 => "Move", 5 => "+", 6 => "-",
                7 if depth > 0 => { depth -= 1; "]" }
                8 if rng.chance(1, if large { 4000 } else { 40 }) => "]",
                9 => *rng.pick(&["X", "Zother", "F"]),
                _ => { depth += 1; "[" }
            };
            t.push(s.to_string());
        }
        if rng.chance(3, 4) { for _ in 0..depth { t.push("]".into()); if rng.chance(1, 2) { t.push("Forward".into()) } } }
        let how = if known.len() == 6 { rng.below(5) } else { 1 + rng.below(3) };
        running(&format!("interpret {t:?}"));
        let got = draw(how, &known, m as f32 * unit, &string(&t));
        r.cases += 1;
        let (v, segs) = match got {
            Ok(Ok(p)) => ("ok".to_string(), segments(&p)),
            Ok(Err(_)) => ("error".to_string(), vec![]),
            Err(p) => (p, vec![]),
        };
        if segs.len() > 5 { r.nontrivial += 1 }
        let one = if base == 4 { 1e3 } else { 1e6 };
        let q = |x: f64| if x.is_finite() && (x / step() * one).abs() < 2.0e9 { json!((x / step() * one).round() as i64) } else { json!(2_100_000_000i64) };
        let segs: Vec<Value> = segs.iter().map(|(a, b)| json!([[q(a.x()), q(a.y())], [q(b.x()), q(b.y())]])).collect();
        let ev = json!({"text": t, "known": known, "base": base, "m": m, "store": how, "v": v, "segs": segs});
        if ci % 99 == 5 { r.sample(json!({"string": t.join(" "), "delta": m as f32 * unit, "segments": segs.len()})) }
        out.put(ev);
    }
    r.finish();
}
