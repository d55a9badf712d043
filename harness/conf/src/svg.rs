//! C19, C20: the SVG documents that the real code makes of drawings (src/interpretation/svg.rs).
//! They are read and judged elsewhere; this only makes and saves them.
use crate::util::*;
use rusty_systems::geometry::{Path, Point};
use rusty_systems::interpretation::abop::{AbopSvgInterpretation, AbopTurtleInterpretation};
use rusty_systems::interpretation::svg::{Svg, SvgElement, SvgPathInterpretation};
use rusty_systems::prelude::*;
use rusty_systems::symbols::SymbolStore;
use serde_json::{json, Value};
use std::cell::RefCell;

thread_local! { static DRAWING: RefCell<Vec<Path>> = const { RefCell::new(Vec::new()) } }
/// An interpretation that draws what it was told to.
#[derive(Debug, Clone, Default)]
struct Fixed;
impl Interpretation for Fixed {
    type Item = Vec<Path>;
    fn system() -> Result<System, Error> { Ok(System::default()) }
    fn interpret<S: SymbolStore>(&self, _: &S, _: &ProductionString) -> Result<Vec<Path>, Error> { Ok(DRAWING.with(|d| d.borrow().clone())) }
}

/// The document and what saving it over `before` did.
fn finish(svg: Svg, file: &str, k: usize) -> (String, String) {
    let text = svg.to_svg();
    // over nothing, something shorter, something longer
    let _ = std::fs::remove_file(file);
    match k % 3 { 1 => std::fs::write(file, "<svg/>").unwrap(), 2 => std::fs::write(file, format!("{text}{}", "<!-- left over -->\n".repeat(20))).unwrap(), _ => {} }
    let saved = match svg.save_file(file) {
        Err(e) => format!("error: {e}"),
        Ok(()) => match std::fs::read(file) { Ok(b) if b == text.as_bytes() => "same".into(), Ok(b) => format!("{} bytes where the text has {}", b.len(), text.len()), Err(e) => format!("unreadable: {e}") },
    };
    (text, saved)
}

const MAPS: &[(f64, f64, f64)] = &[(1.0, 0.0, 0.0), (5.0, -10.0, 3.0), (0.001, 0.5, -0.25), (1.0e6, -2.0e6, 1.0e6), (0.25, -100.0, -100.0), (1.0e-7, 0.0, 0.0), (1.0e12, 0.0, 1.0e12), (1.0e-20, 0.0, 0.0), (3.7e20, -3.7e20, 0.0), (1.0e-250, 0.0, 3.0e-250), (1.0e250, 0.0, -1.0e250)];

/// Any scale and offset.
fn any_map(k: usize) -> (f64, f64, f64) {
    let mut rng = Rng::from_env(8100 + k as u64);
    let s = (1.0 + rng.below(90_000) as f64 / 10_000.0) * 10f64.powi(rng.below(41) as i32 - 20);
    let mut off = || if rng.chance(1, 3) { 0.0 } else { s * (rng.below(200_000) as f64 / 10.0 - 10_000.0) };
    (s, off(), off())
}

fn one(w: usize, h: usize, paths: &[Vec<(i64, i64)>], again: &[usize], k: usize, file: &str) -> Value {
    let (s, tx, ty) = if k % 4 == 3 { any_map(k) } else { MAPS[k % MAPS.len()] };
    // (one that has no extent is not enlarged: what it is moved by has to be of the size of the canvas)
    let (s, tx, ty) = if paths.iter().flatten().all(|q| Some(q) == paths.iter().flatten().next()) { MAPS[k % 7] } else { (s, tx, ty) };
    // (f64 still tells the points of a large drawing apart)
    let (s, tx, ty) = if s > 1.0e6 && paths.iter().flatten().any(|q| q.0.max(q.1) > 1000) { MAPS[0] } else { (s, tx, ty) };
    DRAWING.with(|d| *d.borrow_mut() = paths.iter().enumerate().map(|(j, p)| (0..=again.get(j).copied().unwrap_or(0)).flat_map(|_| p.iter().map(|q| Point::new(q.0 as f64 * s + tx, q.1 as f64 * s + ty))).collect()).collect());
    running(&format!("interpret as {w} x {h}: {paths:?} on scale {s}, each path so many times more: {again:?}"));
    let r = guard(|| {
        let i = if (w, h) == (500, 500) && k % 2 == 0 { SvgPathInterpretation::default() } else if k % 3 == 0 { SvgPathInterpretation::<Fixed>::new(w, h) } else { SvgPathInterpretation::new_with(w, h, Fixed) };
        i.interpret(&System::new(), &ProductionString::empty()).map(|svg| finish(svg, file, k)).map_err(|e| e.to_string())
    });
    match r {
        Ok(Ok((text, saved))) => json!({"w": w, "h": h, "paths": paths, "s": s, "tx": tx, "ty": ty, "svg": text, "saved": saved}),
        Ok(Err(e)) => json!({"w": w, "h": h, "paths": paths, "failed": format!("error: {e}")}),
        Err(p) => json!({"w": w, "h": h, "paths": paths, "failed": p}),
    }
}

fn lattice(v: &Value) -> Vec<Vec<(i64, i64)>> {
    v.as_array().unwrap().iter().map(|p| p.as_array().unwrap().iter().map(|q| (int(&q[0]), int(&q[1]))).collect()).collect()
}

pub fn documents(path: &str, out: &str, every: usize) {
    let mut o = Out::new(out);
    let mut r = Report::default();
    let file = format!("{out}.saved.svg");
    for (ci, case) in tlc_cases(path).enumerate() {
        let paths = lattice(&case["paths"]);
        for v in 0..every {
            let mut d = one(int(&case["w"]) as usize, int(&case["h"]) as usize, &paths, &[], ci + v * 3, &file);
            d["want"] = case["img"].clone();
            r.cases += 1;
            if paths.iter().map(|p| p.len()).sum::<usize>() > 1 { r.nontrivial += 1 }
            if ci % 3001 == 900 { r.sample(d.clone()) }
            o.put(d);
        }
    }
    let _ = std::fs::remove_file(&file);
    r.finish();
}

/// Larger random drawings, and drawings of the real turtle with right angles.
pub fn record(out: &str, n: usize) {
    let mut o = Out::new(out);
    let mut r = Report::default();
    let mut rng = Rng::from_env(80);
    let file = format!("{out}.saved.svg");
    for ci in 0..n {
        let (w, h) = match rng.below(5) { 0 => (500, 500), 1 => (1 + rng.below(5), 1 + rng.below(5)), 2 if ci % 4 == 0 => (1 + rng.below(100_000), 1 + rng.below(100_000)), _ => (1 + rng.below(2000), 1 + rng.below(2000)) };
        r.cases += 1;
        let d = if ci % 2 == 0 {
            // (numbers in the specification have 32 bits)
            let (sx, sy) = if w.max(h) > 2000 { (3, 3) } else { (*rng.pick(&[1usize, 5, 40, 90]), *rng.pick(&[1usize, 7, 90])) };
            let paths: Vec<Vec<(i64, i64)>> = (0..if ci % 100 == 50 { 300 } else { rng.below(7) }).map(|_| (0..if ci % 100 == 52 { 1000 } else { *rng.pick(&[0usize, 1, 2, 9, 30]) }).map(|_| (rng.below(sx) as i64, rng.below(sy) as i64)).collect()).collect();
            // paths that go the same way many times
            let again: Vec<usize> = paths.iter().enumerate().map(|(j, p)| if ci % 60 == 8 && j == 0 && !p.is_empty() { 1 + rng.below(24_000 / p.len()) } else if paths.len() < 9 && rng.chance(1, 9) { 1 + rng.below(3) } else { 0 }).collect();
            let mut d = one(w, h, &paths, &again, rng.below(1000), &file);
            d["again"] = json!(again);
            d
        } else {
            let len = rng.below(60);
            let mut depth = 0;
            let t: Vec<&str> = (0..len).map(|_| match rng.below(9) { 0..=3 => "Forward", 4 => "Move", 5 => "+", 6 => "-", 7 if depth > 0 => { depth -= 1; "]" }, _ => { depth += 1; "[" } }).collect();
            let text = t.join(" ");
            running(&format!("interpret {text}"));
            let sys = AbopTurtleInterpretation::system().expect("system");
            let s = if text.is_empty() { ProductionString::empty() } else { text.parse::<ProductionString>().expect("string") };
            let turtle = AbopTurtleInterpretation::new(1, 90.0);
            let drawn = guard(|| turtle.interpret(&sys, &s).map_err(|e| e.to_string()));
            let Ok(Ok(drawn)) = drawn else { continue };
            let step = crate::turtle::step();
            let paths: Vec<Vec<(i64, i64)>> = drawn.iter().map(|p| p.iter().map(|q| ((q.x() / step).round() as i64, (q.y() / step).round() as i64)).collect()).collect();
            let got = guard(|| {
                let i: AbopSvgInterpretation = SvgPathInterpretation::new_with(w, h, turtle.clone());
                i.interpret(&sys, &s).map(|svg| finish(svg, &file, ci)).map_err(|e| e.to_string())
            });
            match got {
                Ok(Ok((text, saved))) => json!({"w": w, "h": h, "paths": paths, "s": step, "tx": 0.0, "ty": 0.0, "svg": text, "saved": saved}),
                Ok(Err(e)) => json!({"w": w, "h": h, "paths": paths, "failed": format!("error: {e}")}),
                Err(p) => json!({"w": w, "h": h, "paths": paths, "failed": p}),
            }
        };
        let mut d = d;
        if d.get("again").is_none() { d["again"] = json!(vec![0; d["paths"].as_array().unwrap().len()]) }
        if d["paths"].as_array().unwrap().len() > 1 { r.nontrivial += 1 }
        if ci % 97 == 4 { r.sample(json!({"w": w, "h": h, "paths": d["paths"]})) }
        o.put(d);
    }
    let _ = std::fs::remove_file(&file);
    r.finish();
}

/// The SVG of a plant file as the library makes it (C22): <file> <width> <height>, one per line of stdin.
pub fn reference() {
    for l in std::io::stdin().lines() {
        let l = l.unwrap();
        let f: Vec<&str> = l.split('\t').collect();
        let r = guard(|| -> Result<String, Error> {
            let text = std::fs::read_to_string(f[0])?;
            let (i, system, axiom) = rusty_systems::interpretation::abop::parser::parse(&text)?;
            let i = SvgPathInterpretation::new_with(f[1].parse().unwrap(), f[2].parse().unwrap(), i);
            let s = system.derive(axiom, i.run_settings())?;
            Ok(i.interpret(&system, &s)?.to_svg())
        });
        println!("{}", match r { Ok(Ok(t)) => json!({"svg": t}), Ok(Err(e)) => json!({"error": e.to_string()}), Err(p) => json!({"error": p}) });
    }
}
