//! C27: from the text of a plant description to the picture, through the library.
//! The documents are read and judged elsewhere; this only makes them.
use crate::plant;
use crate::util::*;
use rusty_systems::interpretation::abop::parser;
use rusty_systems::interpretation::svg::{SvgElement, SvgPathInterpretation};
use rusty_systems::prelude::*;
use serde_json::{json, Value};

/// The ways in which a user of the library gets from the text to the document.
const WAYS: usize = 6;
fn picture(way: usize, text: &str, w: usize, h: usize, file: &str) -> Result<String, Error> {
    let (turtle, system, axiom) = if way % 2 == 0 { parser::parse(text)? } else { std::fs::write(file, text)?; parser::parse_file(file)? };
    let n = turtle.n();
    let svg = SvgPathInterpretation::new_with(w, h, turtle.clone());
    let s = match way {
        0 => system.derive(axiom, svg.run_settings())?,
        1 => system.derive(axiom, turtle.run_settings())?,
        2 => { let mut s = axiom; for _ in 0..n { s = system.derive_once(s)? } s }
        3 => { let half = n / 2; let s = system.derive(axiom, RunSettings::for_max_iterations(half))?; system.derive(s, RunSettings::from(n - half))? }
        4 => { let s = system.derive(axiom.clone(), svg.run_settings())?; let again = system.derive(axiom, svg.run_settings())?; assert_eq!(s, again, "the second derivation"); again }
        _ => system.derive(axiom, svg.run_settings())?,
    };
    // symbols from the text of the derived string, read again
    if way == 5 {
        let shown = s.to_string();
        let s = if shown.trim().is_empty() { s } else { shown.parse::<ProductionString>()? };
        let doc = svg.interpret(&system, &s)?;
        doc.save_file(file)?;
        return Ok(std::fs::read_to_string(file)?);
    }
    Ok(svg.interpret(&system, &s)?.to_svg())
}

fn make(lines: &Value, w: usize, h: usize, ways: &[usize], plain: bool, rng: &mut Rng, file: &str) -> Value {
    plant::write_symbols(if rng.chance(1, 3) { rng.below(64) } else { 0 });
    let text = plant::text(lines, plain, rng);
    let mut docs: Vec<Value> = vec![];
    for &way in ways {
        running(&format!("draw {text:?} on {w} x {h}, way {way}"));
        let one = || match guard(|| picture(way, &text, w, h, file)) {
            Ok(Ok(s)) => json!({"v": "ok", "svg": s}),
            Ok(Err(_)) => json!({"v": "error"}),
            Err(p) => json!({"v": p}),
        };
        let mut d = one();
        let again = one();
        if again != d { d = json!({"v": "another document when drawn again", "first": d, "second": again}) }
        match docs.iter_mut().find(|o| o["v"] == d["v"] && o["svg"] == d["svg"]) {
            Some(o) => o["ways"].as_array_mut().unwrap().push(json!(way)),
            None => { d["ways"] = json!([way]); docs.push(d) }
        }
    }
    json!({"text": text, "lines": lines, "w": w, "h": h, "docs": docs})
}

/// An angle as somebody might write it.
fn angle(rng: &mut Rng) -> String {
    let sign = if rng.chance(1, 4) { "-" } else { "" };
    match rng.below(7) {
        0 => format!("{sign}{:.3}", 360.0 / (2 + rng.below(60)) as f64),
        1 => format!("{sign}{}.{:03}", rng.below(360), rng.below(1000)),
        2 => format!("{sign}0.{:04}", 1 + rng.below(9999)),
        3 => format!("{sign}{}", 1 + rng.below(3000)),
        4 => format!("{sign}{}.{:02}e{}", 1 + rng.below(9), rng.below(100), rng.below(5) as i64 - 2),
        5 => format!("{sign}{}", [30, 36, 45, 60, 72, 90, 120, 180, 360][rng.below(9)] ),
        _ => format!("{sign}{}.5", rng.below(180)),
    }
}

pub fn replay(path: &str, out: &str, variants: usize) {
    let mut o = Out::new(out);
    let mut r = Report::default();
    let mut rng = Rng::from_env(95);
    let file = format!("{out}.tmp");
    for (ci, case) in tlc_cases(path).enumerate() {
        for v in 0..variants {
            let (w, h) = (int(&case["fits"]["w"]) as usize, int(&case["fits"]["h"]) as usize);
            let ways = [(ci + v) % WAYS, (ci + v + 1 + ci / WAYS % (WAYS - 1)) % WAYS];
            let mut lines = case["lines"].clone();
            let mut delta = 0.0f32;
            for l in lines.as_array_mut().unwrap() { if l["k"] == "d" && l["v"] == "any" { let a = angle(&mut rng); delta = a.parse().unwrap(); l["v"] = json!(a) } }
            let mut d = make(&lines, w, h, &ways, v == 0 && ci % 3 == 0, &mut rng, &file);
            d["want"] = json!({"v": case["v"], "places": case["fits"]["places"], "exact": case["fits"]["exact"], "end": case["fits"]["end"], "delta": delta as f64});
            r.cases += 1;
            if int(&case["forwards"]) > 1 { r.nontrivial += 1 }
            if ci % 3001 == 900 { r.sample(json!({"text": d["text"], "w": w, "h": h, "want": d["want"]})) }
            o.put(d);
        }
    }
    let _ = std::fs::remove_file(&file);
    r.finish();
}

/// Longer descriptions: no head twice, so that every production has one body.
pub fn record(out: &str, n: usize) {
    let mut o = Out::new(out);
    let mut r = Report::default();
    let mut rng = Rng::from_env(96);
    let file = format!("{out}.tmp");
    let others = ["Leaf", "Root", "A1", "Übung"];
    for ci in 0..n {
        // now and then many iterations, each of which adds a few symbols
        let slow = ci % 7 == 5;
        let it = if slow { 6 + rng.below(if ci % 2 == 0 { 10 } else { 45 }) } else { rng.below(5) };
        let budget = if slow { 4 } else { [40usize, 8, 5, 4, 3][it] };
        let sym = |rng: &mut Rng| -> &str { match rng.below(12) { 0..=3 => "Forward", 4 => "Move", 5 | 6 => "X", 7 => "+", 8 => "-", 9 => "[", _ => *rng.pick(&others) } };
        // a body with its branches closed, most of the time
        let body = |rng: &mut Rng, max: usize| -> Vec<String> {
            let mut b: Vec<String> = vec![];
            let mut open = 0;
            for _ in 0..rng.below(max + 1) {
                if open > 0 && rng.chance(1, 3) { b.push("]".into()); open -= 1; continue }
                let s = sym(rng);
                if s == "[" { open += 1 }
                b.push(s.into());
            }
            if !rng.chance(1, 6) { for _ in 0..open { b.push("]".into()) } }
            if rng.chance(1, 40) { b.push("]".into()) }
            b
        };
        let mut lines: Vec<Value> = vec![];
        let mut heads: Vec<Value> = vec![];
        for _ in 0..1 + rng.below(if slow { 2 } else { 5 }) {
            let ctx = |rng: &mut Rng| if rng.chance(1, 4) { json!([(0..1 + rng.below(2)).map(|_| sym(rng)).collect::<Vec<_>>()]) } else { json!([]) };
            let t = if slow { "X" } else { *rng.pick(&["X", "X", "Forward", "Leaf", "A1", "+", "Root"]) };
            let (l, rr) = (ctx(&mut rng), ctx(&mut rng));
            let head = json!([l, t, rr]);
            if heads.contains(&head) { continue }
            heads.push(head);
            let mut b = body(&mut rng, budget.min(9));
            if slow {
                b.retain(|s| s != "X");
                if rng.chance(5, 6) { let at = rng.below(b.len() + 1); b.insert(at, "X".into()) }
            }
            let v = json!({"l": l, "t": t, "r": rr, "c": "", "b": b});
            let at = rng.below(lines.len() + 1);
            lines.insert(at, json!({"k": "P", "v": v}));
        }
        let put = |lines: &mut Vec<Value>, at: usize, k: &str, v: Value| { let at = at % (lines.len() + 1); lines.insert(at, json!({"k": k, "v": v})) };
        let mut axiom = body(&mut rng, if it == 0 { 60 } else if slow { 3 } else { 8 });
        axiom.push((*rng.pick(&["X", "X", "Forward"])).into());
        if !rng.chance(1, 30) { let (at, v) = (rng.below(99), json!(axiom)); put(&mut lines, at, "I", v) }
        if rng.chance(1, 6) { let (at, v) = (rng.below(99), json!(rng.pick(&["90", "180", "270"]))); put(&mut lines, at, "d", v) }
        if rng.chance(1, 6) { let (at, v) = (rng.below(99), json!("1")); put(&mut lines, at, "n", v) }
        let (at, v) = (rng.below(99), json!(rng.pick(&["90", "90", "-90", "180", "270", "0", "450", "-360"])));
        put(&mut lines, at, "d", v);
        if it != 2 || rng.chance(1, 2) { lines.push(json!({"k": "n", "v": it.to_string()})) } else { lines.retain(|l| l["k"] != "n") }
        for _ in 0..rng.below(3) { let (at, v) = (rng.below(99), json!("")); put(&mut lines, at, "blank", v) }
        if rng.chance(1, 30) { let (at, v) = (rng.below(99), json!(rng.pick(&["n", "d", "setting", "line", "production"]))); put(&mut lines, at, "bad", v) }
        let (w, h) = match rng.below(4) { 0 => (500, 500), 1 => (1 + rng.below(9), 1 + rng.below(9)), _ => (1 + rng.below(1000), 1 + rng.below(1000)) };
        let d = make(&json!(lines), w, h, &[ci % WAYS, (ci + 1 + ci / WAYS % (WAYS - 1)) % WAYS], false, &mut rng, &file);
        r.cases += 1;
        if d["docs"][0]["v"] == "ok" { r.nontrivial += 1 }
        if ci % 97 == 4 { r.sample(json!({"text": d["text"], "w": w, "h": h})) }
        o.put(d);
    }
    let _ = std::fs::remove_file(&file);
    r.finish();
}
