//! C21: plant descriptions (src/interpretation/abop/parser.rs).
use crate::util::*;
use rusty_systems::interpretation::abop::parser;
use rusty_systems::prelude::*;
use rusty_systems::productions::ProductionStore;
use rusty_systems::symbols::SymbolStore;
use serde_json::{json, Value};

const UNIVERSE: [&str; 35] = ["Forward", "Move", "X", "+", "-", "[", "]", "Leaf", "Root", "Probe", "initial", "n", "delta", "F", "A1", "Übung", "a_rather_long_name_of_a_symbol", "|", ":", "A'", "q\"", "c.", "d]", "e/", "{f}", "*", "x_", "λ", "漢", "@", "a,b", "\\", "&", "~~", "%"];
/// name -> head, body
const PRODS: [(&str, &str, &str); 5] = [("grow", "X", "Forward X"), ("after", "Forward < X", "Move"), ("turn", "X", "+ X ]"), ("leaf", "Forward", "Leaf Forward"), ("gone", "Forward > X", "")];
const CHANCES: [&str; 4] = ["0.125", "0.0625", "0", "1"];
const SYMBOLS: [&str; 26] = ["Leaf", "Root", "initial", "n", "delta", "F", "A1", "Übung", "a_rather_long_name_of_a_symbol", "|", "A'", "q\"", "c.", "d]", "e/", "{f}", "*", "x_", "λ", "漢", "@", "a,b", "\\", "&", "~~", "%"];
fn prod(v: &str) -> (&'static str, &'static str) { PRODS.iter().find(|p| p.0 == v).map(|p| (p.1, p.2)).unwrap() }

// How the symbols (the turtle's apart) are written, and which symbol a word stands for.
type Words = Vec<(String, String)>;
thread_local! { static WORDS: std::cell::RefCell<(std::rc::Rc<Words>, Vec<Option<std::rc::Rc<Words>>>)> = Default::default() }
/// From now on symbols are written in the k-th way; 0 is how they are called here.
pub fn write_symbols(k: usize) {
    let k = k % 64;
    WORDS.with_borrow_mut(|w| {
        w.1.resize(64, None);
        w.0 = w.1[k].get_or_insert_with(|| {
            // (an axiom's words are of one kind of characters, and a lone ; ends it)
            let punct = |c: char| "<>-+();".contains(c);
            let good = |x: &String| !x.contains(['#', '=']) && x != ";" && (x.chars().all(punct) || !x.contains(punct)) && !x.starts_with("initial:") && !UNIVERSE.contains(&x.as_str());
            std::rc::Rc::new(if k == 0 { vec![] } else { SYMBOLS.iter().map(|n| n.to_string()).zip(vocabulary(5000 + k, 200).into_iter().filter(good)).collect() })
        }).clone();
    })
}
fn written(name: &str) -> String { WORDS.with_borrow(|w| w.0.iter().find(|x| x.0 == name).map(|x| x.1.clone()).unwrap_or(name.into())) }
fn all_written(text: &str) -> String { text.split(' ').map(|s| if s.is_empty() { String::new() } else { written(s) }).collect::<Vec<_>>().join(" ") }
fn meant(word: String) -> String { WORDS.with_borrow(|w| w.0.iter().find(|x| x.1 == word).map(|x| x.0.clone()).unwrap_or(word)) }

/// The contexts and the target of a production line's head, and its body.
fn spell(x: &Value) -> (String, String) {
    if x["k"] == "p" { let (h, b) = prod(x["v"].as_str().unwrap()); return (all_written(h), all_written(b)) }
    let q = &x["v"];
    let ctx = |c: &Value| c.as_array().unwrap().first().map(|s| strs(s).join(" "));
    let mut h = q["t"].as_str().unwrap().to_string();
    if let Some(l) = ctx(&q["l"]) { h = format!("{l} < {h}") }
    if let Some(r) = ctx(&q["r"]) { h = format!("{h} > {r}") }
    (all_written(&h), format!("{} {}", q["c"].as_str().unwrap(), all_written(&whole(q).join(" "))).trim().to_string())
}
/// The body of a production line, the first symbols of which may be there many times.
fn whole(q: &Value) -> Vec<String> {
    let b = strs(&q["b"]);
    let Some(times) = q["times"].as_u64() else { return b };
    let (part, end) = b.split_at(q["part"].as_u64().unwrap() as usize);
    let mut all = vec![];
    for _ in 0..times { all.extend_from_slice(part) }
    all.extend_from_slice(end);
    all
}

/// Something that is no number, but not far from one.
fn unreadable(whole: bool, rng: &mut Rng) -> String {
    let number = *rng.pick(&["3", "90", "12", "0", "7"]);
    let tail = ["deg", "°", "x", " degrees", "%", "_", "_0", " 1", ",5", ",", ".0.0", ";", "/2", "*2", "-", "+1", "e", "a", "'", "\u{301}", ":", " -> 3"];
    let head = ["x", "$", "=", "= ", "--", "+-", "~", "(", "°", "_", ": ", "- "];
    match rng.below(if whole { 5 } else { 3 }) {
        0 => format!("{number}{}", rng.pick(&tail)),
        1 => format!("{}{number}", rng.pick(&head)),
        2 => rng.pick(&["", "abc", "three", "-", "+", ".", "0x10", "٣", "½", "1 2", "(3)", "\"3\""]).to_string(),
        3 => format!("{number}{}", rng.pick(&[".5", ".", "e1", ".0"])),
        _ => rng.pick(&["-1", "-90", "99999999999999999999999", "18446744073709551616", "1e3", ".5"]).to_string(),
    }
}

pub fn line(x: &Value, plain: bool, rng: &mut Rng) -> String {
    let sp = |rng: &mut Rng| if plain { " " } else { *rng.pick(&["", " ", "  ", "\t"]) };
    let ws = |rng: &mut Rng| if plain { " " } else { *rng.pick(&[" ", "  ", "\t "]) };
    let k = x["k"].as_str().unwrap();
    let v = x["v"].as_str().unwrap_or("");
    let n = |rng: &mut Rng| if plain { "n" } else { *rng.pick(&["n", "N"]) };
    let d = |rng: &mut Rng| if plain { "delta" } else { *rng.pick(&["delta", "d", "D", "∂"]) };
    let body = match k {
        "n" => format!("{}{}={}{v}", n(rng), sp(rng), sp(rng)),
        "d" => format!("{}{}={}{v}", d(rng), sp(rng), sp(rng)),
        "i" => format!("initial:{}{}", sp(rng), if v == "one" { written("X") } else { ["Forward", "X", "Root"].map(written).join(ws(rng)) }),
        "I" => format!("initial:{}{}", sp(rng), strs(&x["v"]).iter().map(|s| written(s)).collect::<Vec<_>>().join(ws(rng))),
        "p" | "P" => { let (h, b) = spell(x); format!("{}{}->{}{}", h.replace(' ', ws(rng)), ws(rng), ws(rng), b.replace(' ', ws(rng))) }
        "blank" => return (if plain { "# n = 9" } else { *rng.pick(&["", " ", "\t", "#", "# n = 9", "  # initial: Y", "# X -> Y Z", "## delta = 1 #", "#a", "\u{a0}"]) }).to_string(),
        _ => match v {
            "n" => if plain { "n = abc".into() } else { format!("{}{}={}{}", n(rng), sp(rng), sp(rng), unreadable(true, rng)) },
            "d" => if plain { "delta = x".into() } else { format!("{}{}={}{}", d(rng), sp(rng), sp(rng), unreadable(false, rng)) },
            "setting" => if plain { "foo = 3".into() } else { format!("{}{}={}3", rng.pick(&["foo", "nn", "", "initial", "initial:", "n delta", "delta n", "angle", "n:", "n.", "deltas", "delt", "dd", "iterations", "ñ", "X -> n", "n -> X", "n ="]), sp(rng), sp(rng)) },
            "line" => if plain { "hello".into() } else { rng.pick(&["hello", "X Forward", "initial", "n 3", "n: 3", "X > Forward", "-", "delta 90", "initial X", "X", "X - > Forward", "X < Forward", "n", "X => Forward", "; n = 3 -> X", "// comment", "X → Forward"]).to_string() },
            _ => if plain { "X -> 2 X".into() } else { rng.pick(&["X -> 2 X", "-> X", "X Move -> X", "X -> -0.5 Forward", " -> ", "Forward < -> X", "Forward < > X -> X", "X X X -> ", "Forward < X Leaf > Move -> Root", "X -> 1.01", "< X -> 7"]).to_string() },
        },
    };
    if plain { return body }
    // a comment may begin anywhere, right after anything
    let body = if rng.chance(1, 12) && k != "bad" && matches!(body.chars().last(), Some(c) if !c.is_whitespace()) { format!("{body}{}", rng.pick(&["#", "#x", "#'", "#\"", "##", "#=", "#;"])) } else { body };
    let tail = *rng.pick(&["", "", " ", " # a comment", "# n = 9", "\t#", " # -> # ->"]);
    format!("{}{body}{tail}", rng.pick(&["", "", " ", "\t"]))
}

pub fn text(lines: &Value, plain: bool, rng: &mut Rng) -> String {
    let nl = if plain { "\n" } else { *rng.pick(&["\n", "\n", "\r\n"]) };
    let mut t: Vec<String> = lines.as_array().unwrap().iter().map(|l| line(l, plain, rng)).collect();
    if !plain && rng.chance(1, 3) { t.insert(0, String::new()) }
    if !plain && rng.chance(1, 2) { t.push(String::new()) }
    t.join(nl)
}

fn names(s: &ProductionString) -> Value { json!(s.iter().map(|x| meant(x.name().unwrap_or("?".into()))).collect::<Vec<_>>()) }

/// What the real code makes of the description.
fn observe(text: &str, lines: &Value, file: Option<&str>) -> Value {
    let r = guard(|| -> Result<Value, String> {
        let parsed = match file { None => parser::parse(text), Some(f) => { std::fs::write(f, text).unwrap(); parser::parse_file(f) } };
        let Ok((i, system, axiom)) = parsed else { return Ok(json!({"v": "error"})) };
        // numbers in the spelling of the description, the latest first
        let spelt = |k: &str, default: &str, same: &dyn Fn(&str) -> bool| -> Option<String> {
            lines.as_array().unwrap().iter().rev().filter(|l| l["k"] == k).map(|l| l["v"].as_str().unwrap()).chain([default]).find(|v| same(v)).map(str::to_string)
        };
        let delta = spelt("d", "5", &|v| v.parse::<f32>().unwrap() == i.delta()).unwrap_or(format!("{:?}", i.delta()));
        let n = spelt("n", "2", &|v| v.parse::<usize>().unwrap() == i.n()).unwrap_or(i.n().to_string());
        let (plen, count) = (system.production_len(), system.symbol_len());
        let alphabet: Vec<&str> = UNIVERSE.iter().filter(|n| system.get_symbol(&written(n)).is_some()).cloned().collect();
        let mut steps = vec![];
        if lines.as_array().unwrap().iter().all(|l| !l["v"]["times"].is_u64()) { for k in 0..=3 { steps.push(names(&system.derive(axiom.clone(), RunSettings::for_max_iterations(k)).map_err(|e| e.to_string())?)) } }
        // the bodies of each head, in the order in which the heads are first mentioned
        let mut heads: Vec<String> = vec![];
        for l in lines.as_array().unwrap() { if l["k"] == "p" || l["k"] == "P" { let h = spell(l).0; if !heads.contains(&h) { heads.push(h) } } }
        let mut prods = vec![];
        for h in heads {
            let p = system.add_production(format!("{h} -> Probe").as_str()).map_err(|e| e.to_string())?;
            let bs = p.all_bodies();
            let said: Vec<&Value> = lines.as_array().unwrap().iter().filter(|l| (l["k"] == "p" || l["k"] == "P") && spell(l).0 == h).map(|l| &l["v"]).collect();
            // a body that repeats its first symbols, as it stands in the specification
            let shown = |j: usize, b: &ProductionString| -> Value {
                let all = names(b);
                match said.get(j) { Some(q) if q["times"].is_u64() => if all == json!(whole(q)) { q["b"].clone() } else { json!(["another body of", all.as_array().unwrap().len()]).clone() }, _ => all }
            };
            let ctx = |c: Option<&ProductionString>| match c { None => json!([]), Some(s) => json!([names(s)]) };
            prods.push(json!({"l": ctx(p.head().pre_context()), "t": p.head().target().name().map(meant), "r": ctx(p.head().post_context()),
                "bs": bs[..bs.len() - 1].iter().enumerate().map(|(j, b)| {
                    let c = if b.chance().is_user_set() { CHANCES.iter().find(|c| c.parse::<f32>().unwrap() == b.chance().unwrap_or(-1.0)).unwrap_or(&"?") } else { "" };
                    json!({"c": c, "b": shown(j, b.string())})
                }).collect::<Vec<_>>()}));
        }
        if prods.len() != plen { prods.push(json!({"l": [], "t": format!("{plen} productions"), "r": [], "bs": []})) }
        Ok(json!({"v": "ok", "n": n, "delta": delta, "axiom": names(&axiom), "prods": prods, "alphabet": alphabet, "count": count, "steps": steps}))
    });
    match r { Ok(Ok(v)) => v, Ok(Err(e)) => json!({"v": e}), Err(p) => json!({"v": p}) }
}

fn sorted(v: &Value) -> Vec<String> { let mut s = strs(v); s.sort(); s }

pub fn replay(path: &str, variants: usize) {
    let mut r = Report::default();
    let mut rng = Rng::from_env(90);
    let file = format!("{path}.plant");
    for (ci, case) in tlc_cases(path).enumerate() {
        let want = &case["want"];
        for v in 0..variants {
            write_symbols(if (ci + v) % 3 == 1 { ci / 3 } else { 0 });
            let t = text(&case["lines"], v == 0 && ci % 2 == 0, &mut rng);
            running(&format!("parse {t:?}"));
            r.cases += 1;
            if want["v"] == "ok" { r.nontrivial += 1 }
            let got = observe(&t, &case["lines"], ((ci + v) % 50 == 9).then_some(file.as_str()));
            let ok = want["v"] == got["v"] && (want["v"] != "ok" || {
                ["n", "delta", "axiom", "prods"].iter().all(|k| want[*k] == got[*k])
                    && sorted(&want["alphabet"]) == sorted(&got["alphabet"]) && json!(sorted(&want["alphabet"]).len()) == got["count"]
                    && want["steps"].as_array().unwrap().iter().zip(got["steps"].as_array().unwrap()).all(|(a, b)| a == b)
            });
            if !ok { r.mismatch(json!({"description": t}), want.clone(), got) }
            if r.cases % 30_011 == 77 { r.sample(json!({"description": t, "meaning": want})) }
        }
    }
    let _ = std::fs::remove_file(&file);
    r.finish();
}

pub fn record(path: &str, n: usize) {
    let mut out = Out::new(path);
    let mut r = Report::default();
    let mut rng = Rng::from_env(91);
    let file = format!("{path}.plant");
    for ci in 0..n {
        let large = ci % 90 == 12;
        let len = if large { 400 } else { 1 + rng.below(40) };
        let broken = rng.chance(1, 4);
        let some = |rng: &mut Rng, n: usize| -> Vec<String> { (0..rng.below(n + 1)).map(|_| if rng.chance(1, 2) { rng.pick(&UNIVERSE[..7]).to_string() } else { rng.pick(&SYMBOLS).to_string() }).collect() };
        let mut written = 0;
        let mut lines: Vec<Value> = (0..len).map(|_| {
            let (k, v) = match rng.below(13) {
                0 | 1 => ("n", json!(rng.pick(&["0", "1", "3", "12", "100", "+7", "007", "18446744073709551615"]))),
                2 => ("d", json!(rng.pick(&["90", "-22.5", "45", "0.5", "0", "22.5", "5", "+60", ".5", "90.", "1e1", "-0", "25.7", "360", "-720.25", "1E-3", "000030.0"]))),
                3 => ("d", json!(format!("{}{}.{}", rng.pick(&["", "-"]), rng.below(400), rng.below(1000)))),
                4 => if rng.chance(1, 2) { ("i", json!(rng.pick(&["one", "three"]))) } else { let mut a = some(&mut rng, 9); a.push("X".into());
                    // words that a production cannot have
                    if rng.chance(1, 4) { let at = rng.below(a.len()); a.insert(at, rng.pick(&["->>", "-->", ">->", "->->", "(->)", "<->", "<<", ">>", ";;"]).to_string()) }
                    ("I", json!(a)) },
                5 | 6 => ("p", json!(rng.pick(&PRODS).0)),
                7 | 8 => {
                    let (l, r) = (some(&mut rng, 3), some(&mut rng, 3));
                    let ctx = |v: Vec<String>| if v.is_empty() { json!([]) } else { json!([v]) };
                    let t = if rng.chance(1, 2) { "X".into() } else { rng.pick(&SYMBOLS).to_string() };
                    let q = json!({"l": ctx(l), "t": t, "r": ctx(r), "c": "", "b": some(&mut rng, if large { 60 } else { 12 })});
                    written += 1;
                    // at most four bodies with a chance: they never add up to more than 1
                    let c = if written <= 4 && rng.chance(1, 3) { *rng.pick(&CHANCES[..3]) } else { "" };
                    let mut q = q; q["c"] = json!(c);
                    ("P", q)
                }
                9 if broken && rng.chance(1, 5) => ("bad", json!(rng.pick(&["n", "d", "setting", "line", "production"]))),
                _ => ("blank", json!("")),
            };
            json!({"k": k, "v": v})
        }).collect();
        if !rng.chance(1, 8) { lines.insert(rng.below(len), json!({"k": "i", "v": "three"})); lines.insert(rng.below(len), json!({"k": "p", "v": "leaf"})) }
        // now and then a body that is very long: the symbols that are repeated are not rewritten
        let vast = ci % 40 == 22;
        if vast {
            let part: Vec<&str> = (0..1 + rng.below(3)).map(|_| *rng.pick(&["+", "-", "[", "]", "Move"])).collect();
            let times = *rng.pick(&[250usize, 5000, 32_768, 65_535, 65_536, 66_000]) / part.len() + 1;
            let end: Vec<&str> = (0..1 + rng.below(3)).map(|_| *rng.pick(&SYMBOLS)).collect();
            let body = [part.clone(), end].concat();
            lines.push(json!({"k": "P", "v": {"l": [], "t": "X", "r": [], "c": "", "b": body, "part": part.len(), "times": times}}));
            lines.push(json!({"k": "p", "v": "grow"}));
        }
        let lines = json!(lines);
        write_symbols(if ci % 3 == 1 { ci / 3 } else { 0 });
        let t = text(&lines, false, &mut rng);
        running(&format!("parse {}", if vast { lines.to_string() } else { format!("{t:?}") }));
        let got = observe(&t, &lines, (ci % 20 == 3).then_some(file.as_str()));
        r.cases += 1;
        if got["v"] == "ok" { r.nontrivial += 1 }
        let ev = json!({"src": if vast { "(very long)" } else { t.as_str() }, "lines": lines, "got": got});
        if ci % 199 == 5 { r.sample(ev.clone()) }
        out.put(ev);
    }
    let _ = std::fs::remove_file(&file);
    r.finish();
}
