//! C03 (tokens) and C06 (round trip): src/parser/iterator.rs, src/strings.rs.
use crate::util::*;
use rusty_systems::parser::iterator::TokenIterator;
use rusty_systems::parser::parse_prod_string;
use rusty_systems::prelude::*;
use serde_json::{json, Value};

pub const SPACES: &[char] = &[' ', ' ', '\t', '\n', '\r', '\u{b}', '\u{c}', '\u{85}', '\u{a0}', '\u{1680}',
    '\u{2003}', '\u{2028}', '\u{2029}', '\u{202f}', '\u{205f}', '\u{3000}'];
pub const WORDS: &[char] = &['a', 'Z', '0', '7', '.', '=', '[', ']', '#', ':', '_', '*', 'é', 'ß', '漢', '🌱',
    '\u{200b}', '\u{feff}', '\u{301}', '→', '\\', '"', '\u{0}', '/', '|', '{', '}', ','];

/// Concrete text for a sequence of character classes. Variant 0 is plain ASCII.
pub fn concretise(classes: &[String], variant: usize, rng: &mut Rng) -> Vec<char> {
    let plain = ['a', 'b', 'c', 'd', 'e', 'f', 'g', 'h'];
    classes.iter().enumerate().map(|(i, c)| match c.as_str() {
        "s" => if variant == 0 { ' ' } else { *rng.pick(SPACES) },
        "w" => if variant == 0 { plain[i % 8] } else { *rng.pick(WORDS) },
        p => p.chars().next().unwrap(),
    }).collect()
}

/// What the real tokeniser says: (text, start, end) of each token.
/// Empty tokens are the iterator's end-of-text signal.
fn real_tokens(text: &str) -> Value {
    let r = guard(|| {
        let mut v = Vec::new();
        for t in TokenIterator::new(text) {
            if v.len() > text.len() + 2 { return json!("too many tokens") }
            if !t.text.is_empty() { v.push(json!([t.text, t.start, t.end])) }
        }
        Value::Array(v)
    });
    r.unwrap_or_else(Value::String)
}
fn names(s: &ProductionString) -> Value {
    Value::Array(s.iter().map(|t| t.name().map(Value::String).unwrap_or(Value::Null)).collect())
}
fn real_parse(text: &str) -> Value {
    guard(|| match parse_prod_string(text) { Ok(s) => names(&s), Err(_) => json!("error") }).unwrap_or_else(Value::String)
}
fn real_from_str(text: &str) -> Value {
    guard(|| match text.parse::<ProductionString>() { Ok(s) => names(&s), Err(_) => json!("error") }).unwrap_or_else(Value::String)
}

fn expected(case: &Value, chars: &[char]) -> (Value, Value) {
    let mut off = vec![0usize];
    for c in chars { off.push(off.last().unwrap() + c.len_utf8()) }
    let slice = |t: &Value| {
        let (a, b) = (int(&t["a"]) as usize, int(&t["b"]) as usize);
        (chars[a - 1..b].iter().collect::<String>(), off[a - 1], off[b])
    };
    let toks = case["toks"].as_array().unwrap().iter().map(|t| { let (s, a, b) = slice(t); json!([s, a, b]) }).collect();
    let parse = if case["p"]["ok"] == json!(true) {
        Value::Array(case["p"]["syms"].as_array().unwrap().iter().map(|t| json!(slice(t).0)).collect())
    } else { json!("error") };
    (Value::Array(toks), parse)
}

pub fn replay(path: &str, variants: usize) {
    let mut r = Report::default();
    let mut rng = Rng::from_env(3);
    for case in tlc_cases(path) {
        let classes = strs(&case["text"]);
        for v in 0..variants {
            let chars = concretise(&classes, v, &mut rng);
            let text: String = chars.iter().collect();
            running(&format!("tokenise/parse {text:?}"));
            let (toks, parse) = expected(&case, &chars);
            r.cases += 1;
            if toks.as_array().unwrap().len() > 1 { r.nontrivial += 1 }
            r.check(|| json!({"text": text, "call": "TokenIterator"}), toks.clone(), real_tokens(&text));
            r.check(|| json!({"text": text, "call": "parse_prod_string"}), parse.clone(), real_parse(&text));
            r.check(|| json!({"text": text, "call": "str::parse::<ProductionString>"}), parse.clone(), real_from_str(&text));
            if r.cases % 40_001 == 7 { r.sample(json!({"text": text, "tokens": toks, "parsed": parse})) }
        }
    }
    r.finish();
}

/// The generated texts, with every character of a class in the place of one of its members.
pub fn sweep(path: &str) {
    let words: Vec<char> = every_char().filter(|c| !WHITE.contains(c) && !"<>-+();".contains(*c)).collect();
    let mut jobs = vec![];
    for case in tlc_cases(path) {
        let classes = strs(&case["text"]);
        for hole in 0..classes.len() {
            // (a hole in each run of words only once)
            if classes[hole] == "s" || (classes[hole] == "w" && (hole == 0 || classes[hole - 1] != "w" || hole + 1 == classes.len())) { jobs.push((case.clone(), classes.clone(), hole)) }
        }
    }
    let next = std::sync::atomic::AtomicUsize::new(0);
    let total = std::sync::Mutex::new(Report::default());
    std::thread::scope(|t| {
        for _ in 0..8 { t.spawn(|| {
            let mut r = Report::default();
            let mut rng = Rng::from_env(5);
            loop {
                let Some((case, classes, hole)) = jobs.get(next.fetch_add(1, std::sync::atomic::Ordering::SeqCst)) else { break };
                running(&format!("tokenise/parse a text of the classes {classes:?} with every character in place {hole}"));
                let mut chars = concretise(classes, 0, &mut rng);
                let toks: Vec<(usize, usize)> = case["toks"].as_array().unwrap().iter().map(|t| (int(&t["a"]) as usize - 1, int(&t["b"]) as usize)).collect();
                let syms: Option<Vec<(usize, usize)>> = (case["p"]["ok"] == json!(true)).then(|| case["p"]["syms"].as_array().unwrap().iter().map(|t| (int(&t["a"]) as usize - 1, int(&t["b"]) as usize)).collect());
                for (k, c) in (if classes[*hole] == "s" { WHITE } else { &words }).iter().enumerate() {
                    chars[*hole] = *c;
                    let text: String = chars.iter().collect();
                    if k % 1024 == 0 { running(&format!("tokenise/parse {text:?} and others like it")) }
                    let part = |(a, b): &(usize, usize)| chars[*a..*b].iter().collect::<String>();
                    let at = |k: usize| chars[..k].iter().map(|c| c.len_utf8()).sum::<usize>();
                    r.cases += 1;
                    if toks.len() > 1 { r.nontrivial += 1 }
                    let got = guard(|| TokenIterator::new(&text).take(9).filter(|t| !t.text.is_empty()).map(|t| (t.text.to_string(), t.start, t.end)).collect::<Vec<_>>());
                    let want: Vec<_> = toks.iter().map(|t| (part(t), at(t.0), at(t.1))).collect();
                    if got.as_ref() != Ok(&want) { r.mismatch(json!({"text": text, "call": "TokenIterator"}), json!(want), json!(format!("{got:?}"))) }
                    let got = guard(|| parse_prod_string(&text).map(|s| s.iter().map(|s| s.name().unwrap_or_default()).collect::<Vec<_>>()).ok());
                    let want: Option<Vec<_>> = syms.as_ref().map(|s| s.iter().map(part).collect());
                    if got.as_ref() != Ok(&want) { r.mismatch(json!({"text": text, "call": "parse_prod_string"}), json!(want), json!(format!("{got:?}"))) }
                }
            }
            let mut all = total.lock().unwrap();
            all.cases += r.cases;
            all.nontrivial += r.nontrivial;
            all.mismatch_count += r.mismatch_count;
            all.mismatches.extend(r.mismatches);
        }); }
    });
    let mut r = total.into_inner().unwrap();
    r.mismatches.truncate(10);
    r.finish();
}

fn random_classes(rng: &mut Rng, long: bool) -> Vec<String> {
    let n = if long { 200 + rng.below(1400) } else { match rng.below(4) { 0 => rng.below(8), 1 => rng.below(20), _ => rng.below(60) } };
    // Long texts: many short tokens, or few very long ones.
    if long {
        let (a, b) = *rng.pick(&[(1, 2), (1, 3), (1, 40), (1, 400)]);
        let p = rng.chance(1, 2);
        return (0..n).map(|_| if rng.chance(a, b) { "s".into() } else if p && rng.chance(1, 9) { rng.pick(&["-", "+", "(", ")", "<", ">"]).to_string() } else { "w".into() }).collect();
    }
    // Different texts favour different characters.
    let w = [rng.below(6) + 1, rng.below(6) + 1, rng.below(3)];
    (0..n).map(|_| {
        let k = rng.below(w[0] + w[1] + w[2]);
        if k < w[0] { "w".into() } else if k < w[0] + w[1] { "s".into() }
        else { rng.pick(&["<", ">", "-", "+", "(", ")", ";", "+", "-"]).to_string() }
    }).collect()
}

/// A very large text: as runs of equal classes, or as a part that ends in white space and a count.
fn large(rng: &mut Rng, turn: usize) -> (Value, Vec<char>) {
    let class = |rng: &mut Rng| if rng.chance(1, 6) { rng.pick(&["-", "+", "(", ")", "<", ">", ";"]).to_string() } else if rng.chance(1, 2) { "w".into() } else { "s".to_string() };
    if turn % 2 == 0 {
        // (the character stays the same within a run)
        let n = *rng.pick(&[3usize, 12, 300]);
        let mut runs: Vec<(String, usize)> = vec![];
        while runs.len() < n {
            let c = class(rng);
            let len = if c == ";" { 2 } else { *rng.pick(&[1usize, 2, 127, 128, 255, 256, 257, 1000]) };
            runs.push((c, len));
        }
        for _ in 0..2 { let k = rng.below(n); if runs[k].0 != ";" { runs[k].1 = *rng.pick(&[4095usize, 4096, 65_535, 65_536, 70_000, 300_000]) } }
        let mut chars = vec![];
        for (c, len) in &runs { let ch = concretise(&[c.clone()], 1 + turn % 3, rng)[0]; chars.extend(std::iter::repeat_n(ch, *len)); }
        (json!({"kind": "runs", "runs": runs, "text": []}), chars)
    } else {
        let n = 1 + rng.below(12);
        let mut part: Vec<String> = (0..n).map(|_| { let c = class(rng); if c == ";" || c == "<" || c == ">" { "w".into() } else { c } }).collect();
        part.push("s".into());
        let m = if turn % 8 == 1 { 22_000 } else { 700 };
        let mut chars = vec![];
        for k in 0..m { chars.extend(concretise(&part, if k % 100 == 0 { 1 } else { 0 }, rng)) }
        (json!({"kind": "rep", "text": part, "m": m}), chars)
    }
}

/// Traces of the real tokeniser on long random texts: classes of the text, the
/// token ranges (in characters) and which tokens were returned as symbols.
pub fn record(path: &str, n: usize) {
    let mut out = Out::new(path);
    let mut r = Report::default();
    let mut rng = Rng::from_env(4);
    for i in 0..n {
        let (mut ev, chars) = if i % 491 == 17 { large(&mut rng, i / 491) } else {
            let classes = random_classes(&mut rng, i % 97 == 11);
            let chars = concretise(&classes, i % 3, &mut rng);
            (json!({"kind": "text", "text": classes}), chars)
        };
        let text: String = chars.iter().collect();
        running(&format!("tokenise/parse {:?}", text.chars().take(2000).collect::<String>()));
        let mut at = std::collections::HashMap::new();
        let mut o = 0;
        for (k, c) in chars.iter().enumerate() { at.insert(o, k + 1); o += c.len_utf8(); }
        at.insert(o, chars.len() + 1);
        let toks = real_tokens(&text);
        let ranges: Vec<Value> = match toks.as_array() {
            None => vec![json!([0, 0])],
            Some(a) => a.iter().map(|t| {
                let (s, e) = (int(&t[1]) as usize, int(&t[2]) as usize);
                let (a, b) = (at.get(&s).copied().unwrap_or(0), at.get(&e).copied().unwrap_or(1) - 1);
                let same = text.get(s..e) == t[0].as_str();
                if same { json!([a, b]) } else { json!([0, 0]) }
            }).collect(),
        };
        let p = real_parse(&text);
        // Map the returned names back to tokens, in order.
        let syms = match p.as_array() {
            None => json!({"k": if p == json!("error") { "error" } else { "panic" }, "n": 0}),
            Some(a) => {
                let all: Vec<&Value> = toks.as_array().map(|t| t.iter().map(|x| &x[0]).collect()).unwrap_or_default();
                let same = a.len() <= all.len() && a.iter().zip(&all).all(|(x, y)| x == *y);
                json!({"k": if same { "ok" } else { "other" }, "n": a.len()})
            }
        };
        // C06: print and read again.
        let rt = guard(|| match parse_prod_string(&text) {
            Err(_) => "none".to_string(),
            Ok(s) => {
                let shown = s.to_string();
                let want: Vec<String> = s.iter().map(|t| t.name().unwrap_or_default()).collect();
                if shown != want.join(" ") { return "printed wrongly".into() }
                match parse_prod_string(&shown) {
                    Ok(q) => if q == s { "same".into() } else { "different".into() },
                    Err(_) => "unreadable".into(),
                }
            }
        }).unwrap_or_else(|p| p);
        r.cases += 1;
        if ranges.len() > 1 { r.nontrivial += 1 }
        ev["src"] = json!(text.chars().take(2000).collect::<String>());
        ev["toks"] = json!(ranges);
        ev["p"] = syms;
        ev["rt"] = json!(rt);
        if i % 997 == 5 { r.sample(ev.clone()) }
        out.put(ev);
    }
    r.extra.insert("events".into(), json!(out.1));
    r.finish();
}

/// C06 on the generated texts, and equality of strings against equality of symbol sequences.
pub fn roundtrip(path: &str, variants: usize) {
    let mut r = Report::default();
    let mut rng = Rng::from_env(6);
    let mut prev: Option<(Vec<String>, ProductionString)> = None;
    for case in tlc_cases(path) {
        if case["p"]["ok"] != json!(true) { continue }
        let classes = strs(&case["text"]);
        for v in 0..variants {
            let chars = concretise(&classes, v, &mut rng);
            let text: String = chars.iter().collect();
            running(&format!("print and parse {text:?}"));
            let (_, parse) = expected(&case, &chars);
            let want: Vec<String> = strs(&parse);
            r.cases += 1;
            if want.len() > 1 { r.nontrivial += 1 }
            let c = || json!({"text": text, "call": "parse, print, parse"});
            let got = guard(|| {
                let s = parse_prod_string(&text).map_err(|e| e.to_string())?;
                let shown = s.to_string();
                let back = parse_prod_string(&shown).map_err(|e| e.to_string())?;
                let back2: ProductionString = shown.parse().map_err(|e: Error| e.to_string())?;
                let mut flags = vec![];
                flags.push(back == s && s == back);
                flags.push(back2 == s);
                flags.push(back.len() == s.len() && back.to_string() == shown);
                if let Some((pw, ps)) = &prev {
                    flags.push((*ps == s) == (*pw == want));
                    flags.push((s == *ps) == (*pw == want));
                }
                // equal up to the last symbol is not equal
                if !s.is_empty() {
                    let shorter = ProductionString::from(s.symbols()[..s.len() - 1].to_vec());
                    flags.push(shorter != s && s != shorter);
                    let mut swapped = s.symbols().clone();
                    let n = swapped.len();
                    swapped.swap(0, n - 1);
                    let sw = ProductionString::from(swapped);
                    flags.push((sw == s) == (want[0] == want[n - 1]));
                }
                Ok::<_, String>((shown, s, flags))
            });
            match got {
                Ok(Ok((shown, s, flags))) => {
                    let ok = r.check(c, json!(want.join(" ")), json!(shown));
                    if ok && flags.iter().any(|f| !f) { r.mismatch(c(), json!("equal exactly when same symbols; reads back equal"), json!(flags)) }
                    if r.cases % 30_011 == 9 { r.sample(json!({"text": text, "printed": shown})) }
                    prev = Some((want, s));
                }
                Ok(Err(e)) => r.mismatch(c(), json!(want), json!(format!("error: {e}"))),
                Err(p) => r.mismatch(c(), json!(want), json!(p)),
            }
        }
    }
    r.finish();
}
