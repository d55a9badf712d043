//! C05 (production text) and C04 (no text makes a parser fail otherwise than by an error).
use crate::util::*;
use rusty_systems::interpretation::abop;
use rusty_systems::parser::*;
use rusty_systems::prelude::*;
use rusty_systems::productions::{Production, ProductionBody, ProductionHead};
use serde_json::{json, Value};

const SETS: &[[&str; 2]] = &[["A", "B"], ["Forward", "+"], ["é", "漢字"], ["-", "]"], ["a<b", "x>"], ["=", "#c"], ["[", "_1"], ["--", ">>"], ["0x1", "1a"]];
const GOOD: &[&str] = &["0.5", "0", "1", "0.0", "1.0", ".25", "1.", "0.125", "1e-3", "0.3333333"];
const BAD: &[&str] = &["7", "1.01", "-0.5", "1.0001", "-1", "1e9", "2.0"];
const SPACE: &[&str] = &[" ", "  ", "\t", "\n", "\r\n", " \u{c} "];

/// A number that is a chance, or one that is not, in one of its many spellings.
fn number(rng: &mut Rng, good: bool) -> String {
    if rng.chance(1, 4) { return rng.pick(if good { GOOD } else { BAD }).to_string() }
    loop {
        let f = match rng.below(6) { 0 => rng.below(1 << 20) as f32 / (1 << 20) as f32, 1 => rng.below(1001) as f32 / 1000.0, 2 => f32::from_bits(rng.next() as u32), 3 => 1.0 + rng.below(99) as f32 / 1e7,
            4 => -(rng.below(99) as f32) / 1e9, _ => rng.below(30) as f32 / 10.0 };
        let s = match rng.below(7) { 0 => format!("{f}"), 1 => format!("{f:e}"), 2 => format!("{f:E}"), 3 => format!("{f:.7}"), 4 => format!("+{}", f.abs()), 5 => format!("00{}", f.abs()), _ => format!("{:.20}", f as f64 / 3.0) };
        if s.len() < 60 && s.parse::<f32>().is_ok_and(|v| (v >= 0.0 && v <= 1.0) == good) { return s }
    }
}

/// The concrete terms and the text.
fn concretise(terms: &[String], variant: usize, rng: &mut Rng) -> (Vec<String>, String) {
    let words = vocabulary(rng.below(2048), 2);
    let set = if variant == 0 { SETS[0] } else if rng.chance(1, 2) { [&words[0][..], &words[1]] } else { *rng.pick(SETS) };
    let conc: Vec<String> = terms.iter().map(|t| match t.as_str() {
        "A" => set[0].to_string(),
        "B" => set[1].to_string(),
        "num" => if variant == 0 { "0.5".into() } else { number(rng, true) },
        "bad" => if variant == 0 { "7".into() } else { number(rng, false) },
        t => t.to_string(),
    }).collect();
    let mut text = String::new();
    let safe = |s: &str, end: bool| { let c = if end { s.chars().last() } else { s.chars().next() }; c.is_some_and(|c| c.is_alphanumeric()) };
    let arrow = terms.iter().position(|t| t == "->");
    for (i, c) in conc.iter().enumerate() {
        if i > 0 {
            // white space may be missing next to the arrow
            let glue = variant > 0 && (Some(i) == arrow && safe(&conc[i - 1], true) || arrow == Some(i - 1) && safe(c, false)) && rng.chance(1, 3);
            if !glue { text += if variant == 0 { " " } else { rng.pick(SPACE) } }
        }
        text += c;
    }
    if variant > 0 && rng.chance(1, 2) { text = format!("{}{text}{}", rng.pick(SPACE), rng.pick(SPACE)) }
    (conc, text)
}

fn names(s: &ProductionString) -> Value { json!(s.iter().map(|x| x.name().unwrap_or("?".into())).collect::<Vec<_>>()) }
fn ctx(c: Option<&ProductionString>) -> Value { match c { None => json!([]), Some(s) => json!([names(s)]) } }
fn show_head(h: &ProductionHead) -> Value { json!({"l": ctx(h.pre_context()), "t": [h.target().name()], "r": ctx(h.post_context())}) }
fn show_body(b: &ProductionBody) -> Value {
    let c = b.chance();
    let chance = match (c.is_derived(), c.is_user_set()) {
        (true, false) => json!("unset"), (false, true) => json!(format!("{:?}", c.unwrap_or(f32::NAN))), _ => json!("both or neither"),
    };
    json!({"c": chance, "b": names(b.string())})
}
fn show(p: &Production) -> Value {
    let (h, b) = (show_head(p.head()), &p.all_bodies());
    if b.len() != 1 { return json!({"bodies": b.len()}) }
    let b = show_body(&b[0]);
    json!({"l": h["l"], "t": h["t"], "r": h["r"], "c": b["c"], "b": b["b"]})
}
fn res<T>(r: Result<Result<T, Error>, String>, f: impl Fn(&T) -> Value) -> Value {
    match r { Ok(Ok(v)) => f(&v), Ok(Err(_)) => json!("error"), Err(p) => json!(p) }
}

/// What the specification's answer means for these terms (they are used in order).
fn expected(want: &Value, terms: &[String], conc: &[String]) -> Value {
    if want["v"] != json!("ok") { return want["v"].clone() }
    let mut it = terms.iter().zip(conc).filter(|_| true);
    // Walk the terms again: left, <, target, >, right, ->, chance, body.
    let mut take = |n: usize| -> Vec<String> { (0..n).map(|_| it.next().unwrap().1.clone()).collect() };
    let len = |v: &Value| v.as_array().unwrap().len();
    let mut out = json!({});
    out["l"] = if len(&want["l"]) == 1 { let l = take(len(&want["l"][0])); take(1); json!([l]) } else { json!([]) };
    out["t"] = json!(take(1));
    out["r"] = if len(&want["r"]) == 1 { take(1); json!([take(len(&want["r"][0]))]) } else { json!([]) };
    take(1);
    out["c"] = if want["c"] == json!("num") { json!(format!("{:?}", take(1)[0].parse::<f32>().unwrap())) } else { json!("unset") };
    out["b"] = json!(take(len(&want["b"])));
    out
}

pub fn replay(path: &str, variants: usize) {
    let mut r = Report::default();
    let mut rng = Rng::from_env(40);
    for (ci, case) in tlc_cases(path).enumerate() {
        if case["want"]["v"] == json!("any") { continue }
        let terms = strs(&case["text"]);
        for v in 0..variants {
            let (conc, text) = concretise(&terms, v, &mut rng);
            let want = expected(&case["want"], &terms, &conc);
            running(&format!("parse_production {text:?}"));
            r.cases += 1;
            if want != json!("error") { r.nontrivial += 1 }
            let got = match (v + ci) % 5 {
                0 => ("str::parse::<Production>", res(guard(|| text.parse::<Production>()), show)),
                1 => ("Production::try_from(String)", res(guard(|| Production::try_from(text.clone())), show)),
                2 => ("Production::try_from(&str)", res(guard(|| Production::try_from(text.as_str())), show)),
                3 => ("System::add_production", res(guard(|| System::new().add_production(text.as_str())), show)),
                _ => ("parse_production", res(guard(|| parse_production(&text)), show)),
            };
            r.check(|| json!({"call": got.0, "text": text}), want.clone(), got.1);
            if (v + ci) % 5 != 4 { r.check(|| json!({"call": "parse_production", "text": text}), want.clone(), res(guard(|| parse_production(&text)), show)); }
            // The parts on their own.
            if let Some(a) = terms.iter().position(|t| t == "->") {
                let sep = *rng.pick(SPACE);
                let (head, body) = (conc[..a].join(sep), conc[a + 1..].join(sep));
                if want != json!("error") {
                    r.check(|| json!({"call": "parse_production_head", "text": head}), json!({"l": want["l"], "t": want["t"], "r": want["r"]}), res(guard(|| parse_production_head(&head)), show_head));
                    r.check(|| json!({"call": "parse_production_body", "text": body}), json!({"c": want["c"], "b": want["b"]}), res(guard(|| parse_production_body(&body)), show_body));
                }
            }
            if r.cases % 10_007 == 9 { r.sample(json!({"text": text, "parsed": want})) }
        }
    }
    r.finish();
}

/// Long random production texts with what the real parser made of them, in terms.
pub fn record(path: &str, n: usize) {
    let mut out = Out::new(path);
    let mut r = Report::default();
    let mut rng = Rng::from_env(41);
    for ci in 0..n {
        let mut terms: Vec<String> = vec![];
        // now and then hundreds of terms
        let large = ci % 100 == 43;
        let few = if large { 300 } else { 6 };
        let some = |rng: &mut Rng, n: usize, v: &mut Vec<String>| for _ in 0..rng.below(n + 1) { v.push(rng.pick(&["A", "B", "A", "B", "num", "bad"]).to_string()) };
        if rng.chance(1, 2) { some(&mut rng, few, &mut terms); terms.push("<".into()) }
        if rng.chance(9, 10) { terms.push(rng.pick(&["A", "B"]).to_string()) } else { some(&mut rng, 2, &mut terms) }
        if rng.chance(1, 2) { terms.push(">".into()); some(&mut rng, few, &mut terms) }
        if rng.chance(19, 20) { terms.push("->".into()) }
        if rng.chance(1, 3) { terms.push(rng.pick(&["num", "num", "bad"]).to_string()) }
        for _ in 0..rng.below(if large { 300 } else { 14 }) { terms.push(rng.pick(&["A", "B", "num", "<", ">", "->", "bad"]).to_string()) }
        let (conc, text) = concretise(&terms, 1 + ci % 3, &mut rng);
        running(&format!("parse_production {text:?}"));
        let got = res(guard(|| parse_production(&text)), show);
        // Back to terms: only the i-th occurrence of a term can stand for it.
        let mut at = 0usize;
        let mut ok = true;
        let mut back = |v: &Value, skip: usize| -> Value {
            at += skip;
            let mut o = vec![];
            for x in v.as_array().into_iter().flatten() {
                match (conc.get(at), terms.get(at)) { (Some(c), Some(t)) if json!(c) == *x => o.push(json!(t)), _ => ok = false }
                at += 1;
            }
            json!(o)
        };
        let g = if got.is_object() && got.get("bodies").is_none() {
            let has_l = got["l"].as_array().unwrap().len() == 1;
            let l = if has_l { json!([back(&got["l"][0], 0)]) } else { json!([]) };
            let t = back(&got["t"], has_l as usize);
            let r2 = if got["r"].as_array().unwrap().len() == 1 { json!([back(&got["r"][0], 1)]) } else { json!([]) };
            let set = got["c"] != json!("unset");
            let b = back(&got["b"], 1 + set as usize);
            let c = if !set { json!("unset") } else {
                let a = terms.iter().position(|t| t == "->").unwrap_or(0) + 1;
                let same = conc.get(a).and_then(|c| c.parse::<f32>().ok()).is_some_and(|f| json!(format!("{f:?}")) == got["c"]);
                json!(if same { "num" } else { "another number" })
            };
            if ok { json!({"v": "ok", "l": l, "t": t, "r": r2, "c": c, "b": b}) } else { json!({"v": "not the terms of the text"}) }
        } else if got == json!("error") { json!({"v": "error"}) } else { json!({"v": got.to_string()}) };
        r.cases += 1;
        if terms.len() > 6 { r.nontrivial += 1 }
        let ev = json!({"src": text, "text": terms, "got": g});
        if ci % 499 == 5 { r.sample(ev.clone()) }
        out.put(ev);
    }
    r.finish();
}

// --- C04 -------------------------------------------------------------------

const NUMBERS: &[&str] = &["nan", "inf", "-inf", "1e400", "-0", "1e-50", "0", "1", "2", "-1", "18446744073709551616", "+1", "NaN", "0.5", "1.0000001", "-0.0000001", "0x10", "18446744073709551615", "9223372036854775808", "4294967296", "4294967295", "-9223372036854775808", "340282350000000000000000000000000000000", "infinity", "1e-400", "00000000000000000000000000000000000001"];
pub const ENTRY: [&str; 8] = ["parse_prod_string", "parse_production", "parse_production_head", "parse_production_body",
    "str::parse::<Symbol>", "abop::parser::parse", "System::add_production", "parse_and_add_production"];
fn call(entry: usize, t: &str) -> Result<&'static str, String> {
    fn k<T>(r: Result<T, Error>) -> &'static str { if r.is_ok() { "ok" } else { "error" } }
    guard(|| match entry {
        0 => k(parse_prod_string(t)),
        1 => k(parse_production(t)),
        2 => k(parse_production_head(t)),
        3 => k(parse_production_body(t)),
        4 => k(t.parse::<Symbol>()),
        5 => k(abop::parser::parse(t)),
        6 => k(System::new().add_production(t)),
        _ => k(parse_and_add_production(&std::cell::RefCell::new(std::collections::HashSet::new()), &std::cell::RefCell::new(Vec::new()), t)),
    })
}

/// The generated texts many times over, on a small stack.
pub fn huge(path: &str, every: usize) {
    const M: usize = 50_000;
    let cases: Vec<Vec<String>> = tlc_cases(path).map(|c| strs(&c["text"])).filter(|f| f.len() == 3).collect();
    let seed = Rng::from_env(0).below(every);
    let total = std::sync::Mutex::new(Report::default());
    let next = std::sync::atomic::AtomicUsize::new(0);
    let work = || {
        let mut r = Report::default();
        loop {
            let k = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst) * every + seed;
            let Some(f) = cases.get(k) else { break };
            let f: Vec<&str> = f.iter().map(|f| match f.as_str() { "w" => "a", "s" => " ", "nl" => "\n", "num" => "0.5", f => f }).collect();
            for text in [f.concat().repeat(M), format!("{}{}{}", f[0], format!("{} ", f[1]).repeat(M), f[2])] {
                r.cases += 1;
                r.nontrivial += 1;
                for (e, name) in ENTRY.iter().enumerate() {
                    let d = || json!({"call": name, "parts": f, "times": M, "text begins": text.chars().take(60).collect::<String>()});
                    running(&d().to_string());
                    if let Err(p) = call(e, &text) { r.mismatch(d(), json!("a value or an error"), json!(p)) }
                }
            }
        }
        let mut all = total.lock().unwrap();
        all.cases += r.cases;
        all.nontrivial += r.nontrivial;
        all.mismatch_count += r.mismatch_count;
        all.mismatches.extend(r.mismatches);
    };
    std::thread::scope(|t| { for _ in 0..8 { std::thread::Builder::new().stack_size(160 << 10).spawn_scoped(t, work).expect("thread"); } });
    let mut r = total.into_inner().unwrap();
    r.mismatches.truncate(10);
    r.finish();
}

/// Every generated text (fragments, possibly concretised) at every entry point.
pub fn no_panic(path: &str, variants: usize) {
    let mut r = Report::default();
    let mut rng = Rng::from_env(42);
    let mut oks = [0u64; 8];
    for case in tlc_cases(path) {
        let frags = strs(&case["text"]);
        // (every number that a plant's setting or a short body could have)
        let all = frags.iter().any(|f| f == "num") && (frags.iter().any(|f| f == "=" || f == ":") || frags.len() < 3);
        for v in 0..if all { NUMBERS.len() + 1 } else { variants } {
            let text: String = frags.iter().map(|f| match f.as_str() {
                "w" => if v == 0 { "a".to_string() } else { rng.pick(crate::lex::WORDS).to_string() },
                "s" => if v == 0 { " ".to_string() } else { rng.pick(crate::lex::SPACES).to_string() },
                "nl" => if v == 0 { "\n".to_string() } else { rng.pick(&["\n", "\r\n", "\r", "\u{2028}"]).to_string() },
                "num" => if v > 0 && all { NUMBERS[v % NUMBERS.len()].to_string() } else { rng.pick(NUMBERS).to_string() },
                f => f.to_string(),
            }).collect();
            r.cases += 1;
            for (e, name) in ENTRY.iter().enumerate() {
                running(&format!("{name} {text:?}"));
                match call(e, &text) {
                    Ok("ok") => oks[e] += 1,
                    Ok(_) => {}
                    Err(p) => r.mismatch(json!({"call": name, "text": text}), json!("a value or an error"), json!(p)),
                }
            }
            if r.cases % 100_003 == 5 { r.sample(json!({"text": text, "calls": ENTRY})) }
        }
    }
    r.nontrivial = oks.iter().sum();
    r.extra.insert("accepted".into(), json!(ENTRY.iter().zip(oks).map(|(n, k)| json!({"call": n, "texts": k})).collect::<Vec<_>>()));
    r.finish();
}

/// A text that some entry point takes, with a few characters deleted, doubled, swapped,
/// inserted or replaced, or cut short.
fn mutated(rng: &mut Rng) -> String {
    let valid = ["initial: A B", "n = 3\ndelta = 22.5\ninitial: X\nX -> F [ + X ] F\n# end\n", "∂ = 90\nn = 1\ninitial: F\nF -> F + F", "A < B > C -> 0.5 A B", "A -> ", "A < B -> B", "B > C -> 1 C ; D",
        "delta=10\r\n\r\nn=2\r\ninitial:F\r\nF->F F", "Forward", "[ + Forward - ]", "name with spaces", "n = 1\n\ninitial: A ; comment\nA -> A B ; comment", "A < B C -> D", "#", "initial: A\nA -> 0.25 B\nA -> 0.75 C"];
    let mut c: Vec<char> = rng.pick(&valid).chars().collect();
    let extra = [' ', '\n', '\t', ':', '=', '-', '>', '<', ';', '#', 'n', 'i', '0', '.', 'é', '\u{2003}', '\u{2028}', '\u{0}', '∂', '+', 'e', '\r'];
    for _ in 0..1 + rng.below(4) {
        if c.is_empty() { c.push(*rng.pick(&extra)) }
        let (k, n) = (rng.below(c.len()), c.len());
        match rng.below(8) {
            0 | 1 => { c.remove(k); }
            2 => { let x = c[k]; c.insert(k, x) }
            3 => { let m = rng.below(n); c.swap(k, m) }
            4 => c.insert(k, *rng.pick(&extra)),
            5 => c[k] = *rng.pick(&extra),
            6 => c.truncate(k),
            _ => { c.drain(..k); }
        }
    }
    c.into_iter().collect()
}

/// A text that some entry point takes, vast in one way or another.
fn vast(rng: &mut Rng) -> String {
    let n = *rng.pick(&[255usize, 256, 4096, 32_767, 65_534, 65_535, 65_535, 65_536, 70_000, 140_000]);
    let names = |rng: &mut Rng, n: usize| match rng.below(3) { 0 => "X ".repeat(n), 1 => (0..n).map(|k| format!("v{} ", k % 700)).collect(), _ => "[ + Leaf ] ".repeat(n / 4 + 1) };
    let long = names(rng, n);
    let few = n.min(4096);
    match rng.below(11) {
        0 => format!("initial: X\nn = 1\nX -> {long}\n"),
        9 | 10 => format!("initial: X\nX -> {}\nX -> {}\n", "X ".repeat(n), "X ".repeat(1 + rng.below(9))),
        // that with what the next production says of the same head
        1 => format!("initial: X\nX -> {long}\nX -> 0.25 X X X\nX -> 0.25 {}\n", names(rng, 300)),
        2 => format!("initial: {long}\nX -> Forward"),
        3 => format!("X -> {long}"),
        4 => format!("{long} < X > {} -> Forward", names(rng, few)),
        5 => format!("initial: X\n{}", (0..few).map(|k| format!("X -> {} v{k}\n", if rng.chance(1, 2) { "0.0001" } else { "" })).collect::<String>()),
        6 => format!("{}initial: X\n{}X -> X", "# nothing\n".repeat(few), (0..few).map(|k| format!("n = {k}\ndelta = {k}.5\n")).collect::<String>()),
        7 => format!("initial: X\n{}", (0..few).map(|k| format!("v{k} < X -> Forward v{}\n", k + 1)).collect::<String>()),
        _ => long,
    }
}

/// Random texts, long ones too; outcomes recorded for the specification to judge.
pub fn no_panic_record(path: &str, n: usize) {
    let mut out = Out::new(path);
    let mut r = Report::default();
    let mut rng = Rng::from_env(43);
    let frag = ["->", "<", ">", " ", " ", "\n", "a", "b", "n = 3", "delta = 4", "initial: A B", "=", ":", "#", ";", "0.5 ", "-1 ", "nan ", "A -> B", "A", "[", "]", "+", "-", "\u{2003}", "é", "漢", "\u{0}", "\r", "(", ")", "initial:", "initial", "initial A", "delta", "delta 3", "n", "n 3", "∂", "∂ 5", "n=", "9999999999999999999999", "1e39 ", "\u{10ffff}", "\u{feff}"];
    for ci in 0..n {
        let len = match rng.below(10) { 0 => 0, 1..=6 => rng.below(12), 7 | 8 => rng.below(80), _ => rng.below(3000) };
        let mut t = String::new();
        if ci % 25 == 20 {
            t = vast(&mut rng);
        } else if ci % 90 == 50 {
            // enormous: one or two fragments many thousands of times
            let (a, b) = (*rng.pick(&frag), *rng.pick(&frag));
            if ci % 180 == 50 { t += rng.pick(&["", "initial: A\nn = 1\n", "A -> ", "A < "]) }
            for k in 0..60_000 { t += a; if k % 3 == 0 { t += b } else { t.push(' ') } }
        } else if ci % 3 == 0 { t = mutated(&mut rng) } else { for _ in 0..len {
            if rng.chance(1, 12) { t.push(char::from_u32(rng.below(0x3000) as u32).unwrap_or('x')) } else { t += rng.pick(&frag) }
        } }
        let mut got = vec![];
        for (e, name) in ENTRY.iter().enumerate() {
            let cut: String = t.chars().take(400).collect();
            running(&format!("{name} {cut:?}"));
            got.push(match call(e, &t) { Ok(k) => json!(k), Err(p) => json!(p) });
            r.cases += 1;
        }
        if got.contains(&json!("ok")) { r.nontrivial += 1 }
        let cut: String = t.chars().take(200).collect();
        if ci % 997 == 3 { r.sample(json!({"text": cut, "outcomes": got})) }
        out.put(json!({"src": cut, "got": got}));
    }
    r.finish();
}
