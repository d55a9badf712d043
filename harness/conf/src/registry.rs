//! C01 and C02 on long sequential histories: thousands of names, in many spellings.
use crate::util::*;
use rusty_systems::prelude::*;
use rusty_systems::symbols::{get_code, get_name};
use serde_json::json;
use std::collections::HashMap;

const PADS: &[&str] = &["", " ", "\t", "\n", "  \r\n", "\u{a0}", "\u{2003}", "\u{3000}", "\u{85}"];
const STEMS: &[&str] = &["a", "A", "ab", "é", "e\u{301}", "漢", "🌱", "a b", "a\u{2003}b", "0", "-", "->", "<", "[", "\u{200b}", "ſ", "S", "ﬁ", "fi", "İ", "i", "\0", "code:101",
    "a\0", "\u{feff}a", "a\u{feff}", "a  b", "a\u{a0}b", "a\tb", "a\nb", "\u{200d}", "\u{301}e", "\u{202e}a", "\u{10ffff}", "\u{e000}", "#a", "a#", "a=b", "\"a\"", "a\\b", "%s", "{}", "İi", "ı", "Σ", "ς", "ά", "ά", "한", "한"];

/// Names of many lengths that differ in one character, first, last or somewhere else.
fn long_name(rng: &mut Rng, run: usize, n: usize) -> String {
    let len = [15usize, 16, 17, 31, 32, 63, 64, 65, 127, 128, 255, 256, 257, 1000, 4096, 70_000][n / 4 % 16];
    let len = if len == 70_000 && run % 6 != 0 { 4097 } else { len };
    let mut t: Vec<char> = (0..len).map(|k| if len > 60 && n % 32 < 16 && k % 7 == 3 { '漢' } else { char::from(b'a' + ((k + run) % 26) as u8) }).collect();
    match n % 4 { 0 => {} 1 => t[0] = 'Z', 2 => t[len - 1] = 'Z', _ => { let at = len / 2; t[at] = 'Z' } }
    if rng.chance(1, 9) { t.push('é') }
    t.into_iter().collect()
}

/// Names that are nearly the same: with other white space, case or forms of letters inside.
fn near_name(rng: &mut Rng, run: usize) -> String {
    const SEPARATORS: &[&str] = &["", " ", "  ", "\t", "\n", "\u{a0}", "\u{2003}", "\u{200b}", "_", "-", "\0", "."];
    const HEADS: &[&str] = &["near", "Near", "NEAR", "ne\u{e1}r", "nea\u{301}r", "neßr", "nessr", "ﬁ", "fi", "Ｎear", "０", "0", "00", "ı", "i", "İ", "ς", "σ", "Å", "Å"];
    if rng.chance(1, 2) { format!("{}{run}", rng.pick(HEADS)) } else { format!("near{run}{}b{}c", rng.pick(SEPARATORS), rng.pick(SEPARATORS)) }
}

const MANY: usize = 70_000;

pub fn record(path: &str, runs: usize, len: usize) {
    let mut out = Out::new(path);
    let mut r = Report::default();
    let mut rng = Rng::from_env(77);
    let mut known: HashMap<u32, String> = HashMap::new();
    // Far more names than the histories have, asked for before them and again after them.
    // Every character alone and at the beginning, inside and at the end of a name.
    let many: Vec<String> = (0..MANY).map(|k| format!("{k}-of-many"))
        .chain(every_char().flat_map(|c| {
            let inside = format!("ma{c}ny");
            if WHITE.contains(&c) { vec![inside] } else { vec![inside, c.to_string(), format!("{c}~many"), format!("many~{c}")] }
        })).collect();
    running("requests for many names");
    let first: Vec<Option<u32>> = many.iter().map(|n| guard(|| get_code(n)).ok().and_then(|c| c.ok())).collect();
    for (c, n) in first.iter().zip(&many) { if let Some(c) = c { known.entry(*c).or_insert(n.clone()); } }
    for run in 0..runs {
        let mut ops = vec![];
        let mut ids: HashMap<u32, usize> = HashMap::new();
        let mut pre = vec![];
        let mut mine: HashMap<u32, String> = HashMap::new();
        let mut codes: Vec<u32> = vec![];
        let nnames = 40 + len / 3;
        let mut id = |c: u32, known: &HashMap<u32, String>, pre: &mut Vec<serde_json::Value>| { let n = ids.len() + 1; *ids.entry(c).or_insert_with(|| { if let Some(o) = known.get(&c) { pre.push(json!([n, format!("{o}")])) } n }) };
        for k in 0..len {
            if rng.chance(3, 5) || codes.is_empty() {
                let n = rng.below(nnames);
                // Each run has names of its own: they are requested for the first time here.
                let name = if rng.chance(1, 25) { String::new() } else if rng.chance(1, 8) { near_name(&mut rng, run) } else if rng.chance(1, 12) { let k = rng.below(if len > 200 { 64 } else { 40 }); long_name(&mut rng, run, k) } else if n % 3 == 0 { format!("{}{run}x{n}", STEMS[n % STEMS.len()]) } else if n % 3 == 1 { format!("{run}x{n}{}", STEMS[n % STEMS.len()]) } else { format!("{run}{}{n}", STEMS[n % STEMS.len()].to_uppercase()) };
                let raw = if rng.chance(1, 40) { format!("{}{name}{}", rng.pick(PADS).repeat(300), rng.pick(PADS).repeat(70_000)) } else { format!("{}{name}{}", rng.pick(PADS), rng.pick(PADS)) };
                running(&format!("request {:?}", raw.chars().take(200).collect::<String>()));
                let got = guard(|| match k % 5 { 0 => Symbol::build(&raw).map(|y| y.code()), 1 => Symbol::try_from(raw.as_str()).map(|y| y.code()), 2 => raw.parse::<Symbol>().map(|y| y.code()), 3 => Symbol::try_from(raw.clone()).map(|y| y.code()), _ => get_code(&raw) });
                let res = match got { Ok(Ok(c)) => { codes.push(c); mine.entry(c).or_insert(name.clone()); id(c, &known, &mut pre) as i64 } Ok(Err(_)) => 0, Err(_) => -1 };
                ops.push(json!({"o": "get", "n": if name.is_empty() { "blank".to_string() } else { name }, "r": res}));
            } else {
                let c = if rng.chance(1, 6) { *[0, 1, 99, u32::MAX, 43_432_444, 1_000_000 + k as u32].get(rng.below(6)).unwrap() } else { *rng.pick(&codes) };
                if rng.chance(1, 8) { let _ = guard(|| Symbol::from_code(c) == Symbol::from_code(c + 1 - (c == u32::MAX) as u32)); }
                running(&format!("look up {c}"));
                let got = guard(|| match k % 4 { 0 => get_name(c), 1 => Symbol::from_code(c).name(), 2 => { let t = Symbol::from_code(c).to_string(); if t == format!("code:{c}") && get_name(c).is_none() { None } else { Some(t) } } _ => Symbol::try_from(c).ok().map(|y| y.name().unwrap_or_else(|| "?".into())) });
                let i = id(c, &known, &mut pre);
                ops.push(json!({"o": "name", "c": i, "r": match got { Ok(Some(t)) => t, Ok(None) => "none".into(), Err(p) => p }}));
            }
        }
        for (c, n) in mine { known.entry(c).or_insert(n); }
        if run == runs - 1 {
            running("requests for many names, again");
            let distinct = first.iter().flatten().collect::<std::collections::HashSet<_>>().len();
            let same = first.iter().zip(&many).filter(|(c, n)| c.is_some() && guard(|| Symbol::build(n.as_str()).map(|s| s.code())).ok().and_then(|c| c.ok()) == **c).count();
            let back = first.iter().zip(&many).filter(|(c, n)| c.is_some() && guard(|| get_name(c.unwrap())).ok().flatten().as_ref() == Some(*n)).count();
            ops.push(json!({"o": "many", "m": many.len(), "distinct": distinct, "same": same, "back": back}));
        }
        let ev: Vec<i64> = (1..=ops.len() as i64).flat_map(|k| [k, -k]).collect();
        r.cases += 1;
        r.nontrivial += 1;
        if run == 0 { r.sample(json!({"first calls": &ops[..12.min(ops.len())]})) }
        out.put(json!({"ops": ops, "ev": ev, "pre": pre}));
    }
    r.finish();
}
