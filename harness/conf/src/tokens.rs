//! C34: what tokens say (src/parser/token.rs).
use crate::util::*;
use rusty_systems::parser::iterator::TokenIterator;
use rusty_systems::parser::{Token, TokenKind};
use rusty_systems::symbols::Symbol;
use serde_json::{json, Value};

struct Means { k: usize }
impl Means {
    fn char(&self, t: &str) -> char {
        match t {
            "sp" => ' ', "wide" => ['\u{3000}', '\u{a0}', '\t', '\u{2028}', '\n'][self.k % 5],
            "x" => ['x', '=', 'é', '→', ':', '\u{1F600}', '.', '0', ',', '\u{200b}', '\u{feff}'][self.k % 11],
            "(" => ['(', ')', '+', '_'][self.k % 4],
            _ => t.chars().next().expect("character"),
        }
    }
    fn text(&self, v: &Value) -> String { strs(v).iter().map(|c| self.char(c)).collect() }
    fn chars(&self, s: &str) -> Value {
        json!(s.chars().map(|c| ["sp", "wide", "x", "(", "-", ">", "<", ";"].iter().find(|t| self.char(t) == c).map_or(c.to_string(), |t| t.to_string())).collect::<Vec<_>>())
    }
    fn see(&self, t: Token) -> Value {
        let kind = match t.kind { TokenKind::Symbol => "Symbol", TokenKind::Arrow => "Arrow", TokenKind::ContextLeft => "ContextLeft", TokenKind::ContextRight => "ContextRight", TokenKind::Terminator => "Terminator" };
        let s = t.to_string();
        let shows = if s == "EOS" { json!(["E", "O", "S"]) } else { self.chars(&s) };
        let symbol = Symbol::try_from(t).ok().map(|s| self.chars(&s.name().unwrap_or_default()));
        json!({"kind": kind, "kindShows": t.kind.to_string(), "shows": shows, "ends": t.is_terminal(), "symbol": symbol.into_iter().collect::<Vec<_>>()})
    }
}

pub fn replay(path: &str, variants: usize) {
    let mut r = Report::default();
    for (ci, case) in tlc_cases(path).enumerate() {
        for v in 0..variants {
            let m = Means { k: ci + v };
            let text = m.text(&case["text"]);
            running(&text);
            let (start, end) = (ci * 7 % 100, ci * 13 % 1000);
            let got = guard(|| {
                let t = Token::new(&text, start, end);
                let copy = t;
                if copy != t || t.as_ref() != text || t.text != text || t.start != start || t.end != end || TokenKind::from(text.as_str()) != t.kind { return json!("not the text and place that it was made of") }
                if Token::new(&text, start + 1, end) == t || Token::new(&text, start, end + 1) == t || Token::new("another", start, end) == t { return json!("equal to another") }
                m.see(t)
            });
            r.cases += 1;
            if text.chars().count() > 1 { r.nontrivial += 1 }
            if ci % 1001 == 7 && v == 0 { r.sample(json!({"text": text, "seen": case["seen"]})) }
            r.check(|| json!({"token of the text": text}), case["seen"].clone(), got.unwrap_or_else(|p| json!(p)));
        }
    }
    r.finish();
}

pub fn record(out: &str, n: usize) {
    let mut o = Out::new(out);
    let mut r = Report::default();
    let mut rng = Rng::from_env(340);
    for ci in 0..n {
        let m = Means { k: rng.below(1000) };
        let long = if ci % 50 == 7 { 400 } else { 30 };
        let text: String = (0..rng.below(long)).map(|_| m.char(["-", ">", "<", ";", "x", "x", "(", "sp", "sp", "wide"][rng.below(10)])).collect();
        running(&text);
        match guard(|| {
            let mut from = 0;
            let mut all = vec![];
            for t in TokenIterator::new(&text).take(text.len() + 2) {
                if t.text.is_empty() { all.push(json!({"text": [], "seen": m.see(t), "start": 0, "from": 0, "end": 0, "to": 0})); continue }
                // Where the text of the token stands next.
                let at = text.get(from..).and_then(|s| s.find(t.text)).map_or(usize::MAX, |i| from + i);
                from = at.saturating_add(t.text.len()).min(text.len());
                all.push(json!({"text": m.chars(t.text), "seen": m.see(t), "start": t.start, "from": at.min(999_999), "end": t.end, "to": from}));
            }
            all
        }) {
            Ok(ts) => {
                r.cases += 1;
                if ts.len() > 1 { r.nontrivial += 1 }
                if ci % 201 == 7 && ts.len() < 12 { r.sample(json!({"text": text, "tokens": ts.iter().map(|t| t["seen"]["kind"].clone()).collect::<Vec<_>>()})) }
                o.put(json!({"of": text, "tokens": ts}));
            }
            Err(p) => r.mismatch(json!({"text": text}), json!("no panic"), json!(p)),
        }
    }
    r.finish();
}
