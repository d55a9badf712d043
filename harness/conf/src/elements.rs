//! C30: the elements of documents by themselves (src/interpretation/svg.rs).
//! This makes their texts; they are read elsewhere.
use crate::util::*;
use rusty_systems::geometry::{Path, Point};
use rusty_systems::interpretation::svg::{Svg, SvgCircle, SvgDecorations, SvgElement, SvgGroup, SvgPath, SvgScale, SvgTransformEl, SvgTranslate};
use serde_json::{json, Map, Value};

/// What the names of numbers and characters stand for.
struct Means { shift: usize, k: usize, exact: bool }
impl Means {
    fn number(&self, t: &str) -> f64 {
        match t {
            "zero" => 0.0, "five" => 5.0, "fivehundred" => 500.0,
            "third" => [1.0 / 3.0, 0.1, 2.5, 1.0, 123456789.125, 1e21][self.shift % 6],
            "huge" => [1e300, 1e16, f64::MAX, 4503599627370497.5, 1e7][self.shift % 5],
            "tiny" => [1e-7, f64::MIN_POSITIVE, 5e-324, 1e-300, 0.00015][self.shift % 5],
            "neg" => [-1.0, -2.0 / 3.0, -1e-9, -1e17][self.shift % 4],
            _ => f64::from_bits(u64::from_str_radix(&t[1..], 16).expect("bits")),
        }
    }
    fn width(&self, t: &str) -> f32 { if self.exact { f32::from_bits(u32::from_str_radix(&t[1..], 16).expect("bits")) } else { match t { "zero" => 0.0, "huge" => [f32::MAX, 1e30, 98765432.0][self.shift % 3], "tiny" => [f32::MIN_POSITIVE, 1e-45, 1e-8][self.shift % 3], "neg" => [-1.5, -1e-20][self.shift % 2], _ => [1.0 / 3.0, 0.2, 2.0, 1e10, 1.0e-5, 16777217.0][self.shift % 6] } } }
    fn char(&self, t: &str) -> char {
        match t {
            "amp" => '&', "lt" => '<', "gt" => '>', "quote" => '"', "apos" => '\'', "tab" => '\t', "nl" => '\n', "sp" => ' ', "semi" => ';',
            "x" => ['x', 'é', 'Z', '(', '\u{1F600}', '%', '/', '\u{A0}'][self.k % 8],
            _ => t.chars().next().expect("character"),
        }
    }
    fn text(&self, v: &Value) -> Option<String> { v.get(0).map(|t| strs(t).iter().map(|c| self.char(c)).collect()) }
    fn names(&self) -> Value {
        let mut chars = Map::new();
        for c in ["amp", "lt", "gt", "quote", "apos", "tab", "nl", "sp", "semi", "x"] { chars.insert(self.char(c).to_string(), json!(c)); }
        let mut nums = Map::new();
        let mut widths = Map::new();
        if !self.exact {
            for n in ["zero", "five", "fivehundred", "third", "huge", "tiny", "neg"] { nums.insert(format!("{:016x}", self.number(n).to_bits()), json!(n)); }
            for n in ["zero", "third", "huge", "tiny", "neg"] { widths.insert(format!("{:08x}", self.width(n).to_bits()), json!(n)); }
        } else { for (b, n) in [(0.0f64, "zero"), (5.0, "five"), (500.0, "fivehundred")] { nums.insert(format!("{:016x}", b.to_bits()), json!(n)); } }
        json!({"chars": chars, "nums": nums, "widths": widths})
    }
}

enum El { Circle(SvgCircle), Deco(SvgDecorations), Path(SvgPath, Path), Group(SvgGroup), Document(Svg), Scale(SvgScale), Translate(SvgTranslate) }
impl El {
    fn name(&self) -> &'static str { match self { El::Circle(_) => "circle", El::Deco(_) => "decorations", El::Path(..) => "path", El::Group(_) => "group", El::Document(_) => "document", El::Scale(_) => "scale", El::Translate(_) => "translate" } }
    fn deco(&mut self) -> &mut SvgDecorations { match self { El::Circle(c) => &mut c.decorations, El::Deco(d) => d, _ => panic!("no decorations") } }
    /// Whether the call was refused.
    fn call(&mut self, o: &str, x: &Value, m: &Means, k: usize) -> bool {
        let num = |v: &Value| m.number(v.as_str().expect("number"));
        match o {
            "circle" | "refuse" => {
                let r = if o == "circle" { num(&x["r"]) } else { [-1.0, -1e-300, f64::MIN, -5.0, -0.25][k % 5] };
                let p = (num(&x["x"]), num(&x["y"]));
                let made = match k % 3 { 0 => SvgCircle::build(Point::new(p.0, p.1), r), 1 => SvgCircle::build(rusty_systems::geometry::Vector::new(p.0, p.1), r), _ => SvgCircle::build(Point::new(p.0, p.1), r) };
                match made { Ok(c) => *self = El::Circle(c), Err(_) => return true }
            }
            "default" => *self = El::Circle(SvgCircle::default()),
            "decorations" => *self = El::Deco(SvgDecorations::default()),
            "group" => *self = El::Group(SvgGroup::default()),
            "document" => *self = El::Document(Svg::default()),
            "scale" => *self = El::Scale(SvgScale::default()),
            "translate" => *self = El::Translate(SvgTranslate::default()),
            "path" => {
                let p: Path = x.as_array().unwrap().iter().map(|q| Point::new(num(&q["x"]), num(&q["y"]))).collect();
                *self = El::Path(SvgPath::from(p.clone()), p);
            }
            "fill" => self.deco().fill = m.text(x),
            "stroke" => self.deco().stroke = m.text(x),
            "width" => self.deco().stroke_width = x.get(0).map(|n| m.width(n.as_str().unwrap())),
            "undecorate" => { let d = self.deco(); match k % 2 { 0 => *d = SvgDecorations::default(), _ => { d.fill.take(); d.stroke.take(); d.stroke_width.take(); } } }
            o => panic!("unknown operation {o}"),
        }
        false
    }
    fn text(&self) -> Result<String, String> {
        let t = match self {
            El::Circle(c) => { let t = c.to_svg(); if c.clone().to_svg() != t { return Err("a copy has another text".into()) } t }
            El::Deco(d) => format!("<decorations {}/>", d.to_attr_string()),
            El::Path(s, p) => {
                if s.fill().is_some() || s.stroke().is_some() { return Err("a path has colours of its own".into()) }
                if s.len() != p.len() || !s.iter().eq(p.iter()) { return Err("the element has other points than the path".into()) }
                s.to_svg()
            }
            El::Group(g) => g.to_svg(),
            El::Document(d) => d.to_svg(),
            El::Scale(s) => format!("<transform t=\"{}\"/>", s.to_transform()),
            El::Translate(s) => format!("<transform t=\"{}\"/>", s.to_transform()),
        };
        Ok(t)
    }
    fn shown(&self) -> String { self.text().unwrap_or_else(|e| format!("<!-- {e} -->")) }
}

pub fn documents(path: &str, out: &str) {
    let mut o = Out::new(out);
    let mut r = Report::default();
    for (ci, case) in tlc_cases(path).enumerate() {
        let m = Means { shift: ci, k: ci / 7, exact: false };
        let log = case["log"].as_array().unwrap();
        running(&case["log"].to_string());
        let mut refused = vec![];
        let got = guard(|| {
            let mut e = El::Deco(SvgDecorations::default());
            for (n, s) in log.iter().enumerate() { refused.push(e.call(s["o"].as_str().unwrap(), &s["x"], &m, ci + n)) }
            (e.name(), e.shown())
        });
        r.cases += 1;
        if log.len() > 1 { r.nontrivial += 1 }
        let want: Vec<bool> = log.iter().map(|s| s["o"] == json!("refuse")).collect();
        match got {
            Ok((name, text)) => {
                r.check(|| json!({"circles refused in": log}), json!(want), json!(refused));
                if ci % 9001 == 7 { r.sample(json!({"program": log, "text": text})) }
                o.put(json!({"program": log, "want": {"e": case["e"], "a": case["a"]}, "e": name, "text": text, "means": m.names()}));
            }
            Err(p) => r.mismatch(json!(log), json!("no panic"), json!(p)),
        }
    }
    r.finish();
}

pub fn record(out: &str, n: usize) {
    let mut o = Out::new(out);
    let mut r = Report::default();
    let mut rng = Rng::from_env(120);
    for ci in 0..n {
        let m = Means { shift: 0, k: rng.below(8), exact: true };
        let large = ci % 40 == 21;
        let f = |rng: &mut Rng| -> String {
            let v = match rng.below(5) {
                0 => rng.below(1000) as f64 / 8.0, 1 => rng.below(1 << 30) as f64 * 1e-3, 2 => -(rng.below(100_000) as f64) / 7.0, 3 => rng.below(7) as f64 - 3.0,
                _ => loop { let v = f64::from_bits(rng.next()); if v.is_finite() { break v } },
            };
            format!("b{:016x}", v.to_bits())
        };
        let name = |b: String| if b == "b0000000000000000" { "zero".into() } else if b == format!("b{:016x}", 5.0f64.to_bits()) { "five".to_string() } else if b == format!("b{:016x}", 500.0f64.to_bits()) { "fivehundred".to_string() } else { b };
        let mut e = El::Deco(SvgDecorations::default());
        let mut h = vec![];
        for j in 0..if large { 12 } else { 30 } {
            let number = |rng: &mut Rng| name(f(rng));
            let radius = |rng: &mut Rng| loop { let b = number(rng); if m.number(&b) >= 0.0 { break b } };
            let text = |rng: &mut Rng| -> Value {
                if rng.chance(1, 6) { return json!([]) }
                let all = ["amp", "lt", "gt", "quote", "apos", "tab", "nl", "sp", "semi", "x", "x", "a", "m", "p", "#", "1", "0", "l", "t", "]", "-", "!"];
                json!([(0..rng.below(if large { 1500 } else { 9 })).map(|_| *rng.pick(&all)).collect::<Vec<_>>()])
            };
            let deco = matches!(e, El::Circle(_) | El::Deco(_));
            let (op, x) = match rng.below(if deco { 22 } else { 8 }) {
                0 | 1 => ("circle", json!({"x": number(&mut rng), "y": number(&mut rng), "r": radius(&mut rng)})),
                2 => ("refuse", json!({"x": number(&mut rng), "y": number(&mut rng)})),
                3 | 4 => ("path", json!((0..rng.below(if large { 800 } else { 6 })).map(|_| json!({"x": number(&mut rng), "y": number(&mut rng)})).collect::<Vec<_>>())),
                5 => ("default", json!(0)), 6 => ("decorations", json!(0)),
                7 => (*rng.pick(&["group", "document", "scale", "translate"]), json!(0)),
                8..=12 => ("fill", text(&mut rng)), 13..=17 => ("stroke", text(&mut rng)),
                18..=20 => ("width", if rng.chance(1, 3) { json!([]) } else { let v = loop { let v = f32::from_bits(rng.next() as u32); if v.is_finite() { break v } }; json!([format!("b{:08x}", if rng.chance(1, 2) { v } else { rng.below(50) as f32 / 10.0 }.to_bits())]) }),
                _ => ("undecorate", json!(0)),
            };
            running(&format!("{op} {x}"));
            match guard(|| { let refused = e.call(op, &x, &m, j + ci); (refused, e.name(), e.shown()) }) {
                Ok((refused, en, text)) => h.push(json!({"o": op, "x": x, "refused": refused, "e": en, "text": text})),
                Err(p) => { r.mismatch(json!({"operation": op, "with": x, "after": h}), json!("no panic"), json!(p)); break }
            }
        }
        r.cases += 1;
        r.nontrivial += 1;
        if ci % 41 == 7 && !large { r.sample(json!(&h[..4.min(h.len())])) }
        o.put(json!({"h": h, "means": m.names()}));
    }
    r.finish();
}
