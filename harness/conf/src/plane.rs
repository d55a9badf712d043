//! C26 (plane geometry) and C23 (bounds): src/geometry.rs.
use crate::util::*;
use rusty_systems::geometry::{BoundingBox, Bounds, Path, Point, Vector};
use serde_json::json;

struct Regs { v: Vector, p: Point, path: Path }

fn apply(r: &mut Regs, op: &str, x: f64, y: f64, scale: f64, degrees: f64) {
    let w = Vector::new(x * scale, y * scale);
    let q = Point::new(x * scale, y * scale);
    match op {
        "turn" => r.v = r.v.rotate(degrees),
        "v+" => r.v = r.v + w,
        "v-" => r.v = r.v - w,
        "-v" => r.v = -r.v,
        "v=p" => r.v = r.p.into(),
        "v=" => { let u = [Vector::up(), Vector::down(), Vector::zero(), Vector::default()][x as usize - 1]; r.v = Vector::new(u.x() * scale, u.y() * scale) }
        "p=" => r.p = if x == 3.0 { Point::zero() } else { Point::default() },
        "p+v" => r.p = r.p + r.v,
        "p-v" => r.p = r.p - r.v,
        "p+" => r.p = r.p + q,
        "p-" => r.p = r.p - q,
        "-p" => r.p = -r.p,
        "p/" => r.p = r.p / (1.0 / x),
        "p=v" => r.p = r.v.into(),
        "push" => r.path.push(r.p),
        "path+v" => r.path = std::mem::take(&mut r.path) + r.v,
        o => panic!("unknown operation {o}"),
    }
}

/// A printed pair of coordinates reads back as exactly the same numbers.
fn prints(text: String, x: f64, y: f64) -> Result<(), String> {
    let inner = text.trim().strip_prefix('(').and_then(|t| t.strip_suffix(')')).unwrap_or("");
    match inner.split(',').map(|n| n.trim().parse::<f64>().ok()).collect::<Vec<_>>()[..] {
        [Some(a), Some(b)] if a.to_bits() == x.to_bits() && b.to_bits() == y.to_bits() => Ok(()),
        _ => Err(text)
    }
}
fn near(a: f64, b: f64, tol: f64) -> bool { (a - b).abs() <= tol }

/// Every generated sequence, on several scales of the lattice.
pub fn replay(path: &str) {
    let mut r = Report::default();
    for (ci, case) in tlc_cases(path).enumerate() {
        let quarter = int(&case["quarter"]) as f64;
        let log = case["log"].as_array().unwrap();
        for scale in [1.0, [0.5, 1.0e6, 1.0 / 3.0, 1.0e-6, 7.0, 1.0e150, 1.0e-120][ci % 7]] {
            running(&format!("geometry {} scale {scale}", log.iter().map(|e| e["op"].to_string()).collect::<Vec<_>>().join(" ")));
            r.cases += 1;
            if log.len() > 2 { r.nontrivial += 1 }
            let mut regs = Regs { v: Vector::new(0.0, scale), p: Point::zero(), path: Path::new() };
            let tol = 1e-8 * scale;
            // what the vector was before a run of turns, and the degrees turned since
            for (n, e) in log.iter().enumerate() {
                let op = &e["op"];
                let (name, x, y) = (op[0].as_str().unwrap(), int(&op[1]) as f64, int(&op[2]) as f64);
                let before = (regs.v, regs.p, regs.path.clone());
                let degrees = x * 90.0 / quarter;
                let case = || json!({"operations": log[..=n].iter().map(|e| e["op"].clone()).collect::<Vec<_>>(), "quarter": quarter, "scale": scale});
                if let Err(pn) = guard(|| apply(&mut regs, name, x, y, scale, degrees)) { r.mismatch(case(), json!("a value"), json!(pn)); break }
                // the vector of the specification, with what is left to turn
                let (lx, ly) = (int(&e["v"]["x"]) as f64 * scale, int(&e["v"]["y"]) as f64 * scale);
                let t = (int(&e["a"]) as f64 * 90.0 / quarter).to_radians();
                let want_v = if int(&e["a"]) == 0 { (lx, ly) } else { (lx * t.cos() - ly * t.sin(), lx * t.sin() + ly * t.cos()) };
                let want_p = (int(&e["p"]["x"]) as f64 * scale, int(&e["p"]["y"]) as f64 * scale);
                let pts: Vec<(f64, f64)> = e["path"].as_array().unwrap().iter().map(|q| (int(&q["x"]) as f64 * scale, int(&q["y"]) as f64 * scale)).collect();
                let mut bad = vec![];
                if !near(regs.v.x(), want_v.0, tol) || !near(regs.v.y(), want_v.1, tol) { bad.push(json!({"vector": format!("{:?}", regs.v), "expected": [want_v.0, want_v.1]})) }
                if !near(regs.p.x(), want_p.0, tol) || !near(regs.p.y(), want_p.1, tol) { bad.push(json!({"point": format!("{:?}", regs.p), "expected": [want_p.0, want_p.1]})) }
                if regs.path.len() != pts.len() || !regs.path.iter().zip(&pts).all(|(g, w)| near(g.x(), w.0, tol) && near(g.y(), w.1, tol)) {
                    bad.push(json!({"path": format!("{:?}", regs.path), "expected": format!("{pts:?}")}))
                }
                if name == "turn" {
                    // Turning in one go and in two parts, and the length.
                    let one = before.0.rotate(degrees);
                    for part in [degrees - 90.0, 37.0, degrees / 3.0, 720.0 + degrees, [3600.0, -36000.0, 1.0e6, 1.0e-4, 1.0e-9, 4321.0, 90.0, 22.5 - 90_000.0, 7_567.0625, 360.0 * 2500.0 + 0.125][(ci + n) % 10]] {
                        let two = before.0.rotate(part).rotate(degrees - part);
                        if !near(one.x(), two.x(), tol) || !near(one.y(), two.y(), tol) { bad.push(json!({"turned by": degrees, "in parts": [part, degrees - part], "one": format!("{one:?}"), "two": format!("{two:?}")})) }
                    }
                    // ... and in many equal ones.
                    if ci % 7 == n % 7 {
                        let parts = [100usize, 5000, 30000][ci % 3];
                        let many = (0..parts).fold(before.0, |v, _| v.rotate(degrees / parts as f64));
                        if !near(one.x(), many.x(), tol) || !near(one.y(), many.y(), tol) { bad.push(json!({"turned by": degrees, "in equal parts": parts, "one": format!("{one:?}"), "many": format!("{many:?}")})) }
                    }
                    if !near(one.norm(), (lx * lx + ly * ly).sqrt(), tol) { bad.push(json!({"norm": one.norm(), "expected": (lx * lx + ly * ly).sqrt()})) }
                }
                // operations that are about another register leave this one exactly as it was
                let same = |a: f64, b: f64| a == b || a.is_nan() && b.is_nan();
                if matches!(name, "turn" | "v+" | "v-" | "-v" | "v=p" | "v=") && !(same(before.1.x(), regs.p.x()) && before.2.len() == regs.path.len()) { bad.push(json!("the point or path changed")) }
                for e in [prints(regs.v.to_string(), regs.v.x(), regs.v.y()), prints(regs.p.to_string(), regs.p.x(), regs.p.y())].into_iter().filter_map(|e| e.err()) { bad.push(json!({"prints as": e, "vector": format!("{:?}", regs.v), "point": format!("{:?}", regs.p)})) }
                if !bad.is_empty() { r.mismatch(case(), json!("the specification's values"), json!(bad)); break }
            }
        }
        if ci % 3001 == 17 { r.sample(json!({"operations": log.iter().map(|e| e["op"].clone()).collect::<Vec<_>>()})) }
    }
    r.finish();
}

pub fn record(path: &str, n: usize) {
    let mut out = Out::new(path);
    let mut r = Report::default();
    let mut rng = Rng::from_env(70);
    for ci in 0..n {
        let mut regs = Regs { v: Vector::up(), p: Point::default(), path: Path::default() };
        let (mut turned, mut log) = (0i64, vec![]);
        let lattice = |x: f64| if x.is_finite() && x.abs() < 1.0e6 { x.round() as i64 } else { 2_000_000_000 };
        let pair = |x: f64, y: f64| json!([lattice(x), lattice(y)]);
        for _ in 0..rng.below(60) + 5 {
            let turning = turned.rem_euclid(90) != 0;
            let big = regs.v.norm() > 1e5 || regs.p.x().abs() > 1e5 || regs.p.y().abs() > 1e5;
            let op = if big { "v=p" } else if turning { "turn" } else { *rng.pick(&["turn", "turn", "v+", "v-", "-v", "v=p", "p+v", "p-v", "p+", "p-", "-p", "p/", "p=v", "push", "push", "path+v", "v=", "p="]) };
            if big { regs.p = Point::zero(); break }
            let (x, y) = match op {
                "turn" => {
                    let k = if turning && rng.chance(2, 3) { -turned.rem_euclid(90) + 90 * (rng.below(9) as i64 - 4) } else { rng.below(1500) as i64 - 750 };
                    // (full turns that lead nowhere)
                    let k = if rng.chance(1, 4) { k + 360 * (rng.below(9000) as i64 - 4500) } else { k };
                    turned += k;
                    (k, 0)
                }
                "p/" => (*rng.pick(&[2, 3, -1, 1]), 0),
                "v+" | "v-" | "p+" | "p-" => (rng.below(41) as i64 - 20, rng.below(41) as i64 - 20),
                "v=" => (1 + rng.below(4) as i64, 0),
                "p=" => (3 + rng.below(2) as i64, 0),
                _ => (0, 0),
            };
            running(&format!("geometry {op} {x} {y}"));
            let died = guard(|| apply(&mut regs, op, x as f64, y as f64, 1.0, x as f64)).is_err();
            if op == "v=p" || op == "v=" { turned = 0 }
            let is = |x: f64| (x - x.round()).abs() < 1e-5;
            let off = died || !(is(regs.p.x()) && is(regs.p.y()) && regs.path.iter().all(|p| is(p.x()) && is(p.y())) && (turned.rem_euclid(90) != 0 || is(regs.v.x()) && is(regs.v.y())));
            log.push(json!({"op": [op, x, y], "off": off, "v": pair(regs.v.x(), regs.v.y()), "p": pair(regs.p.x(), regs.p.y()),
                "path": regs.path.iter().map(|p| pair(p.x(), p.y())).collect::<Vec<_>>()}));
            r.cases += 1;
        }
        if log.len() > 10 { r.nontrivial += 1 }
        if ci % 61 == 3 { r.sample(json!(log.iter().map(|e| e["op"].clone()).collect::<Vec<_>>())) }
        out.put(json!({"log": log}));
    }
    r.finish();
}

// --- bounds ------------------------------------------------------------------

fn show(b: &BoundingBox) -> [f64; 10] {
    [b.min_x, b.max_x, b.min_y, b.max_y, b.width(), b.height(), b.center().x(), b.center().y(), b.com.x(), b.com.y()]
}

pub fn bounds_replay(path: &str) {
    let mut r = Report::default();
    for (ci, case) in tlc_cases(path).enumerate() {
        let paths: Vec<Vec<(i64, i64)>> = case["paths"].as_array().unwrap().iter()
            .map(|p| p.as_array().unwrap().iter().map(|q| (int(&q[0]), int(&q[1]))).collect()).collect();
        let b = &case["box"];
        let n = int(&b["n"]) as f64;
        // lattice coordinate c stands for c * s + t
        for (sx, tx, sy, ty) in [(1.0, 0.0, 1.0, 0.0), (1.0, -1.0, 1.0, -2.0), [(0.25, -10.0, 3.0, 5.0), (1.0e9, 1.0e9, 1.0e-3, -1.0), (1.0e-9, 0.0, 1.0e-9, -4.0e-9), (100.0, -1000.0, 0.5, -0.5), (1.0e150, -3.0e150, 1.0, 0.0)][ci % 5]] {
            let mk = |p: &Vec<(i64, i64)>| -> Path { p.iter().map(|q| Point::new(q.0 as f64 * sx + tx, q.1 as f64 * sy + ty)).collect() };
            let all: Vec<Path> = paths.iter().map(mk).collect();
            running(&format!("bounds of {all:?}"));
            r.cases += 1;
            if n > 1.0 { r.nontrivial += 1 }
            let g = |k: &str| int(&b[k]) as f64;
            let want = (n > 0.0).then(|| {
                let (x0, x1, y0, y1) = (g("minx") * sx + tx, g("maxx") * sx + tx, g("miny") * sy + ty, g("maxy") * sy + ty);
                [x0, x1, y0, y1, x1 - x0, y1 - y0, (x0 + x1) / 2.0, (y0 + y1) / 2.0, g("sx") / n * sx + tx, g("sy") / n * sy + ty]
            });
            let mut gots = vec![("Vec<Path>::bounds", guard(|| all.bounds().map(|b| show(&b))))];
            if all.len() == 1 { gots.push(("Path::bounds", guard(|| all[0].bounds().map(|b| show(&b))))) }
            for (call, got) in gots {
                let (mx, my) = (1e-9 * (4.0 * sx + tx.abs()), 1e-9 * (4.0 * sy + ty.abs()));
                let ok = match (&want, &got) {
                    (None, Ok(None)) => true,
                    (Some(w), Ok(Some(g))) => (0..10).all(|k| if k < 4 { w[k] == g[k] } else {
                        near(w[k], g[k], if k == 4 || (k > 4 && k % 2 == 0) { mx } else { my }) }),
                    _ => false,
                };
                if !ok { r.mismatch(json!({"call": call, "paths": format!("{all:?}")}), json!(want), got.map(|g| json!(g)).unwrap_or_else(|e| json!(e))) }
            }
            if ci % 5003 == 40 { r.sample(json!({"paths": format!("{all:?}"), "box": want})) }
        }
    }
    r.finish();
}

pub fn bounds_record(path: &str, n: usize) {
    let mut out = Out::new(path);
    let mut r = Report::default();
    let mut rng = Rng::from_env(71);
    for ci in 0..n {
        let span = *rng.pick(&[3usize, 50, 2000]);
        let (ox, oy) = (rng.below(3) as i64 * span as i64 - span as i64, rng.below(3) as i64 * span as i64 - span as i64);
        // (paths that go the same way many times)
        let runs = ci % 15 == 7;
        let single = if runs { ci % 2 == 1 } else { rng.chance(1, 3) };
        let m = if single { 1 } else if runs { 1 + rng.below(3) } else if ci % 150 == 31 { 300 } else { rng.below(9) };
        let paths: Vec<Vec<(i64, i64)>> = (0..m).map(|_| {
            let len = if runs { 2 + rng.below(60) } else if ci % 50 == 32 { 500 + rng.below(2000) } else { match rng.below(4) { 0 => 0, 1 => 1, 2 => rng.below(8), _ => if m == 300 { rng.below(6) } else { rng.below(80) } } };
            (0..len).map(|_| (ox + rng.below(span) as i64, oy + rng.below(span) as i64)).collect()
        }).collect();
        let mut paths = paths;
        // paths that end where they began, and paths that go the same way many times
        for p in &mut paths { if rng.chance(1, if runs || p.len() > 400 { 2 } else { 4 }) { if let Some(q) = p.first().copied() { p.push(q) } } }
        let again: Vec<usize> = paths.iter().enumerate().map(|(j, p)| if runs && j == 0 && !p.is_empty() { 1 + rng.below(20_000 / p.len()) } else if rng.chance(1, 9) { 1 + rng.below(3) } else { 0 }).collect();
        let all: Vec<Path> = paths.iter().zip(&again).map(|(p, k)| (0..=*k).flat_map(|_| p.iter().map(|q| Point::new(q.0 as f64, q.1 as f64))).collect()).collect();
        let cnt: usize = all.iter().map(|p| p.len()).sum();
        running(&format!("bounds of {paths:?}, each so many times more: {again:?}"));
        let got = guard(|| if single { all[0].bounds() } else { all.bounds() });
        r.cases += 1;
        if cnt > 3 { r.nontrivial += 1 }
        // whole numbers, or something that is no coordinate of the lattice
        let z = |x: f64| if (x - x.round()).abs() < 1e-6 && x.abs() < 1e9 { json!(x.round() as i64) } else { json!(1_999_999_999) };
        let ev = match got {
            Ok(None) => json!({"v": "none", "paths": paths, "again": again}),
            Ok(Some(b)) => json!({"v": "some", "paths": paths, "again": again, "box": [z(b.min_x), z(b.max_x), z(b.min_y), z(b.max_y)], "size": [z(b.width()), z(b.height())],
                "centre2": [z(b.center().x() * 2.0), z(b.center().y() * 2.0)], "comn": [z(b.com.x() * cnt as f64), z(b.com.y() * cnt as f64)]}),
            Err(p) => json!({"v": p, "paths": paths, "again": again}),
        };
        if ci % 97 == 11 { r.sample(json!({"points": cnt, "paths": m, "box": ev.get("box")})) }
        out.put(ev);
    }
    r.finish();
}
