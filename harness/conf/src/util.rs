//! Shared plumbing: random numbers, panic capture, reports, the watchdog.
use serde_json::{json, Map, Value};
use std::fs::File;
use std::io::{BufRead, BufReader, Write};
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Mutex, OnceLock};
use std::time::Duration;

/// SplitMix64: deterministic from VERIF_SEED.
pub struct Rng(pub u64);
impl Rng {
    pub fn from_env(salt: u64) -> Self {
        let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ salt.wrapping_mul(0xD1B5_4A32_D192_ED03))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { (self.next() % n as u64) as usize }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T { &xs[self.below(xs.len())] }
    pub fn chance(&mut self, num: usize, den: usize) -> bool { self.below(den) < num }
}

/// Outcome of a call into the code under test. A panic is data.
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        let m = e.downcast_ref::<String>().cloned()
            .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_else(|| "?".into());
        format!("panic: {m}")
    })
}

static PROGRESS: AtomicU64 = AtomicU64::new(0);
static LAST: OnceLock<Option<File>> = OnceLock::new();
static LAST_TEXT: Mutex<String> = Mutex::new(String::new());

/// Notes which case is running, so that a hang or an abort can be attributed.
pub fn running(case: &str) {
    PROGRESS.fetch_add(1, Ordering::Relaxed);
    {
        let mut t = LAST_TEXT.lock().unwrap();
        t.clear();
        t.push_str(case);
    }
    let f = LAST.get_or_init(|| std::env::var("VERIF_LASTCASE").ok().and_then(|p| File::create(p).ok()));
    if let Some(f) = f {
        let mut b = case.as_bytes().to_vec();
        b.push(0);
        let _ = f.write_at(&b, 0);
    }
}

/// No single case takes more than milliseconds; one that does not return for
/// a very long time is reported as a call that does not return.
pub fn start_watchdog() {
    std::thread::spawn(|| {
        let mut last = 0;
        let mut still = 0u32;
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let now = PROGRESS.load(Ordering::Relaxed);
            if now == last && now != 0 { still += 1 } else { still = 0; last = now }
            if still >= 120 {
                let case = LAST_TEXT.lock().map(|t| t.clone()).unwrap_or_default();
                println!("{}", json!({"hang": case}));
                std::process::exit(97);
            }
        }
    });
}
/// Tells the watchdog that no call into the code under test is running.
pub fn idle() { PROGRESS.store(0, Ordering::Relaxed); }

/// The white space of Unicode (property White_Space).
pub const WHITE: &[char] = &['\t', '\n', '\u{b}', '\u{c}', '\r', ' ', '\u{85}', '\u{a0}', '\u{1680}', '\u{2000}', '\u{2001}', '\u{2002}', '\u{2003}', '\u{2004}', '\u{2005}',
    '\u{2006}', '\u{2007}', '\u{2008}', '\u{2009}', '\u{200a}', '\u{2028}', '\u{2029}', '\u{202f}', '\u{205f}', '\u{3000}'];
/// Every character of the blocks in use, and some of the others.
pub fn every_char() -> impl Iterator<Item = char> {
    (0..0x3_4000u32).chain(0xE_0000..0xE_0200).chain((0x3_4000..0xE_0000).chain(0xE_0200..0x10_ffff).step_by(251)).chain([0x10_ffff]).filter_map(char::from_u32)
}

/// A word that a production text can have as a symbol anywhere.
fn word(rng: &mut Rng) -> String {
    const SOME: &[&str] = &["n", "delta", "initial", "Initial", "N", "F", "f", "G", "X", "Y", "Move", "move", "FORWARD", "Forward", "-", "+", "[", "]", "|", "&", "^", "\\", "/", "!", "{", "}", "'", "*", "?", ",", "#",
        "=", ":", "~", "@", "$", "%", "code:7", "%s", "{}", "()", "(", ")", ";", "..", ".", "_", "0x1", "1e", "e1", "+-", "-+", "--", "++", "<<", ">>", "=>", "<-", "→", "−", "＋", "［", "∂", "None", "null"];
    let ascii = |rng: &mut Rng| char::from(b'!' + rng.below(94) as u8);
    let any = |rng: &mut Rng| { let n = [0x800, 0x3000, 0xffff, 0x34000][rng.below(4)]; char::from_u32(rng.below(n) as u32).unwrap_or('x') };
    match rng.below(9) {
        0 => ascii(rng).to_string(),
        1 => (0..2).map(|_| ascii(rng)).collect(),
        2 => (0..2 + rng.below(6)).map(|_| ascii(rng)).filter(|c| c.is_alphanumeric()).collect(),
        3 => any(rng).to_string(),
        4 => (0..2).map(|_| any(rng)).collect(),
        5 => [ascii(rng), any(rng)].iter().collect(),
        6 => { let n = 1 + if rng.chance(1, 6) { rng.below(400) } else { rng.below(40) }; (0..n).map(|_| char::from(b'a' + rng.below(26) as u8)).collect() }
        _ => rng.pick(SOME).to_string(),
    }
}
/// n different words for symbols, the k-th choice; often they are nearly the same.
pub fn vocabulary(k: usize, n: usize) -> Vec<String> {
    let mut rng = Rng::from_env(1000 + (k % 2048) as u64);
    let good = |w: &str| w.trim() == w && !w.is_empty() && !w.contains(|c: char| c.is_ascii_whitespace() || WHITE.contains(&c)) && w != "<" && w != ">" && !w.contains("->") && w.parse::<f64>().is_err();
    let mut out: Vec<String> = vec![];
    while out.len() < n {
        let w = match out.last() {
            Some(l) if rng.chance(1, 3) => match rng.below(8) {
                0 => format!("{l}{l}"), 1 => l.to_uppercase(), 2 => l.to_lowercase(), 3 => l.chars().rev().collect(), 4 => format!("{l}1"), 5 => format!("_{l}"), 6 => l.chars().skip(1).collect(),
                _ => format!("{l}\u{301}") },
            _ => word(&mut rng),
        };
        if good(&w) && !out.contains(&w) { out.push(w) }
    }
    out
}

#[derive(Default)]
pub struct Report {
    pub cases: u64,
    pub nontrivial: u64,
    pub mismatch_count: u64,
    pub mismatches: Vec<Value>,
    pub samples: Vec<Value>,
    pub extra: Map<String, Value>,
}
impl Report {
    pub fn sample(&mut self, v: Value) { if self.samples.len() < 4 { self.samples.push(v) } }
    pub fn mismatch(&mut self, case: Value, expected: Value, got: Value) {
        self.mismatch_count += 1;
        if self.mismatches.len() < 10 {
            self.mismatches.push(json!({"case": case, "expected": expected, "got": got}));
        }
    }
    pub fn check(&mut self, case: impl FnOnce() -> Value, expected: Value, got: Value) -> bool {
        if expected != got { self.mismatch(case(), expected, got); return false }
        true
    }
    pub fn finish(self) {
        idle();
        println!("{}", json!({"cases": self.cases, "nontrivial": self.nontrivial,
            "mismatch_count": self.mismatch_count, "mismatches": self.mismatches,
            "samples": self.samples, "extra": self.extra}));
    }
}

/// The JSON records that a TLC run printed (lines `"@@{...}"`).
pub fn tlc_cases(path: &str) -> impl Iterator<Item = Value> {
    let f = File::open(path).unwrap_or_else(|e| { eprintln!("{path}: {e}"); std::process::exit(2) });
    BufReader::with_capacity(1 << 20, f).lines().filter_map(|l| {
        let l = l.expect("read");
        if !l.starts_with("\"@@") { return None }
        let s: String = serde_json::from_str(&l).unwrap_or_else(|e| { eprintln!("bad TLC line {l}: {e}"); std::process::exit(2) });
        Some(serde_json::from_str(&s[2..]).unwrap_or_else(|e| { eprintln!("bad TLC record {s}: {e}"); std::process::exit(2) }))
    })
}

pub struct Out(std::io::BufWriter<File>, pub u64);
impl Out {
    pub fn new(path: &str) -> Out { Out(std::io::BufWriter::new(File::create(path).expect("create")), 0) }
    pub fn put(&mut self, v: Value) { self.1 += 1; writeln!(self.0, "{v}").expect("write") }
}

pub fn strs(v: &Value) -> Vec<String> {
    v.as_array().map(|a| a.iter().map(|x| x.as_str().unwrap_or("?").to_string()).collect()).unwrap_or_default()
}
pub fn int(v: &Value) -> i64 { v.as_i64().unwrap_or_else(|| panic!("not an int: {v}")) }
pub type Res<T> = Result<T, String>;
