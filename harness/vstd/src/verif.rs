//! The scheduler. Exactly one managed thread runs at a time; at each step point the
//! strategy picks which of the enabled threads goes on. Every execution is therefore
//! determined by the list of choices, which is recorded.
use ::std::cell::Cell;
use ::std::sync::{Arc, Condvar, Mutex, MutexGuard};
use ::std::time::Duration;

enum T { Ready, Blocked(*const dyn Fn() -> bool), Done }
unsafe impl Send for T {}

/// How the next thread is chosen.
pub enum Strategy {
    /// Replays the prefix, then keeps the running thread running (lowest thread otherwise).
    Dfs { prefix: Vec<u8> },
    /// Random: at each step another thread with probability num/den.
    Random { seed: u64, num: u64, den: u64 },
}

/// One decision: the enabled threads (as a bit set), the one running before, the one chosen,
/// and whether leaving the running thread would have been a preemption.
#[derive(Clone, Copy, Debug)]
pub struct Choice { pub enabled: u32, pub from: u8, pub took: u8, pub free: bool }

struct Exec {
    threads: Vec<T>,
    current: usize,
    strategy: Strategy,
    rng: u64,
    log: Vec<Choice>,
    steps: u64,
    run_length: u32,
    verdict: Option<Stuck>,
    beat: u64,
}
/// Why an execution did not end.
#[derive(Clone, Debug, PartialEq)]
pub enum Stuck { Deadlock(Vec<usize>), Endless, NoProgress(usize) }

struct Shared { exec: Mutex<Exec>, turn: Vec<Condvar>, done: Condvar }

::std::thread_local! {
    static ME: Cell<Option<(*const Shared, usize)>> = const { Cell::new(None) };
}
pub fn managed() -> bool { ME.with(|m| m.get().is_some()) }
pub fn thread_id() -> Option<usize> { ME.with(|m| m.get().map(|x| x.1)) }

fn lock(s: &Shared) -> MutexGuard<'_, Exec> { s.exec.lock().unwrap_or_else(|e| e.into_inner()) }
const MAX_STEPS: u64 = 200_000;
const MAX_RUN: u32 = 400;

impl Exec {
    fn enabled(&self) -> u32 {
        let mut e = 0;
        for (i, t) in self.threads.iter().enumerate() {
            let on = match t { T::Ready => true, T::Done => false, T::Blocked(c) => unsafe { (**c)() } };
            if on { e |= 1 << i }
        }
        e
    }
    fn rand(&mut self) -> u64 {
        self.rng = self.rng.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.rng;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// Chooses who goes on. pause: the running thread asks for others to go first.
    fn choose(&mut self, me: usize, pause: bool) {
        self.steps += 1;
        self.beat += 1;
        let e = self.enabled();
        if e == 0 {
            let left: Vec<usize> = self.threads.iter().enumerate().filter(|(_, t)| !matches!(t, T::Done)).map(|(i, _)| i).collect();
            if !left.is_empty() && self.verdict.is_none() { self.verdict = Some(Stuck::Deadlock(left)) }
            self.current = usize::MAX;
            return;
        }
        if self.steps > MAX_STEPS {
            if self.verdict.is_none() { self.verdict = Some(Stuck::Endless) }
            self.current = usize::MAX;
            return;
        }
        let mine = me < 32 && e & (1 << me) != 0;
        let leave = mine && (pause || self.run_length > MAX_RUN) && e != 1 << me;
        let next_after = |from: usize| (1..=32).map(|k| (from + k) % 32).find(|t| e & (1 << t) != 0).unwrap();
        let default = if mine && !leave { me } else { next_after(if me < 32 { me } else { 31 }) };
        let took = if e.count_ones() == 1 { e.trailing_zeros() as usize } else {
            let k = self.log.len();
            match &self.strategy {
                Strategy::Dfs { prefix } => if k < prefix.len() && e & (1 << prefix[k]) != 0 { prefix[k] as usize } else { default },
                Strategy::Random { num, den, .. } => {
                    let (num, den) = (*num, *den);
                    if mine && !leave && self.rand() % den >= num { me } else {
                        let n = (self.rand() % e.count_ones() as u64) as usize;
                        let t = (0..32).filter(|t| e & (1 << t) != 0).nth(n).unwrap();
                        if leave && t == me { default } else { t }
                    }
                }
            }
        };
        if e.count_ones() > 1 {
            self.log.push(Choice { enabled: e, from: me.min(255) as u8, took: took as u8, free: !mine || leave });
        }
        self.run_length = if took == me { self.run_length + 1 } else { 0 };
        self.current = took;
    }
}

fn pass(s: &Shared, mut g: MutexGuard<'_, Exec>, me: usize) {
    // The turn has been given by choose(); waits until it comes back.
    if g.current != me {
        if g.current < s.turn.len() { s.turn[g.current].notify_one() } else { s.done.notify_all() }
        while g.current != me { g = s.turn[me].wait(g).unwrap_or_else(|e| e.into_inner()) }
    }
    g.threads[me] = T::Ready;
}
fn me() -> Option<(&'static Shared, usize)> { ME.with(|m| m.get().map(|(p, i)| (unsafe { &*p }, i))) }

/// A point at which another thread may be scheduled.
pub fn step() {
    if let Some((s, i)) = me() {
        let mut g = lock(s);
        g.choose(i, false);
        pass(s, g, i);
    }
}
/// What happens between taking a lock and releasing it cannot be told apart by threads that
/// wait for the lock, so releases are no steps; but by threads that only try it, it can.
static TRIED: ::std::sync::atomic::AtomicBool = ::std::sync::atomic::AtomicBool::new(false);
pub fn tries() { TRIED.store(true, ::std::sync::atomic::Ordering::SeqCst) }
pub fn before_release() {
    if TRIED.load(::std::sync::atomic::Ordering::SeqCst) && !::std::thread::panicking() { step() }
}
/// A step at which the running thread lets the others go first. False for unmanaged threads.
pub fn pause() -> bool {
    match me() {
        None => false,
        Some((s, i)) => { let mut g = lock(s); g.choose(i, true); pass(s, g, i); true }
    }
}
/// Blocks until the condition holds. When this returns no other managed thread has run
/// since the condition was found true.
pub fn block_until(cond: &dyn Fn() -> bool) {
    match me() {
        None => while !cond() { ::std::thread::yield_now() },
        Some((s, i)) => {
            if cond() { return }
            let mut g = lock(s);
            let p: *const (dyn Fn() -> bool + '_) = cond;
            // The reference outlives the wait: this thread takes it back before returning.
            g.threads[i] = T::Blocked(unsafe { ::std::mem::transmute::<*const (dyn Fn() -> bool + '_), *const (dyn Fn() -> bool + 'static)>(p) });
            g.choose(i, false);
            pass(s, g, i);
        }
    }
}

pub struct Outcome { pub log: Vec<Choice>, pub steps: u64, pub stuck: Option<Stuck> }

/// Runs the bodies as threads under the scheduler. If the execution gets stuck its threads
/// are abandoned: the process must not go on with the state they hold.
pub fn run(strategy: Strategy, stack: usize, bodies: Vec<Box<dyn FnOnce() + Send>>) -> Outcome {
    let n = bodies.len();
    let rng = match &strategy { Strategy::Random { seed, .. } => *seed, _ => 0 };
    let shared = Arc::new(Shared {
        exec: Mutex::new(Exec { threads: (0..n).map(|_| T::Ready).collect(), current: usize::MAX - 1, strategy, rng, log: vec![], steps: 0, run_length: 0, verdict: None, beat: 0 }),
        turn: (0..n).map(|_| Condvar::new()).collect(),
        done: Condvar::new(),
    });
    let mut hs = vec![];
    for (i, b) in bodies.into_iter().enumerate() {
        let s = shared.clone();
        hs.push(::std::thread::Builder::new().stack_size(stack).spawn(move || {
            ME.with(|m| m.set(Some((&*s as *const Shared, i))));
            {
                let mut g = lock(&s);
                while g.current != i { g = s.turn[i].wait(g).unwrap_or_else(|e| e.into_inner()) }
            }
            let _ = ::std::panic::catch_unwind(::std::panic::AssertUnwindSafe(b));
            let mut g = lock(&s);
            g.threads[i] = T::Done;
            g.choose(i, false);
            ME.with(|m| m.set(None));
            if g.current < s.turn.len() { s.turn[g.current].notify_one() } else { s.done.notify_all() }
        }).expect("spawn"));
    }
    let mut g = lock(&shared);
    g.choose(40, false);
    if g.current < n { shared.turn[g.current].notify_one() }
    let (mut beat, mut idle) = (g.beat, 0);
    let all_done = |g: &Exec| g.threads.iter().all(|t| matches!(t, T::Done));
    while !all_done(&g) && g.verdict.is_none() {
        let (g2, to) = shared.done.wait_timeout(g, Duration::from_millis(500)).unwrap_or_else(|e| e.into_inner());
        g = g2;
        if to.timed_out() {
            if g.beat == beat { idle += 1 } else { beat = g.beat; idle = 0 }
            if idle >= 120 { let c = g.current; g.verdict = Some(Stuck::NoProgress(c)) }
        }
    }
    let out = Outcome { log: g.log.clone(), steps: g.steps, stuck: g.verdict.clone() };
    drop(g);
    if out.stuck.is_none() { for h in hs { let _ = h.join(); } } else { ::std::mem::forget(shared) }
    out
}

/// The next prefix of a depth-first search with at most `bound` preemptions, or None.
pub fn next_prefix(log: &[Choice], bound: usize) -> Option<Vec<u8>> {
    let order = |c: &Choice| -> Vec<u8> {
        // The choice made when nothing is prescribed comes first.
        let mine = c.from < 32 && c.enabled & (1 << c.from) != 0;
        let from = if c.from < 32 { c.from as usize } else { 31 };
        let mut v: Vec<u8> = (1..=32).map(|k| (from + k) % 32).filter(|t| c.enabled & (1 << t) != 0).map(|t| t as u8).collect();
        if mine { v.retain(|t| *t != c.from); if c.free { v.push(c.from) } else { v.insert(0, c.from) } }
        v
    };
    let preempts: Vec<bool> = log.iter().map(|c| !c.free && c.took != c.from).collect();
    let mut used: usize = preempts.iter().filter(|p| **p).count();
    for k in (0..log.len()).rev() {
        let c = &log[k];
        if preempts[k] { used -= 1 }
        let o = order(c);
        let at = o.iter().position(|t| *t == c.took).unwrap_or(0);
        for t in &o[at + 1..] {
            let cost = (!c.free && *t != c.from) as usize;
            if used + cost > bound { continue }
            let mut p: Vec<u8> = log[..k].iter().map(|c| c.took).collect();
            p.push(*t);
            return Some(p);
        }
    }
    None
}
