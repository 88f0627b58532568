//! A small property-based testing engine.
//!
//! A property is a function of a `Ctx`; every random decision it takes goes
//! through `Ctx::draw`, which records it.  A case is therefore a list of
//! integers ("choices"): the engine generates it from a seeded PRNG, shrinks a
//! failing one by deleting and lowering choices, and replays it from a file.
//! Generators are written so that smaller choices mean simpler cases.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet, VecDeque};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Instant;

// ---------------------------------------------------------------- PRNG

/// SplitMix64 seeded xoshiro256**.
#[derive(Clone)]
pub struct Prng([u64; 4]);

impl Prng {
    pub fn new(seed: u64) -> Prng {
        let mut z = seed;
        let mut next = || {
            z = z.wrapping_add(0x9e3779b97f4a7c15);
            let mut x = z;
            x = (x ^ (x >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
            x = (x ^ (x >> 27)).wrapping_mul(0x94d049bb133111eb);
            x ^ (x >> 31)
        };
        Prng([next(), next(), next(), next()])
    }

    pub fn next(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}

// ---------------------------------------------------------------- Ctx

enum Feed {
    Random(Prng),
    Fixed(Vec<u64>, usize),
}

pub struct Ctx {
    feed: Feed,
    /// Every choice taken so far.
    pub taken: Vec<u64>,
    /// Class labels of this case.
    pub labels: Vec<&'static str>,
    /// Set by the property when the case is non-trivial by its rule.
    pub nontrivial: bool,
    /// Identity of the case, accumulated by `key`.
    pub ident: u64,
    /// Whether `say` should keep text.
    pub verbose: bool,
    pub text: Vec<String>,
    /// Hash of the results the property chose to publish.
    pub results: u64,
}

impl Ctx {
    fn new(feed: Feed, verbose: bool) -> Ctx {
        Ctx {
            feed,
            taken: Vec::with_capacity(64),
            labels: Vec::new(),
            nontrivial: false,
            ident: 0x9e3779b97f4a7c15,
            verbose,
            text: Vec::new(),
            results: 0,
        }
    }

    pub fn random(seed: u64) -> Ctx {
        Ctx::new(Feed::Random(Prng::new(seed)), false)
    }

    pub fn fixed(choices: &[u64], verbose: bool) -> Ctx {
        Ctx::new(Feed::Fixed(choices.to_vec(), 0), verbose)
    }

    /// A number in [0, bound); bound 0 means the whole of u64.
    pub fn draw(&mut self, bound: u64) -> u64 {
        let v = match &mut self.feed {
            Feed::Random(r) => {
                let x = r.next();
                if bound == 0 { x } else { ((x as u128 * bound as u128) >> 64) as u64 }
            }
            Feed::Fixed(v, at) => {
                let x = v.get(*at).copied().unwrap_or(0);
                *at += 1;
                if bound == 0 || x < bound { x } else { x % bound }
            }
        };
        self.taken.push(v);
        v
    }

    pub fn below(&mut self, bound: usize) -> usize {
        self.draw(bound as u64) as usize
    }

    pub fn flag(&mut self) -> bool {
        self.draw(2) == 1
    }

    /// True with probability num/den; false when shrunk.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.draw(den) >= den - num
    }

    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }

    pub fn key<T: Hash>(&mut self, v: &T) {
        struct H(u64);
        impl Hasher for H {
            fn finish(&self) -> u64 {
                self.0
            }
            fn write(&mut self, b: &[u8]) {
                for c in b.chunks(8) {
                    let mut w = 0u64;
                    for (i, x) in c.iter().enumerate() {
                        w |= (*x as u64) << (8 * i);
                    }
                    self.0 = (self.0.rotate_left(23) ^ w).wrapping_mul(0x9fb21c651e98df25);
                    self.0 ^= self.0 >> 29;
                }
            }
        }
        let mut h = H(self.ident);
        v.hash(&mut h);
        self.ident = h.0;
    }

    /// Add a result to the hash that is compared between build modes.
    pub fn digest(&mut self, v: &crate::big::Big) {
        for w in v.0.iter() {
            self.results = (self.results.rotate_left(23) ^ w).wrapping_mul(0x9fb21c651e98df25);
        }
    }

    pub fn say<F: FnOnce() -> String>(&mut self, f: F) {
        if self.verbose {
            let s = f();
            self.text.push(s);
        }
    }
}

// ---------------------------------------------------------------- panics

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = RefCell::new(None);
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
}

pub type Res = Result<(), String>;
pub type Prop = Arc<dyn Fn(&mut Ctx) -> Res + Send + Sync>;

pub enum Outcome {
    Pass,
    Fail(String),
    /// The harness itself misbehaved.
    Broken(String),
}

pub fn run_case(p: &Prop, ctx: &mut Ctx) -> Outcome {
    match catch_unwind(AssertUnwindSafe(|| p(ctx))) {
        Ok(Ok(())) => Outcome::Pass,
        Ok(Err(m)) => Outcome::Fail(m),
        Err(_) => {
            let (loc, msg) = LAST_PANIC
                .with(|p| p.borrow_mut().take())
                .unwrap_or_else(|| ("?".to_string(), "panic".to_string()));
            // Paths of this crate are relative to its own root; those of the
            // code under test and of its dependencies are absolute.
            if loc.starts_with("src/") || loc.starts_with("/verif/") {
                Outcome::Broken(format!("harness panicked at {}: {}", loc, msg))
            } else {
                Outcome::Fail(format!("panicked at {}: {}", loc, msg))
            }
        }
    }
}

/// The result of `f`, a panic as a failure: for threads that a case starts.
pub fn caught<F: FnOnce() -> Res>(f: F) -> Res {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(_) => {
            let (loc, msg) = LAST_PANIC
                .with(|p| p.borrow_mut().take())
                .unwrap_or_else(|| ("?".to_string(), "panic".to_string()));
            if loc.starts_with("src/") || loc.starts_with("/verif/") {
                panic!("harness panicked at {}: {}", loc, msg);
            }
            Err(format!("panicked at {}: {}", loc, msg))
        }
    }
}

// ---------------------------------------------------------------- shrinking

/// Shortlex order on choice lists.
fn simpler(a: &[u64], b: &[u64]) -> bool {
    a.len() < b.len() || (a.len() == b.len() && a < b)
}

/// None if the case passes when it runs again on its own.
pub fn shrink(p: &Prop, start: Vec<u64>, met: &str, budget: usize) -> Option<(Vec<u64>, String)> {
    let left = std::cell::Cell::new(budget);
    let mut best = start;
    let mut why = met.to_string();
    // Re-run to learn the choices really used. A failure that depends on what
    // else runs may not come back; it is a failure all the same.
    let mut again = false;
    for _ in 0..20 {
        let mut c = Ctx::fixed(&best, false);
        if let Outcome::Fail(m) = run_case(p, &mut c) {
            why = m;
            again = true;
            if simpler(&c.taken, &best) {
                best = c.taken;
            }
            break;
        }
    }
    if !again {
        return None;
    }
    let attempt = |cand: Vec<u64>, best: &mut Vec<u64>, why: &mut String| -> bool {
        if left.get() == 0 || !simpler(&cand, best) {
            return false;
        }
        left.set(left.get() - 1);
        let mut c = Ctx::fixed(&cand, false);
        match run_case(p, &mut c) {
            Outcome::Fail(m) => {
                let t = if simpler(&c.taken, &cand) { c.taken } else { cand };
                if simpler(&t, best) {
                    *best = t;
                    *why = m;
                    return true;
                }
                false
            }
            _ => false,
        }
    };
    loop {
        let before = best.clone();
        // Delete blocks.
        for size in [32usize, 16, 8, 4, 3, 2, 1] {
            let mut i = best.len();
            while i > 0 {
                i -= 1;
                if i + size <= best.len() {
                    let mut c = best.clone();
                    c.drain(i..i + size);
                    attempt(c, &mut best, &mut why);
                }
            }
        }
        // Zero blocks.
        for size in [16usize, 8, 4, 2, 1] {
            let mut i = 0;
            while i + size <= best.len() {
                let mut c = best.clone();
                for x in &mut c[i..i + size] {
                    *x = 0;
                }
                attempt(c, &mut best, &mut why);
                i += 1;
            }
        }
        // Lower single values: halving, then bit clearing, then stepping.
        for i in 0..best.len() {
            let mut step = 0;
            while i < best.len() && best[i] > 0 && step < 64 {
                let v = best[i];
                let mut done = false;
                for nv in [v / 2, v - v / 4, v - 1] {
                    if nv < v {
                        let mut c = best.clone();
                        c[i] = nv;
                        if attempt(c, &mut best, &mut why) {
                            done = true;
                            break;
                        }
                    }
                }
                step += 1;
                if !done {
                    break;
                }
            }
            for b in (0..64).rev() {
                if i < best.len() && (best[i] >> b) & 1 == 1 {
                    let mut c = best.clone();
                    c[i] &= !(1u64 << b);
                    attempt(c, &mut best, &mut why);
                }
            }
        }
        if best == before || left.get() == 0 {
            return Some((best, why));
        }
    }
}

/// A case among others: its unit and its choices.
pub type Past = Vec<(usize, Vec<u64>)>;

/// Runs `past` and then the case on a thread of their own; why the case fails.
pub fn after(units: &[Unit], past: &[(usize, Vec<u64>)], unit: usize, choices: &[u64]) -> Option<String> {
    std::thread::scope(|s| {
        let run = || {
            for (u, ch) in past {
                let _ = run_case(&units[*u].prop, &mut Ctx::fixed(ch, false));
            }
            match run_case(&units[unit].prop, &mut Ctx::fixed(choices, false)) {
                Outcome::Fail(m) => Some(m),
                _ => None,
            }
        };
        std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(s, run).expect("thread").join().expect("thread")
    })
}

/// For a failure that does not come back on its own: the fewest of the cases
/// that the thread ran before it after which it does.
fn shrink_past(units: &[Unit], past: &[(usize, u64)], unit: usize, choices: &[u64]) -> Option<(Past, String)> {
    let t0 = Instant::now();
    let choices_of = |&(u, seed): &(usize, u64)| {
        let mut c = Ctx::random(seed);
        let _ = run_case(&units[u].prop, &mut c);
        (u, c.taken)
    };
    let mut keep: Past = Vec::new();
    let mut why = None;
    let mut n = 1;
    while why.is_none() {
        keep = past[past.len() - n.min(past.len())..].iter().map(choices_of).collect();
        why = after(units, &keep, unit, choices);
        if n >= past.len() {
            break;
        }
        n *= 4;
    }
    let mut why = why?;
    let mut size = keep.len().next_power_of_two();
    while size > 0 && t0.elapsed().as_secs() < 60 {
        let mut i = 0;
        while i < keep.len() {
            let mut less = keep.clone();
            less.drain(i..(i + size).min(keep.len()));
            match after(units, &less, unit, choices) {
                Some(m) => {
                    keep = less;
                    why = m;
                }
                None => i += size,
            }
        }
        size /= 2;
    }
    Some((keep, why))
}

// ---------------------------------------------------------------- running

#[derive(Clone)]
pub struct Unit {
    pub name: String,
    pub cases: usize,
    /// Weight of one case, for shard sizes only.
    pub cost: usize,
    pub prop: Prop,
}

pub fn unit<F>(name: String, cases: usize, cost: usize, f: F) -> Unit
where
    F: Fn(&mut Ctx) -> Res + Send + Sync + 'static,
{
    Unit { name, cases, cost, prop: Arc::new(f) }
}

pub struct Failure {
    pub unit: String,
    /// Cases that must run before it, on the same thread.
    pub past: Vec<(String, Vec<u64>)>,
    pub choices: Vec<u64>,
    pub why: String,
    pub text: Vec<String>,
}

pub struct Report {
    pub evaluations: u64,
    pub nontrivial: u64,
    pub distinct: u64,
    pub labels: BTreeMap<String, u64>,
    pub per_unit: BTreeMap<String, u64>,
    pub samples: Vec<(String, Vec<String>)>,
    pub failures: Vec<Failure>,
    pub broken: Vec<String>,
    pub wall: f64,
    /// Order-independent hash over all cases of what they published.
    pub digest: u64,
}

struct Job {
    unit: usize,
    seed: u64,
    cases: usize,
}

#[derive(Default)]
struct Part {
    evaluations: u64,
    nontrivial: u64,
    seen: HashSet<u64>,
    labels: BTreeMap<&'static str, u64>,
    digest: u64,
}

fn shard_seed(name: &str, seed: u64, shard: u64) -> u64 {
    hash_str(name)
        .wrapping_mul(0x9e3779b97f4a7c15)
        .wrapping_add(seed.wrapping_mul(0xd1342543de82ef95))
        .wrapping_add(shard.wrapping_mul(0xa0761d6478bd642f))
}

/// Distinct cases are counted up to this many per unit and thread.
const SEEN_CAP: usize = 150_000;

/// How many earlier cases of a thread are remembered for failures that depend on them.
const PAST: usize = 4096;

pub fn run_units(units: &[Unit], seed: u64, threads: usize) -> Report {
    let t0 = Instant::now();
    let mut jobs = Vec::new();
    for (i, u) in units.iter().enumerate() {
        let per = (20_000 / u.cost.max(1)).max(8);
        let mut left = u.cases;
        let mut shard = 0u64;
        while left > 0 {
            let n = left.min(per);
            let s = shard_seed(&u.name, seed, shard);
            jobs.push(Job { unit: i, seed: s, cases: n });
            left -= n;
            shard += 1;
        }
    }
    // Interleave the units so that a failure in any of them is met early.
    let order: Vec<usize> = {
        let mut by: Vec<Vec<usize>> = vec![Vec::new(); units.len()];
        for (j, job) in jobs.iter().enumerate() {
            by[job.unit].push(j);
        }
        let mut out = Vec::new();
        let mut k = 0;
        loop {
            let mut any = false;
            for b in &by {
                if k < b.len() {
                    out.push(b[k]);
                    any = true;
                }
            }
            if !any {
                break;
            }
            k += 1;
        }
        out
    };
    let next = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let parts: Mutex<Vec<(usize, Part)>> = Mutex::new(Vec::new());
    let fails: Mutex<Vec<(usize, u64, Vec<u64>, String, Vec<(usize, u64)>)>> = Mutex::new(Vec::new());
    let broken: Mutex<Vec<String>> = Mutex::new(Vec::new());
    std::thread::scope(|s| {
        for _ in 0..threads {
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn_scoped(s, || {
                    let mut acc: BTreeMap<usize, Part> = BTreeMap::new();
                    let mut past: VecDeque<(usize, u64)> = VecDeque::new();
                    loop {
                        let k = next.fetch_add(1, Ordering::Relaxed);
                        if k >= order.len() || stop.load(Ordering::Relaxed) {
                            break;
                        }
                        let job = &jobs[order[k]];
                        let u = &units[job.unit];
                        let part = acc.entry(job.unit).or_default();
                        let mut seeds = Prng::new(job.seed);
                        for _ in 0..job.cases {
                            if stop.load(Ordering::Relaxed) {
                                break;
                            }
                            let case_seed = seeds.next();
                            let mut c = Ctx::random(case_seed);
                            let r = run_case(&u.prop, &mut c);
                            part.evaluations += 1;
                            part.digest = part.digest.wrapping_add(c.results.wrapping_mul(c.ident | 1));
                            for l in &c.labels {
                                *part.labels.entry(l).or_insert(0) += 1;
                            }
                            if c.nontrivial {
                                part.nontrivial += 1;
                                if part.seen.len() < SEEN_CAP {
                                    part.seen.insert(c.ident);
                                }
                            }
                            match r {
                                Outcome::Pass => {
                                    if past.len() == PAST {
                                        past.pop_front();
                                    }
                                    past.push_back((job.unit, case_seed));
                                }
                                Outcome::Fail(m) => {
                                    let past = past.iter().copied().collect();
                                    fails.lock().unwrap().push((job.unit, job.seed, c.taken, m, past));
                                    stop.store(true, Ordering::Relaxed);
                                    break;
                                }
                                Outcome::Broken(m) => {
                                    broken.lock().unwrap().push(format!("{}: {}", u.name, m));
                                    stop.store(true, Ordering::Relaxed);
                                    break;
                                }
                            }
                        }
                    }
                    parts.lock().unwrap().extend(acc);
                })
                .expect("thread");
        }
    });
    let mut rep = Report {
        evaluations: 0,
        nontrivial: 0,
        distinct: 0,
        labels: BTreeMap::new(),
        per_unit: BTreeMap::new(),
        samples: Vec::new(),
        failures: Vec::new(),
        broken: broken.into_inner().unwrap(),
        wall: 0.0,
        digest: 0,
    };
    let mut seen: BTreeMap<usize, HashSet<u64>> = BTreeMap::new();
    for (u, p) in parts.into_inner().unwrap() {
        rep.evaluations += p.evaluations;
        rep.digest = rep.digest.wrapping_add(p.digest);
        rep.nontrivial += p.nontrivial;
        *rep.per_unit.entry(units[u].name.clone()).or_insert(0) += p.evaluations;
        for (l, n) in p.labels {
            *rep.labels.entry(l.to_string()).or_insert(0) += n;
        }
        seen.entry(u).or_default().extend(p.seen);
    }
    rep.distinct = seen.values().map(|s| s.len() as u64).sum();
    let mut fails = fails.into_inner().unwrap();
    fails.sort();
    for (u, _, choices, met, past) in fails {
        let mut before = Vec::new();
        let (best, why) = match shrink(&units[u].prop, choices.clone(), &met, 4000) {
            Some(x) => x,
            None => match shrink_past(units, &past, u, &choices) {
                Some((p, why)) => {
                    before = p.into_iter().map(|(u, ch)| (units[u].name.clone(), ch)).collect();
                    (choices, format!("{} (after {} other cases on the same thread)", why, before.len()))
                }
                None => (choices, format!("{} (passes when run again)", met)),
            },
        };
        let mut c = Ctx::fixed(&best, true);
        let _ = run_case(&units[u].prop, &mut c);
        rep.failures.push(Failure { unit: units[u].name.clone(), past: before, choices: best, why, text: c.text });
    }
    // Samples: the first non-trivial case of every unit (at most 24 units).
    if rep.failures.is_empty() && rep.broken.is_empty() {
        let stride = (units.len() + 23) / 24;
        for u in units.iter().step_by(stride.max(1)) {
            // The cases the run started with, once more with text.
            let mut seeds = Prng::new(shard_seed(&u.name, seed, 0));
            for _ in 0..20.min(u.cases) {
                let mut c = Ctx::random(seeds.next());
                c.verbose = true;
                let _ = run_case(&u.prop, &mut c);
                if c.nontrivial {
                    rep.samples.push((u.name.clone(), c.text));
                    break;
                }
            }
        }
    }
    rep.wall = t0.elapsed().as_secs_f64();
    rep
}

// ---------------------------------------------------------------- JSON text

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
