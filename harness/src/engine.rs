//! A small property-based testing engine.
//!
//! Every random decision of a case is a bounded choice drawn from `Src` and
//! recorded.  A failing case is shrunk on its recorded choice sequence (delete
//! blocks, zero blocks, minimise single choices), and the shrunk sequence is
//! the replay file.  The same case functions can be driven by bytes
//! (libFuzzer) or by a saved sequence (replay).

use std::any::Any;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Instant;

// ---------------------------------------------------------------- choices

pub fn splitmix(state: &mut u64) -> u64 {
    *state = state.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *state;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

enum Mode {
    Random(u64),
    Fixed(Vec<u64>),
    Bytes(Vec<u8>),
}

pub struct Src {
    mode: Mode,
    pos: usize,
    pub rec: Vec<u64>,
    /// Where every choice is also written at once (for cases that kill the process).
    pub log: Option<std::fs::File>,
    /// Scales the sizes some generators use; 0 for quick, 1 for thorough.
    pub big: u32,
    /// Cases of more than 65536 elements (facets "..., large").
    pub huge: bool,
    /// Histories of hundreds of steps on small objects (facets "..., long").
    pub long: bool,
    /// The kinds of steps this case's history is made of (see `step`).
    swarm: Option<u64>,
}

impl Src {
    pub fn random(seed: u64, big: u32) -> Src {
        Src { mode: Mode::Random(seed), pos: 0, rec: Vec::new(), log: None, big, huge: false, long: false, swarm: None }
    }
    pub fn fixed(v: Vec<u64>, big: u32) -> Src {
        Src { mode: Mode::Fixed(v), pos: 0, rec: Vec::new(), log: None, big, huge: false, long: false, swarm: None }
    }
    pub fn bytes(v: Vec<u8>, big: u32) -> Src {
        Src { mode: Mode::Bytes(v), pos: 0, rec: Vec::new(), log: None, big, huge: false, long: false, swarm: None }
    }
    /// A choice in 0..=max; 0 is the simplest.
    pub fn upto(&mut self, max: u64) -> u64 {
        let v = match &mut self.mode {
            Mode::Random(s) => {
                let r = splitmix(s);
                if max == u64::MAX {
                    r
                } else {
                    ((r as u128 * (max as u128 + 1)) >> 64) as u64
                }
            }
            Mode::Fixed(v) => v.get(self.pos).copied().unwrap_or(0).min(max),
            Mode::Bytes(b) => {
                let n = (((64 - max.leading_zeros()) + 7) / 8) as usize;
                let mut x = 0u64;
                for t in 0..n {
                    x |= (b.get(self.pos + t).copied().unwrap_or(0) as u64) << (8 * t);
                }
                self.pos += n;
                if max == u64::MAX {
                    x
                } else {
                    x % (max + 1)
                }
            }
        };
        if !matches!(self.mode, Mode::Bytes(_)) {
            self.pos += 1;
        }
        self.rec.push(v);
        if let Some(f) = &mut self.log {
            use std::io::Write;
            let _ = f.write_all(format!("{}\n", v).as_bytes());
        }
        v
    }
    pub fn below(&mut self, n: usize) -> usize {
        self.upto(n as u64 - 1) as usize
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.upto((hi - lo) as u64) as i64
    }
    pub fn u(&mut self, lo: u32, hi: u32) -> u32 {
        lo + self.upto((hi - lo) as u64) as u32
    }
    /// true with probability num/den; false is the simpler outcome.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.upto(den - 1) >= den - num
    }
    /// Index into `weights`, earlier ones are simpler.
    pub fn weighted(&mut self, weights: &[u64]) -> usize {
        let total: u64 = weights.iter().sum();
        let mut x = self.upto(total - 1);
        for (i, w) in weights.iter().enumerate() {
            if x < *w {
                return i;
            }
            x -= w;
        }
        weights.len() - 1
    }
    /// How often a step of a history is repeated: lo to lo+n-1, hundreds in long histories.
    pub fn times(&mut self, lo: usize, n: usize) -> usize {
        if self.long {
            // the usual numbers stay the simpler ones
            match self.below(8) {
                0 => lo + self.below(n),
                _ => lo + 240 + self.below(400),
            }
        } else {
            lo + self.below(n)
        }
    }
    fn swarm(&mut self) -> u64 {
        if self.swarm.is_none() {
            let some = if self.long { self.chance(3, 4) } else { self.chance(1, 6) };
            self.swarm = Some(if some { !self.upto(u64::MAX) } else { u64::MAX });
        }
        self.swarm.unwrap()
    }
    /// The kind of a history's next step. In some cases a random selection of the kinds is left
    /// out, so that others get long runs without them; the first kind always stays.
    pub fn step(&mut self, weights: &[u64]) -> usize {
        let m = self.swarm() | 1;
        let w: Vec<u64> = weights.iter().enumerate().map(|(i, w)| if m >> i & 1 == 1 { *w } else { 0 }).collect();
        self.weighted(&w)
    }
    /// A chance that does not exist in some cases.
    pub fn rarely(&mut self, num: u64, den: u64) -> bool {
        self.swarm() >> 40 & 1 == 1 && self.chance(num, den)
    }
    pub fn bits32(&mut self) -> u32 {
        self.upto(u32::MAX as u64) as u32
    }
}

/// The same cases with more than 65536 elements.
#[macro_export]
macro_rules! large {
    ($f:path) => {{
        fn large(s: &mut $crate::engine::Src, ctx: &mut $crate::engine::Ctx) -> $crate::engine::R {
            s.huge = true;
            $f(s, ctx)
        }
        large as $crate::engine::CaseFn
    }};
}

/// The same cases with hundreds of steps.
#[macro_export]
macro_rules! long {
    ($f:path) => {{
        fn long(s: &mut $crate::engine::Src, ctx: &mut $crate::engine::Ctx) -> $crate::engine::R {
            s.long = true;
            $f(s, ctx)
        }
        long as $crate::engine::CaseFn
    }};
}

// ---------------------------------------------------------------- cases

#[derive(Debug, Clone)]
pub struct Fail {
    pub msg: String,
    /// A stable signature; only used to match entries of the known-findings file.
    pub sig: String,
}

pub type R = Result<(), Fail>;

pub fn fail<T>(msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { msg: msg.into(), sig: String::new() })
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => {
        if !$c { return $crate::engine::fail(format!($($a)*)); }
    };
}

#[derive(Default)]
pub struct Ctx {
    pub labels: Vec<&'static str>,
    pub nontrivial: bool,
    pub notes: Vec<String>,
    pub verbose: bool,
    /// Oracle comparisons made by this case.
    pub compared: u64,
}

impl Ctx {
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.label(l);
        }
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.verbose {
            self.notes.push(f());
        }
    }
}

pub type CaseFn = fn(&mut Src, &mut Ctx) -> R;

#[derive(Clone, Copy)]
pub struct Facet {
    pub name: &'static str,
    /// Cases in the quick tier.
    pub quick: u64,
    /// Cases in the thorough tier.
    pub thorough: u64,
    pub run: CaseFn,
}

#[derive(Clone)]
pub struct Property {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub facets: Vec<Facet>,
}

thread_local! {
    static PANIC: RefCell<Option<String>> = RefCell::new(None);
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let m = payload(info.payload());
        PANIC.with(|p| *p.borrow_mut() = Some(format!("panic at {}: {}", loc, m)));
    }));
}

fn payload(p: &dyn Any) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "?".to_string()
    }
}

/// Runs a closure of the code under test; a panic becomes an error text.
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into())),
    }
}

/// One evaluation of a case; panics are failures.
pub fn eval(f: CaseFn, src: &mut Src, ctx: &mut Ctx) -> R {
    match no_panic(|| f(src, ctx)) {
        Ok(r) => r,
        Err(m) => fail(m),
    }
}

// ---------------------------------------------------------------- shrinking

fn still_fails(f: CaseFn, v: &[u64], big: u32) -> Option<(Vec<u64>, Fail)> {
    let mut src = Src::fixed(v.to_vec(), big);
    let mut ctx = Ctx::default();
    match eval(f, &mut src, &mut ctx) {
        Ok(()) => None,
        Err(e) => Some((src.rec, e)),
    }
}

fn simpler(a: &[u64], b: &[u64]) -> bool {
    (a.len(), a) < (b.len(), b)
}

pub fn shrink(f: CaseFn, start: Vec<u64>, big: u32, e0: Fail) -> (Vec<u64>, Fail, u64) {
    shrink_with(&|v| still_fails(f, v, big), start, e0, 6000)
}

/// Shrinks a failing choice sequence; `test` returns the choices actually used.
pub fn shrink_with(
    test: &dyn Fn(&[u64]) -> Option<(Vec<u64>, Fail)>,
    start: Vec<u64>,
    e0: Fail,
    budget: u64,
) -> (Vec<u64>, Fail, u64) {
    let t0 = Instant::now();
    let mut best = start;
    let mut err = e0;
    let mut n = 0u64;
    loop {
        let before = best.clone();
        // delete blocks, long to short
        let mut k = (best.len() / 2).max(1);
        while k >= 1 {
            let mut i = best.len();
            while i >= k {
                i -= 1;
                let s = i + 1 - k;
                if s + k > best.len() {
                    continue;
                }
                let mut t = best.clone();
                t.drain(s..s + k);
                n += 1;
                if let Some((r, e)) = test(&t) {
                    if simpler(&r, &best) {
                        best = r;
                        err = e;
                        i = i.min(best.len());
                    }
                }
                if n > budget || t0.elapsed().as_secs() > 40 {
                    return (best, err, n);
                }
            }
            k /= 2;
        }
        // zero blocks
        for k in [16usize, 8, 4, 2] {
            let mut s = 0;
            while s + k <= best.len() {
                if best[s..s + k].iter().any(|x| *x != 0) {
                    let mut t = best.clone();
                    t[s..s + k].iter_mut().for_each(|x| *x = 0);
                    n += 1;
                    if let Some((r, e)) = test(&t) {
                        if simpler(&r, &best) {
                            best = r;
                            err = e;
                        }
                    }
                }
                s += k;
                if n > budget || t0.elapsed().as_secs() > 40 {
                    return (best, err, n);
                }
            }
        }
        // minimise single choices
        let mut i = 0;
        while i < best.len() {
            let orig = best[i];
            if orig > 0 {
                let mut try_val = |v: u64, best: &mut Vec<u64>, err: &mut Fail| -> bool {
                    let mut t = best.clone();
                    if i >= t.len() {
                        return false;
                    }
                    t[i] = v;
                    n += 1;
                    if let Some((r, e)) = test(&t) {
                        if simpler(&r, best) {
                            *best = r;
                            *err = e;
                            return true;
                        }
                    }
                    false
                };
                if !try_val(0, &mut best, &mut err) {
                    let (mut lo, mut hi) = (0u64, orig);
                    while hi - lo > 1 && i < best.len() {
                        let mid = lo + (hi - lo) / 2;
                        if try_val(mid, &mut best, &mut err) {
                            hi = mid;
                        } else {
                            lo = mid;
                        }
                    }
                }
            }
            i += 1;
            if n > budget || t0.elapsed().as_secs() > 40 {
                return (best, err, n);
            }
        }
        if best == before {
            return (best, err, n);
        }
    }
}

// ---------------------------------------------------------------- running

pub struct Failure {
    pub facet: &'static str,
    pub index: u64,
    pub choices: Vec<u64>,
    pub fail: Fail,
    pub notes: Vec<String>,
    pub shrink_evals: u64,
}

#[derive(Default)]
pub struct Stats {
    pub evaluations: u64,
    pub compared: u64,
    pub nontrivial: HashSet<u64>,
    pub labels: BTreeMap<String, u64>,
    pub known: BTreeMap<String, u64>,
}

fn hash_choices(tag: &str, v: &[u64]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in tag.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3);
    }
    for x in v {
        let mut s = h ^ *x;
        h = splitmix(&mut s);
    }
    h
}

pub fn case_seed(seed: u64, prop: &str, facet: &str, i: u64) -> u64 {
    hash_choices(&format!("{}/{}", prop, facet), &[seed, i])
}

/// Set while a case runs, per worker: milliseconds since start, 0 if idle.
pub struct Watch {
    pub since: Vec<AtomicU64>,
    pub t0: Instant,
}

pub fn run_facet(
    prop: &'static str,
    facet: &Facet,
    seed: u64,
    cases: u64,
    big: u32,
    threads: usize,
    known: &[(String, String)],
    trace: Option<&std::fs::File>,
    stats: &mut Stats,
) -> Option<Failure> {
    let next = AtomicU64::new(0);
    let block = (cases / (threads as u64 * 8)).clamp(1, 16);
    let stop_at = AtomicU64::new(u64::MAX);
    let found: Mutex<Option<(u64, Vec<u64>, Fail)>> = Mutex::new(None);
    let all: Mutex<Vec<Stats>> = Mutex::new(Vec::new());
    let watch = Watch { since: (0..threads).map(|_| AtomicU64::new(0)).collect(), t0: Instant::now() };
    let done = AtomicBool::new(false);
    std::thread::scope(|s| {
        let mut hs = Vec::new();
        for w in 0..threads {
            let (next, stop_at, found, all, watch) = (&next, &stop_at, &found, &all, &watch);
            hs.push(s.spawn(move || {
                let mut st = Stats::default();
                loop {
                    let base = next.fetch_add(block, Ordering::Relaxed);
                    if base >= cases || base > stop_at.load(Ordering::Relaxed) {
                        break;
                    }
                    for i in base..(base + block).min(cases) {
                        let mut src = Src::random(case_seed(seed, prop, facet.name, i), big);
                        let mut ctx = Ctx::default();
                        watch.since[w].store(watch.t0.elapsed().as_millis() as u64 + 1, Ordering::Relaxed);
                        if let Some(f) = trace {
                            use std::os::unix::fs::FileExt;
                            let line = format!("{:>20} {}\n{:60}", i, facet.name, "");
                            let _ = f.write_all_at(&line.as_bytes()[..64], 64 * w as u64);
                        }
                        let r = eval(facet.run, &mut src, &mut ctx);
                        watch.since[w].store(0, Ordering::Relaxed);
                        st.evaluations += 1;
                        st.compared += ctx.compared;
                        for l in &ctx.labels {
                            *st.labels.entry(format!("{}: {}", facet.name, l)).or_insert(0) += 1;
                        }
                        if ctx.nontrivial {
                            st.nontrivial.insert(hash_choices(facet.name, &src.rec));
                        }
                        if let Err(e) = r {
                            if let Some(k) = known.iter().find(|(_, sig)| !sig.is_empty() && *sig == e.sig) {
                                *st.known.entry(k.0.clone()).or_insert(0) += 1;
                                continue;
                            }
                            let mut g = found.lock().unwrap();
                            if g.as_ref().map_or(true, |(j, _, _)| i < *j) {
                                *g = Some((i, src.rec, e));
                                stop_at.fetch_min(i, Ordering::Relaxed);
                            }
                            break;
                        }
                    }
                }
                all.lock().unwrap().push(st);
            }));
        }
        // A case that never ends is not a verdict: leave with an error.
        let (watch, done) = (&watch, &done);
        s.spawn(move || {
            while !done.load(Ordering::Relaxed) {
                std::thread::sleep(std::time::Duration::from_millis(20));
                let now = watch.t0.elapsed().as_millis() as u64;
                for x in &watch.since {
                    let t = x.load(Ordering::Relaxed);
                    if t != 0 && now > t + 300_000 {
                        eprintln!("error: property {} facet {}: a case did not end within 300 s (inconclusive)", prop, facet.name);
                        std::process::exit(3);
                    }
                }
            }
        });
        for h in hs {
            let _ = h.join();
        }
        done.store(true, Ordering::Relaxed);
    });
    for st in all.into_inner().unwrap() {
        stats.evaluations += st.evaluations;
        stats.compared += st.compared;
        stats.nontrivial.extend(st.nontrivial);
        for (k, v) in st.labels {
            *stats.labels.entry(k).or_insert(0) += v;
        }
        for (k, v) in st.known {
            *stats.known.entry(k).or_insert(0) += v;
        }
    }
    let (i, rec, e) = found.into_inner().unwrap()?;
    let (choices, err, n) = shrink(facet.run, rec, big, e);
    let mut src = Src::fixed(choices.clone(), big);
    let mut ctx = Ctx { verbose: true, ..Ctx::default() };
    let r = eval(facet.run, &mut src, &mut ctx);
    let err = r.err().unwrap_or(err);
    Some(Failure { facet: facet.name, index: i, choices, fail: err, notes: ctx.notes, shrink_evals: n })
}
