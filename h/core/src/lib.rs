//! Property-testing engine shared by all harness crates.
//!
//! A case is generated by reading choices from a `Src`. In generation mode every choice is drawn
//! from a PRNG seeded by (VERIF_SEED, property, sub-check, case number) and recorded on a tape; a
//! failing case is shrunk by editing its tape (deleting blocks, zeroing and decreasing choices) and
//! regenerating, so every generator shrinks for free and every case replays from its tape alone.
//!
//! A run is a worker process (all checks of one property) under a supervisor, so that a crash of
//! the worker (stack overflow, abort) becomes a replayable report rather than a lost run.

use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub mod gl;
pub mod rng;
pub use rng::Rng;

// ------------------------------------------------------------------------------------------- Src

/// Source of choices: a tape, extended by a PRNG in generation mode and by zeros in replay mode.
pub struct Src {
    tape: Vec<u64>,
    pos: usize,
    rng: Option<Rng>,
}

impl Src {
    pub fn random(seed: u64) -> Self {
        Src { tape: vec![], pos: 0, rng: Some(Rng::new(seed)) }
    }
    pub fn replay(tape: Vec<u64>) -> Self {
        Src { tape, pos: 0, rng: None }
    }
    fn draw(&mut self, f: impl FnOnce(&mut Rng) -> u64) -> u64 {
        let v = if self.pos < self.tape.len() {
            self.tape[self.pos]
        } else {
            match &mut self.rng {
                Some(r) => {
                    let v = f(r);
                    self.tape.push(v);
                    v
                }
                // a generator that waits for another value than 0 must end when a short tape is tried
                None => {
                    assert!(self.pos < self.tape.len() + 300_000, "the tape is too short");
                    0
                }
            }
        };
        self.pos += 1;
        v
    }
    /// Uniform in 0..n (n > 0). Shrinks towards 0.
    pub fn below(&mut self, n: u64) -> u64 {
        assert!(n > 0);
        let v = self.draw(|r| r.below(n));
        if v < n {
            v
        } else {
            v % n
        }
    }
    pub fn usize(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// Uniform in lo..=hi. Shrinks towards lo.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below((hi - lo + 1) as u64) as usize
    }
    pub fn u64(&mut self) -> u64 {
        self.draw(|r| r.next())
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    /// true with probability num/den. Shrinks towards false.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        let v = self.draw(|r| (r.below(den) < num) as u64);
        v == 1
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.usize(xs.len())]
    }
    /// Index drawn with the given weights. Shrinks towards 0.
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let total: u64 = w.iter().sum();
        let v = self.draw(|r| {
            let mut x = r.below(total);
            for (i, wi) in w.iter().enumerate() {
                if x < *wi {
                    return i as u64;
                }
                x -= wi;
            }
            0
        });
        (v as usize).min(w.len() - 1)
    }
    pub fn vec<T>(&mut self, lo: usize, hi: usize, mut f: impl FnMut(&mut Src) -> T) -> Vec<T> {
        let n = self.range(lo, hi);
        (0..n).map(|_| f(self)).collect()
    }
    pub fn many<T>(&mut self, n: usize, mut f: impl FnMut(&mut Src) -> T) -> Vec<T> {
        (0..n).map(|_| f(self)).collect()
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            // 0 on the tape means "leave in place"
            let j = i - self.usize(i + 1);
            v.swap(i, j);
        }
    }
    /// A u64 with boundary bias: zero, small, near powers of two, near `special` values, uniform.
    pub fn edgy_u64(&mut self, special: &[u64]) -> u64 {
        match self.weighted(&[2, 3, 3, 4, 6]) {
            0 => self.below(4),
            1 => self.below(1 << 16),
            2 => {
                let b = self.below(64);
                let d = self.below(5);
                (1u64 << b).wrapping_add(d).wrapping_sub(2)
            }
            3 if !special.is_empty() => {
                let s = *self.pick(special);
                let d = self.below(7);
                s.wrapping_add(d).wrapping_sub(3)
            }
            _ => self.u64(),
        }
    }
}

pub const GL_P: u64 = 0xFFFF_FFFF_0000_0001;
pub const GL_SPECIAL: [u64; 8] = [
    0,
    0xFFFF_FFFF,
    0x1_0000_0000,
    0xFFFF_FFFE_0000_0001,
    0x7FFF_FFFF_8000_0000,
    0xFFFF_FFFF_0000_0001,
    0xFFFF_FFFF_FFFF_FFFF,
    0x8000_0000_0000_0000,
];

impl Src {
    /// A canonical Goldilocks value, boundary biased.
    pub fn gl(&mut self) -> u64 {
        let v = self.edgy_u64(&GL_SPECIAL);
        if v >= GL_P {
            v - GL_P
        } else {
            v
        }
    }
    /// A canonical Goldilocks value, mostly uniform.
    pub fn gl_uniform(&mut self) -> u64 {
        self.u64() % GL_P
    }
}

// --------------------------------------------------------------------------------------- outcome

#[derive(Debug, Clone)]
pub struct Fail {
    /// exact signature of the failure, matched against known_findings.txt
    pub sig: Option<String>,
    pub msg: String,
}
impl From<String> for Fail {
    fn from(msg: String) -> Self {
        Fail { sig: None, msg }
    }
}
impl From<&str> for Fail {
    fn from(msg: &str) -> Self {
        Fail { sig: None, msg: msg.to_string() }
    }
}
pub fn sig_fail(sig: &str, msg: impl Into<String>) -> Fail {
    Fail { sig: Some(sig.to_string()), msg: msg.into() }
}
pub type Res = Result<(), Fail>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !($c) { return Err($crate::Fail::from(format!($($t)*))); } };
}
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($t:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b {
            return Err($crate::Fail::from(format!("{}: {:?} != {:?}", format!($($t)*), a, b)));
        }
    }};
}

/// Runs f, turning a panic into Err(message).
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    IN_GUARD.with(|g| g.set(g.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_GUARD.with(|g| g.set(g.get() - 1));
    r.map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        }
    })
}
thread_local! { static IN_GUARD: std::cell::Cell<u32> = const { std::cell::Cell::new(0) }; }

// ------------------------------------------------------------------------------------------- Ctx

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

struct SubStat {
    name: String,
    evaluations: u64,
    nontrivial: u64,
    rule: String,
    classes: BTreeMap<String, u64>,
    samples: Vec<String>,
    wall: f64,
}

pub struct Ctx {
    pub prop: String,
    pub seed: u64,
    pub tier: Tier,
    pub assumptions: Vec<String>,
    verif: PathBuf,
    evidence_dir: PathBuf,
    replay: Option<(String, Vec<u64>)>,
    only: Option<String>,
    known: Vec<(String, String)>,
    seen_known: Mutex<BTreeMap<String, u64>>,
    subs: Vec<SubStat>,
    violations: Vec<(String, String)>,
    replay_result: Option<Res>,
    start: Instant,
}

/// What the caller learns about one case besides its verdict.
#[derive(Default)]
pub struct Info {
    classes: Vec<String>,
    trivial: bool,
    extra_evals: u64,
}
impl Info {
    pub fn class(&mut self, c: impl Into<String>) {
        self.classes.push(c.into());
    }
    /// Marks this case trivial by the sub-check's rule.
    pub fn trivial(&mut self) {
        self.trivial = true;
    }
    /// Counts further executions of the code under test made for this case.
    pub fn evals(&mut self, n: u64) {
        self.extra_evals += n;
    }
}

/// A single case that runs longer than this ends the run without a verdict (cases take at most seconds).
const HANG_S: u64 = 200;

pub struct Sub<'a> {
    ctx: &'a mut Ctx,
    name: String,
    quick: u64,
    thorough: u64,
    shards: usize,
    risky: bool,
    shrink: u32,
    rule: String,
}

fn fnv(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

fn trunc(s: String, n: usize) -> String {
    if s.len() <= n {
        s
    } else {
        let mut e = n;
        while !s.is_char_boundary(e) {
            e -= 1;
        }
        format!("{}… ({} chars)", &s[..e], s.len())
    }
}

impl Ctx {
    /// `quick` and `thorough` are numbers of generated cases.
    pub fn sub(&mut self, name: &str, quick: u64, thorough: u64) -> Sub<'_> {
        Sub {
            ctx: self,
            name: name.to_string(),
            quick,
            thorough,
            shards: 8,
            risky: false,
            shrink: 400,
            rule: String::new(),
        }
    }
    pub fn assume(&mut self, s: &str) {
        self.assumptions.push(s.to_string());
    }
    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }
}

impl<'a> Sub<'a> {
    /// Number of worker threads (1 for code with its own parallelism or process-wide state).
    pub fn shards(mut self, n: usize) -> Self {
        self.shards = n;
        self
    }
    /// The code may crash the process: record each case before it runs.
    pub fn risky(mut self) -> Self {
        self.risky = true;
        self
    }
    pub fn shrink(mut self, n: u32) -> Self {
        self.shrink = n;
        self
    }
    pub fn rule(mut self, r: &str) -> Self {
        self.rule = r.to_string();
        self
    }

    pub fn run<C: Debug>(
        self,
        gen: impl Fn(&mut Src) -> C + Sync,
        check: impl Fn(&C, &mut Info) -> Res + Sync,
    ) {
        let Sub { ctx, name, quick, thorough, shards, risky, shrink, rule } = self;
        if let Some((sub, tape)) = &ctx.replay {
            if *sub == name {
                let case = gen(&mut Src::replay(tape.clone()));
                println!("replaying {}: {}", name, trunc(format!("{case:?}"), 4000));
                let mut info = Info::default();
                let r = match guard(|| check(&case, &mut info)) {
                    Ok(r) => r,
                    Err(p) => Err(Fail::from(format!("panic: {p}"))),
                };
                ctx.replay_result = Some(r);
            }
            return;
        }
        if let Some(o) = &ctx.only {
            if !name.contains(o.as_str()) {
                return;
            }
        }
        let t0 = Instant::now();
        // Soft deadline of a quick run: a slow machine explores fewer cases rather than none.
        let deadline = if ctx.tier == Tier::Quick { Some(ctx.start + Duration::from_secs(600)) } else { None };
        let cases = if ctx.tier == Tier::Quick { quick } else { thorough };
        let base = fnv(&format!("{}/{}", ctx.prop, name)) ^ ctx.seed.wrapping_mul(0x9E3779B97F4A7C15);
        let next = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        let evals = AtomicU64::new(0);
        struct Shared {
            distinct: HashSet<u64>,
            classes: BTreeMap<String, u64>,
            samples: Vec<(u64, String)>,
            fail: Option<(u64, Vec<u64>, Fail)>,
        }
        let shared = Mutex::new(Shared {
            distinct: HashSet::new(),
            classes: BTreeMap::new(),
            samples: vec![],
            fail: None,
        });
        let ctxr: &Ctx = ctx;
        // What each shard is running: a case that does not end is named before the run is given up.
        let slots: Vec<Mutex<Option<(Instant, Vec<u64>)>>> = (0..shards).map(|_| Mutex::new(None)).collect();
        let done = AtomicBool::new(false);
        let one = |case: &C, info: &mut Info| -> Res {
            let r = match guard(|| check(case, info)) {
                Ok(r) => r,
                Err(p) => Err(Fail::from(format!("panic: {p}"))),
            };
            ctxr.filter_known(r)
        };
        std::thread::scope(|s| {
            let (slots, done) = (&slots, &done);
            let wname = name.clone();
            s.spawn(move || {
                while !done.load(Ordering::Relaxed) {
                    std::thread::sleep(Duration::from_millis(20));
                    for slot in slots {
                        let g = slot.lock().unwrap();
                        if let Some((t, tape)) = &*g {
                            if t.elapsed() > Duration::from_secs(HANG_S) {
                                eprintln!("{wname}: no result after {HANG_S} s (inconclusive); tape {tape:?}");
                                std::process::exit(3);
                            }
                        }
                    }
                }
            });
            let mut handles = vec![];
            for shard in 0..shards {
                let (next, stop, evals, shared, gen, one, ctxr, name) =
                    (&next, &stop, &evals, &shared, &gen, &one, &ctxr, &name);
                let h = std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, move || loop {
                        if stop.load(Ordering::Relaxed) || deadline.is_some_and(|d| Instant::now() > d) {
                            break;
                        }
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= cases {
                            break;
                        }
                        let mut src = Src::random(base.wrapping_add(i.wrapping_mul(0xD1B54A32D192ED03)));
                        let case = gen(&mut src);
                        if risky {
                            ctxr.note_current(name, shard, &src.tape);
                        }
                        let mut info = Info::default();
                        *slots[shard].lock().unwrap() = Some((Instant::now(), src.tape.clone()));
                        let r = one(&case, &mut info);
                        *slots[shard].lock().unwrap() = None;
                        evals.fetch_add(1 + info.extra_evals, Ordering::Relaxed);
                        let mut sh = shared.lock().unwrap();
                        for c in &info.classes {
                            *sh.classes.entry(c.clone()).or_default() += 1;
                        }
                        if !info.trivial {
                            let text = format!("{case:?}");
                            if sh.distinct.insert(fnv(&text)) && i < 3 {
                                sh.samples.push((i, trunc(text, 500)));
                            }
                        }
                        if let Err(f) = r {
                            // keep the failure with the lowest case number: deterministic per seed
                            // up to how far the other shards got
                            if sh.fail.as_ref().is_none_or(|(j, _, _)| i < *j) {
                                sh.fail = Some((i, src.tape.clone(), f));
                            }
                            stop.store(true, Ordering::Relaxed);
                        }
                        if risky {
                            ctxr.clear_current(name, shard);
                        }
                    })
                    .unwrap();
                handles.push(h);
            }
            let died: Vec<_> = handles.into_iter().filter_map(|h| h.join().err()).collect();
            done.store(true, Ordering::Relaxed);
            if let Some(e) = died.into_iter().next() {
                std::panic::resume_unwind(e); // a generator panicked: harness error
            }
        });
        let mut sh = shared.into_inner().unwrap();
        if let Some((i, tape, f)) = sh.fail.take() {
            let budget = AtomicUsize::new(shrink as usize);
            let t1 = Instant::now();
            let first = (tape.clone(), f.msg.clone());
            let cur = Mutex::new(None::<Instant>);
            let done = AtomicBool::new(false);
            let (tape, f) = std::thread::scope(|s| {
            let (curr, doner) = (&cur, &done);
            let wname = name.clone();
            s.spawn(move || {
                while !doner.load(Ordering::Relaxed) {
                    std::thread::sleep(Duration::from_millis(20));
                    if curr.lock().unwrap().is_some_and(|t| t.elapsed() > Duration::from_secs(60)) {
                        ctxr.write_replay(&wname, &first.0, &format!("case #{i}: {}", first.1), "(shrinking did not end)");
                        ctxr.write_evidence_n(1);
                        std::process::exit(1);
                    }
                }
            });
            let r = shrink_tape(tape, f, &budget, |t| {
                if t1.elapsed() > Duration::from_secs(60) {
                    return None;
                }
                let mut src = Src::replay(t.to_vec());
                *cur.lock().unwrap() = Some(Instant::now());
                let case = match guard(|| gen(&mut src)) {
                    Ok(c) => c,
                    Err(_) => {
                        *cur.lock().unwrap() = None;
                        return None;
                    }
                };
                if risky {
                    ctxr.note_current(&name, 0, t);
                }
                *cur.lock().unwrap() = Some(Instant::now());
                let r = one(&case, &mut Info::default()).err();
                *cur.lock().unwrap() = None;
                if risky {
                    ctxr.clear_current(&name, 0);
                }
                r
            });
            done.store(true, Ordering::Relaxed);
            r
            });
            let case = gen(&mut Src::replay(tape.clone()));
            let text = trunc(format!("{case:?}"), 20000);
            ctx.report(&name, &tape, &format!("case #{i}: {}", f.msg), &text);
        }
        sh.samples.sort();
        ctx.subs.push(SubStat {
            name,
            evaluations: evals.into_inner(),
            nontrivial: sh.distinct.len() as u64,
            rule,
            classes: sh.classes,
            samples: sh.samples.into_iter().map(|x| x.1).collect(),
            wall: t0.elapsed().as_secs_f64(),
        });
    }
}

/// Greedy tape shrinking: delete blocks, zero blocks, minimise single choices.
fn shrink_tape(
    mut tape: Vec<u64>,
    mut fail: Fail,
    budget: &AtomicUsize,
    mut test: impl FnMut(&[u64]) -> Option<Fail>,
) -> (Vec<u64>, Fail) {
    let mut spend = || {
        let b = budget.load(Ordering::Relaxed);
        if b == 0 {
            false
        } else {
            budget.store(b - 1, Ordering::Relaxed);
            true
        }
    };
    loop {
        let before = tape.clone();
        // truncate
        let mut k = tape.len() / 2;
        while k > 0 {
            while tape.len() >= k && spend() {
                let t = tape[..tape.len() - k].to_vec();
                match test(&t) {
                    Some(f) => {
                        tape = t;
                        fail = f;
                    }
                    None => break,
                }
            }
            k /= 2;
        }
        // delete and zero blocks
        for size in [32usize, 8, 4, 2, 1] {
            let mut i = 0;
            while i + size <= tape.len() {
                if !spend() {
                    return (tape, fail);
                }
                let mut t = tape.clone();
                t.drain(i..i + size);
                if let Some(f) = test(&t) {
                    tape = t;
                    fail = f;
                    continue;
                }
                if tape[i..i + size].iter().any(|x| *x != 0) {
                    let mut t = tape.clone();
                    t[i..i + size].fill(0);
                    if spend() {
                        if let Some(f) = test(&t) {
                            tape = t;
                            fail = f;
                        }
                    }
                }
                i += size;
            }
        }
        // minimise single values
        for i in 0..tape.len() {
            let mut step = tape[i];
            while step > 0 {
                if step > tape[i] {
                    step /= 2;
                    continue;
                }
                if !spend() {
                    return (tape, fail);
                }
                let mut t = tape.clone();
                t[i] -= step;
                if let Some(f) = test(&t) {
                    tape = t;
                    fail = f;
                } else {
                    step /= 2;
                }
            }
        }
        if tape == before {
            return (tape, fail);
        }
    }
}

impl Ctx {
    fn filter_known(&self, r: Res) -> Res {
        if let Err(Fail { sig: Some(sig), .. }) = &r {
            if self.known.iter().any(|(s, _)| s == sig) {
                *self.seen_known.lock().unwrap().entry(sig.clone()).or_default() += 1;
                return Ok(());
            }
        }
        r
    }
    fn cur_path(&self, sub: &str, shard: usize) -> Option<PathBuf> {
        std::env::var("VH_CUR").ok().map(|d| PathBuf::from(d).join(format!("{sub}.{shard}.cur")))
    }
    fn note_current(&self, sub: &str, shard: usize, tape: &[u64]) {
        if let Some(p) = self.cur_path(sub, shard) {
            let v = json!({"property": self.prop, "sub": sub, "tape": tape});
            let _ = std::fs::write(p, v.to_string());
        }
    }
    fn clear_current(&self, sub: &str, shard: usize) {
        if let Some(p) = self.cur_path(sub, shard) {
            let _ = std::fs::remove_file(p);
        }
    }
    fn report(&mut self, sub: &str, tape: &[u64], msg: &str, case: &str) {
        let path = self.write_replay(sub, tape, msg, case);
        self.violations.push((sub.to_string(), path));
    }
    fn write_replay(&self, sub: &str, tape: &[u64], msg: &str, case: &str) -> String {
        let dir = self.evidence_dir.join("replay");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{}-{}.json", self.prop, sub));
        let v = json!({"property": self.prop, "sub": sub, "seed": self.seed, "tier": format!("{:?}", self.tier).to_lowercase(),
            "message": msg, "case": case, "tape": tape});
        std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap()).unwrap();
        println!("  {}: {}", sub, trunc(msg.to_string(), 1500));
        println!("  minimal case: {}", trunc(case.to_string(), 1500));
        println!("VIOLATION property={} replay={}", self.prop, path.display());
        let _ = std::io::stdout().flush();
        path.display().to_string()
    }

    fn write_evidence(&self) {
        self.write_evidence_n(self.violations.len())
    }
    fn write_evidence_n(&self, violations: usize) {
        let ev: u64 = self.subs.iter().map(|s| s.evaluations).sum();
        let nt: u64 = self.subs.iter().map(|s| s.nontrivial).sum();
        let rule = self.subs.iter().map(|s| format!("{}: {}", s.name, s.rule)).collect::<Vec<_>>().join(" | ");
        let mut samples: Vec<Value> = vec![];
        for s in &self.subs {
            for x in &s.samples {
                samples.push(json!({"sub": s.name, "case": x}));
            }
        }
        let per: Vec<Value> = self.subs.iter().map(|s| json!({
            "sub": s.name, "evaluations": s.evaluations, "distinct_nontrivial": s.nontrivial,
            "classes": s.classes, "wall_s": (s.wall * 100.0).round() / 100.0})).collect();
        let v = json!({
            "property": self.prop, "tier": if self.tier == Tier::Quick {"quick"} else {"thorough"},
            "seed": self.seed, "level": "exploration",
            "coverage": {"evaluations": ev, "distinct_nontrivial": nt, "rule": rule, "samples": samples,
                "per_sub_check": per,
                "known_findings_observed": &*self.seen_known.lock().unwrap()},
            "assumptions": self.assumptions,
            "wall_s": (self.start.elapsed().as_secs_f64() * 100.0).round() / 100.0,
            "violations": violations,
        });
        let path = self.evidence_dir.join(format!("{}.json", self.prop));
        std::fs::create_dir_all(&self.evidence_dir).unwrap();
        std::fs::write(path, serde_json::to_string_pretty(&v).unwrap()).unwrap();
        for s in &self.subs {
            println!("  {:<28} {:>9} executions, {:>8} distinct non-trivial, {:.1}s", s.name, s.evaluations, s.nontrivial, s.wall);
        }
    }
}

fn load_known(verif: &std::path::Path, prop: &str) -> Vec<(String, String)> {
    // lines: "property=<id> sig=<signature> <what fails>"; "fixed:" lines suppress nothing
    let Ok(text) = std::fs::read_to_string(verif.join("known_findings.txt")) else { return vec![] };
    let mut out = vec![];
    for line in text.lines() {
        let mut it = line.splitn(3, ' ');
        if let (Some(p), Some(s), what) = (it.next(), it.next(), it.next()) {
            if p == format!("property={prop}") {
                if let Some(sig) = s.strip_prefix("sig=") {
                    out.push((sig.to_string(), what.unwrap_or("").to_string()));
                }
            }
        }
    }
    out
}

/// Entry point of a harness binary.
pub fn main(props: &[(&str, fn(&mut Ctx))]) {
    let args: Vec<String> = std::env::args().collect();
    let mut prop = None;
    let mut replay = None;
    let mut only = None;
    let mut i = 1;
    while i < args.len() {
        match args[i].as_str() {
            "--replay" => {
                replay = Some(args[i + 1].clone());
                i += 1;
            }
            "--only" => {
                only = Some(args[i + 1].clone());
                i += 1;
            }
            p => prop = Some(p.to_string()),
        }
        i += 1;
    }
    let replay: Option<Value> = replay.map(|p| {
        serde_json::from_str(&std::fs::read_to_string(p).expect("replay file")).expect("replay json")
    });
    if prop.is_none() {
        prop = replay.as_ref().map(|v| v["property"].as_str().unwrap().to_string());
    }
    let prop = prop.expect("usage: BIN PROPERTY [--replay FILE] [--only SUBSTRING]");
    let Some((_, f)) = props.iter().find(|(n, _)| *n == prop) else {
        eprintln!("unknown property {prop}");
        std::process::exit(2);
    };
    if std::env::var("VH_WORKER").is_err() {
        std::process::exit(supervise(&prop));
    }
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    std::panic::set_hook(Box::new(|info| {
        if IN_GUARD.with(|g| g.get()) == 0 && std::env::var("VH_VERBOSE").is_ok() {
            eprintln!("{info}");
        }
    }));
    let verif = PathBuf::from(std::env::var("VERIF_DIR").unwrap_or("/verif".into()));
    let mut ctx = Ctx {
        known: load_known(&verif, &prop),
        evidence_dir: verif.join("evidence"),
        verif,
        prop: prop.clone(),
        seed,
        tier,
        assumptions: vec![],
        replay: replay.as_ref().map(|v| {
            (
                v["sub"].as_str().unwrap().to_string(),
                v["tape"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect(),
            )
        }),
        only,
        seen_known: Mutex::new(BTreeMap::new()),
        subs: vec![],
        violations: vec![],
        replay_result: None,
        start: Instant::now(),
    };
    // A big stack for generators and checks that run on this thread.
    let code = std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn_scoped(s, || {
                f(&mut ctx);
                if ctx.replay.is_some() {
                    return match &ctx.replay_result {
                        Some(Ok(())) => {
                            println!("replay: property holds on this case");
                            0
                        }
                        Some(Err(e)) => {
                            println!("replay: fails: {} (signature {:?})", e.msg, e.sig);
                            1
                        }
                        None => 2,
                    };
                }
                ctx.write_evidence();
                for (sig, what) in &ctx.known {
                    if ctx.seen_known.lock().unwrap().contains_key(sig) {
                        println!("KNOWN-FINDING: property={} sig={} {}", ctx.prop, sig, what);
                    }
                }
                let _ = &ctx.verif;
                if ctx.violations.is_empty() {
                    println!("OK property={} tier={:?} seed={} {:.1}s", ctx.prop, ctx.tier, ctx.seed, ctx.start.elapsed().as_secs_f64());
                    0
                } else {
                    1
                }
            })
            .unwrap()
            .join()
    });
    let code = match code {
        Ok(c) => c,
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string()));
            eprintln!("harness error: {m:?}");
            3
        }
    };
    std::process::exit(code);
}

/// Runs the worker; if it dies of a signal, replays the cases that were running and reports the
/// one that kills the process.
fn supervise(prop: &str) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    let verif = PathBuf::from(std::env::var("VERIF_DIR").unwrap_or("/verif".into()));
    let dir = std::env::temp_dir().join(format!("vh-{}-{}", prop, std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let exe = std::env::current_exe().unwrap();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let st = std::process::Command::new(&exe)
        .args(&args)
        .env("VH_WORKER", "1")
        .env("VH_CUR", &dir)
        .status()
        .expect("spawn worker");
    let mut code = st.code().unwrap_or(3);
    let crash = |s: Option<i32>| matches!(s, Some(4) | Some(6) | Some(7) | Some(8) | Some(11));
    if let Some(sig) = st.signal() {
        eprintln!("worker ended by signal {sig}");
        if crash(Some(sig)) {
            let mut files: Vec<_> = std::fs::read_dir(&dir).unwrap().flatten().map(|e| e.path()).collect();
            files.sort();
            for f in files {
                let r = std::process::Command::new(&exe)
                    .arg(prop)
                    .arg("--replay")
                    .arg(&f)
                    .env("VH_WORKER", "1")
                    .stdout(std::process::Stdio::null())
                    .status()
                    .expect("spawn replay");
                if crash(r.signal()) {
                    let out = verif.join("evidence").join("replay");
                    let _ = std::fs::create_dir_all(&out);
                    let to = out.join(format!("{prop}-crash.json"));
                    std::fs::copy(&f, &to).unwrap();
                    let ev = verif.join("evidence").join(format!("{prop}.json"));
                    let v = json!({"property": prop, "tier": std::env::var("VERIF_TIER").unwrap_or("quick".into()),
                        "seed": std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<u64>().ok()).unwrap_or(1),
                        "level": "exploration", "coverage": {"evaluations": 1, "distinct_nontrivial": 1,
                        "rule": "the case that ends the process by a signal", "samples": [to.display().to_string()]},
                        "wall_s": 0, "violations": 1});
                    let _ = std::fs::write(ev, v.to_string());
                    println!("VIOLATION property={} replay={}", prop, to.display());
                    code = 1;
                    break;
                }
            }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    code
}
