//! Property-based testing engine: every case is a pure function of a sequence of choices
//! (`Src::below`), which is what is generated, mutated, shrunk and replayed.
#![allow(static_mut_refs)]
use crate::rt;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::OnceLock;

// ---- random numbers ---------------------------------------------------------------------------
#[derive(Clone)]
pub struct Rng(u64, u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut s = seed;
        let a = splitmix(&mut s);
        let b = splitmix(&mut s);
        Rng(a | 1, b)
    }
    pub fn next(&mut self) -> u64 {
        // xorshift128+
        let mut x = self.0;
        let y = self.1;
        self.0 = y;
        x ^= x << 23;
        self.1 = x ^ y ^ (x >> 17) ^ (y >> 26);
        self.1.wrapping_add(y)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            return self.next();
        }
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
}
pub fn splitmix(s: &mut u64) -> u64 {
    *s = s.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *s;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
pub fn mix(a: u64, b: u64, c: u64) -> u64 {
    let mut s = a ^ 0x5851F42D4C957F2D;
    let x = splitmix(&mut s);
    s = x ^ b;
    let y = splitmix(&mut s);
    s = y ^ c;
    splitmix(&mut s)
}

// ---- choices ----------------------------------------------------------------------------------
/// New parsers get an earlier life
pub static mut AGED: bool = false;
pub static mut GUIDED: bool = false;
pub const MAXCHOICES: usize = 1 << 18;
/// The choices of the running case are written to memory shared with the parent process, so that
/// they survive the death of the worker.
#[repr(C)]
pub struct Shared {
    pub beat: u64,
    pub stage: u64,
    /// 1 while a call of the parser runs
    pub inside: u64,
    pub len: u64,
    pub buf: [u64; MAXCHOICES],
}
pub struct Src<'a> {
    prefix: &'a [u64],
    rng: Option<Rng>,
    sh: *mut Shared,
    pos: usize,
    zeros: usize,
}
/// A case that asks for this many choices beyond the given ones is discarded: a generator that
/// repeats until something happens would never end on zeros.
const MAXZEROS: usize = 300_000;
static mut DISCARD: bool = false;
impl<'a> Src<'a> {
    pub fn new(prefix: &'a [u64], rng: Option<Rng>, sh: *mut Shared) -> Src<'a> {
        unsafe {
            (*sh).len = 0;
            SHARED = sh;
        }
        Src { prefix, rng, sh, pos: 0, zeros: 0 }
    }
    /// Random choices that are not part of the case's own ones.
    pub fn private(rng: Rng, sh: *mut Shared) -> Src<'static> {
        unsafe { (*sh).len = 0 };
        Src { prefix: &[], rng: Some(rng), sh, pos: 0, zeros: 0 }
    }
    /// A value in 0..n; n == 0 means any u64. 0 is the simplest value.
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 1 {
            return 0;
        }
        let v = if self.pos >= MAXCHOICES {
            self.zeros += 1;
            0
        } else if self.pos < self.prefix.len() {
            let v = self.prefix[self.pos];
            if n != 0 && v >= n {
                v % n
            } else {
                v
            }
        } else if let Some(r) = self.rng.as_mut() {
            r.below(n)
        } else {
            self.zeros += 1;
            0
        };
        if self.zeros > MAXZEROS * if self.rng.is_some() { 100 } else { 1 } {
            unsafe { DISCARD = true };
            panic!("discarded");
        }
        if self.pos < MAXCHOICES {
            unsafe {
                (*self.sh).buf[self.pos] = v;
                self.pos += 1;
                (*self.sh).len = self.pos as u64;
            }
        }
        v
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn usize(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    /// As `below`, but 1 stands for a bulk case, which the coverage-guided stage leaves out.
    pub fn mode(&mut self, n: u64) -> u64 {
        let v = self.below(n);
        if v == 1 && unsafe { GUIDED } {
            if self.pos <= MAXCHOICES {
                unsafe { (*self.sh).buf[self.pos - 1] = 0 };
            }
            return 0;
        }
        v
    }
    /// True with probability num/den; false is the simple outcome.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn pick<T: Clone>(&mut self, v: &[T]) -> T {
        v[self.usize(v.len())].clone()
    }
}

// ---- case context -----------------------------------------------------------------------------
pub type R = Result<(), String>;
pub struct Ctx {
    pub verbose: bool,
    pub transcript: Vec<String>,
    pub classes: Option<BTreeMap<&'static str, u64>>,
    pub nontrivial: bool,
    pub hash: u64,
    pub parses: u64,
    pub known: BTreeMap<&'static str, (u64, String)>,
    pub last: rt::Work,
}
impl Ctx {
    pub fn new(verbose: bool) -> Ctx {
        Ctx {
            verbose,
            transcript: vec![],
            classes: Some(BTreeMap::new()),
            nontrivial: false,
            hash: 0xcbf29ce484222325,
            parses: 0,
            known: BTreeMap::new(),
            last: rt::Work { edges: 0, alloc: 0, peak: 0 },
        }
    }
    pub fn begin(&mut self) {
        unsafe { rt::MONO = 0 };
        self.nontrivial = false;
        self.hash = 0xcbf29ce484222325;
        self.transcript.clear();
    }
    pub fn class(&mut self, c: &'static str) {
        if let Some(m) = self.classes.as_mut() {
            *m.entry(c).or_insert(0) += 1;
        }
    }
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    pub fn hash_bytes(&mut self, b: &[u8]) {
        let mut h = self.hash;
        for c in b {
            h = (h ^ *c as u64).wrapping_mul(0x100000001b3);
        }
        self.hash = (h ^ 0xff).wrapping_mul(0x100000001b3);
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.verbose {
            let s = f();
            self.transcript.push(s);
        }
    }
    /// A deviation that carries exactly the signature of the listed finding `id`.
    pub fn known(&mut self, id: &'static str, detail: impl FnOnce() -> String) -> R {
        if !known_listed(id) {
            return Err(format!("{} (not listed in known_findings.jsonl as {})", detail(), id));
        }
        match self.known.get_mut(id) {
            Some(e) => e.0 += 1,
            None => {
                let d = detail();
                self.known.insert(id, (1, d));
            }
        }
        Ok(())
    }
}

pub static KNOWN: OnceLock<Vec<(String, String, String)>> = OnceLock::new();
fn known_listed(id: &str) -> bool {
    KNOWN.get().map_or(false, |k| k.iter().any(|e| e.0 == id))
}
/// (id, property, text) of the entries with status "known"
pub fn load_known(path: &str) {
    let mut v = vec![];
    if let Ok(s) = std::fs::read_to_string(path) {
        for l in s.lines() {
            if jstr(l, "status").as_deref() == Some("known") {
                if let (Some(i), Some(p), Some(w)) = (jstr(l, "id"), jstr(l, "property"), jstr(l, "what_fails")) {
                    v.push((i, p, w));
                }
            }
        }
    }
    let _ = KNOWN.set(v);
}
/// The string value of a key in a one-line JSON object written by this project.
pub fn jstr(l: &str, key: &str) -> Option<String> {
    let k = format!("\"{}\":", key);
    let i = l.find(&k)? + k.len();
    let rest = l[i..].trim_start();
    let mut it = rest.strip_prefix('"')?.chars();
    let mut out = String::new();
    while let Some(c) = it.next() {
        match c {
            '"' => return Some(out),
            '\\' => match it.next()? {
                'n' => out.push('\n'),
                't' => out.push('\t'),
                'u' => {
                    let h: String = (0..4).filter_map(|_| it.next()).collect();
                    out.push(char::from_u32(u32::from_str_radix(&h, 16).ok()?)?);
                }
                c => out.push(c),
            },
            c => out.push(c),
        }
    }
    None
}
pub fn jesc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

// ---- properties -------------------------------------------------------------------------------
pub struct Plan {
    /// random cases
    pub random: u64,
    /// coverage-guided executions
    pub guided: u64,
    /// how often each sweep prefix is run
    pub sweep_reps: u64,
}
pub trait Property {
    fn id(&self) -> &'static str;
    fn rule(&self) -> &'static str;
    /// Fixed regression cases; they bypass the generators.
    fn regress(&self, _ctx: &mut Ctx) -> R {
        Ok(())
    }
    fn case(&self, src: &mut Src, ctx: &mut Ctx) -> R;
    /// Choice prefixes of the systematic part.
    fn sweeps(&self, _thorough: bool) -> Vec<Vec<u64>> {
        vec![]
    }
    fn plan(&self, thorough: bool) -> Plan;
    /// An additional exhaustive part, split over the workers: returns the number of evaluations.
    fn exhaustive(&self, _worker: u64, _workers: u64, _ctx: &mut Ctx, _beat: &mut dyn FnMut()) -> Result<u64, String> {
        Ok(0)
    }
    fn exhaustive_note(&self) -> Option<&'static str> {
        None
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![]
    }
    /// Do the parsers of a case start with an earlier life (see `P::age`)?
    fn aged(&self) -> bool {
        true
    }
    /// Failures per worker process that pass when the very same case is run again in the same process and are
    /// therefore tolerated: a cost paid once per process (a table or pattern built on first use).
    fn once_per_process(&self) -> u32 {
        0
    }
}

// ---- running one case -------------------------------------------------------------------------
pub static mut IN_PARSER: bool = false;
static mut SHARED: *mut Shared = std::ptr::null_mut();
/// Marks the begin and end of a call of the code under test.
pub fn in_parser(b: bool) {
    unsafe {
        IN_PARSER = b;
        if !SHARED.is_null() {
            std::ptr::write_volatile(&mut (*SHARED).inside, b as u64);
        }
    }
}
static mut PANIC_MSG: String = String::new();
pub fn install_hook() {
    static LOCK: std::sync::Mutex<()> = std::sync::Mutex::new(());
    std::panic::set_hook(Box::new(|i| unsafe {
        let _g = LOCK.lock();
        PANIC_MSG = format!("{}", i).replace('\n', " ");
    }));
}
#[derive(Debug, Clone)]
pub enum Outcome {
    Ok,
    Fail(String),
    /// The harness itself went wrong
    Broken(String),
}
pub fn protect(f: impl FnOnce() -> R) -> Outcome {
    in_parser(false);
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Ok(())) => Outcome::Ok,
        Ok(Err(m)) => Outcome::Fail(m),
        Err(_) => unsafe {
            rt::EDGE_LIMIT = u64::MAX;
            rt::TOTAL_LIMIT = u64::MAX;
            if DISCARD {
                DISCARD = false;
                Outcome::Ok
            } else if IN_PARSER {
                IN_PARSER = false;
                Outcome::Fail(format!("the parser panicked: {}", PANIC_MSG))
            } else {
                Outcome::Broken(format!("harness panic: {}", PANIC_MSG))
            }
        },
    }
}
pub fn run_case(p: &dyn Property, prefix: &[u64], rng: Option<Rng>, sh: *mut Shared, ctx: &mut Ctx) -> (Outcome, usize) {
    ctx.begin();
    crate::rt::logging(true);
    let mut src = Src::new(prefix, rng, sh);
    // (an earlier life would only be noise to the coverage feedback)
    unsafe { AGED = p.aged() && !GUIDED };
    let o = protect(|| p.case(&mut src, ctx));
    unsafe { AGED = false };
    if src.zeros > MAXZEROS {
        ctx.class("discarded: endless generation");
        ctx.nontrivial = false;
    }
    (o, src.pos)
}
fn choices(sh: *mut Shared) -> Vec<u64> {
    unsafe { (&(*sh).buf)[..((*sh).len as usize)].to_vec() }
}

fn simpler(a: &[u64], b: &[u64]) -> bool {
    a.len() < b.len() || (a.len() == b.len() && a < b)
}

/// Minimise a failing choice sequence. `fails` returns the normalised choices when it still fails.
/// Wall-clock limit of one shrinking run.
const SHRINK_S: i64 = 15;
pub fn shrink(start: Vec<u64>, mut budget: usize, fails: &mut dyn FnMut(&[u64]) -> Option<Vec<u64>>) -> Vec<u64> {
    let mut best = start;
    let t0 = rt::real_s();
    let mut attempt = |cand: Vec<u64>, best: &mut Vec<u64>, budget: &mut usize| -> bool {
        if *budget == 0 || cand == *best {
            return false;
        }
        *budget -= 1;
        if rt::real_s() - t0 >= SHRINK_S {
            *budget = 0;
            return false;
        }
        if let Some(n) = fails(&cand) {
            if simpler(&n, best) {
                *best = n;
                return true;
            }
        }
        false
    };
    loop {
        let before = best.clone();
        // delete chunks
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.len() && budget > 0 {
                let e = (i + size).min(best.len());
                let mut c = best[..i].to_vec();
                c.extend_from_slice(&best[e..]);
                if !attempt(c, &mut best, &mut budget) {
                    i += size;
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // zero chunks, then single values
        for size in [32usize, 8, 4, 2, 1] {
            let mut i = 0;
            while i < best.len() && budget > 0 {
                let e = (i + size).min(best.len());
                if best[i..e].iter().any(|v| *v != 0) {
                    let mut c = best.clone();
                    for v in &mut c[i..e] {
                        *v = 0;
                    }
                    attempt(c, &mut best, &mut budget);
                }
                i += size;
            }
        }
        let mut i = 0;
        while i < best.len() && budget > 0 {
            // binary search towards zero
            let mut lo = 0u64; // known not to fail (or not tried)
            while i < best.len() && best[i] > lo + 1 && budget > 0 {
                let mid = lo + (best[i] - lo) / 2;
                let mut c = best.clone();
                c[i] = mid;
                if !attempt(c, &mut best, &mut budget) {
                    lo = mid;
                }
            }
            if i < best.len() && best[i] > 0 {
                let mut c = best.clone();
                c[i] -= 1;
                attempt(c, &mut best, &mut budget);
            }
            i += 1;
        }
        if budget == 0 || best == before {
            return best;
        }
    }
}

// ---- workers ----------------------------------------------------------------------------------
pub const WORKERS: u64 = 8;

#[derive(Default, Clone)]
pub struct Tally {
    pub regress: u64,
    pub exhaustive: u64,
    pub sweep: u64,
    pub random: u64,
    pub guided: u64,
    pub parses: u64,
    pub nontrivial: u64,
    pub corpus: u64,
    pub edges: u64,
}

struct Worker<'a> {
    p: &'a dyn Property,
    sh: *mut Shared,
    ctx: Ctx,
    distinct: HashSet<u64>,
    samples: Vec<String>,
    tally: Tally,
    virgin: Vec<u8>,
    corpus: Vec<Vec<u64>>,
    cmp_of: HashMap<usize, Vec<(u64, u64)>>,
    out: Vec<String>,
    once: u32,
}
const DISTINCT_CAP: usize = 4_000_000;

fn bucket(c: u8) -> u8 {
    match c {
        0 => 0,
        1 => 1,
        2 => 2,
        3 => 4,
        4..=7 => 8,
        8..=15 => 16,
        16..=31 => 32,
        32..=127 => 64,
        _ => 128,
    }
}

impl<'a> Worker<'a> {
    fn reset_cov(&mut self) {
        unsafe {
            let n = rt::NGUARDS + 1;
            std::ptr::write_bytes(rt::MAP.as_mut_ptr(), 0, n);
            rt::NCMPS = 0;
        }
    }
    fn novelty(&mut self) -> bool {
        let mut new = false;
        unsafe {
            let n = rt::NGUARDS + 1;
            for i in 0..n {
                let c = rt::MAP[i];
                if c != 0 {
                    let b = bucket(c);
                    if self.virgin[i] & b == 0 {
                        if self.virgin[i] == 0 {
                            self.tally.edges += 1;
                        }
                        self.virgin[i] |= b;
                        new = true;
                    }
                }
            }
        }
        new
    }
    /// Runs a case; on failure shrinks it, reports it and returns false.
    fn one(&mut self, prefix: &[u64], rng: Option<Rng>, stage: &str) -> bool {
        unsafe { (*self.sh).beat += 1 };
        let (o, _) = run_case(self.p, prefix, rng, self.sh, &mut self.ctx);
        match o {
            Outcome::Ok => {
                if self.ctx.nontrivial {
                    self.tally.nontrivial += 1;
                    if self.distinct.len() < DISTINCT_CAP {
                        self.distinct.insert(self.ctx.hash);
                    }
                    let want = self.samples.len() < 2;
                    if want {
                        let ch = choices(self.sh);
                        let mut c = Ctx::new(true);
                        run_case(self.p, &ch, None, self.sh, &mut c);
                        let mut t = c.transcript;
                        if t.len() > 12 {
                            let n = t.len();
                            t.truncate(12);
                            t.push(format!("... {} more lines", n - 12));
                        }
                        self.samples.push(format!("[{}] {}", stage, t.join(" | ")));
                    }
                }
                true
            }
            Outcome::Broken(m) => {
                let ch = choices(self.sh);
                self.out.push(format!("BROKEN {}\t{}", m, fmt_choices(&ch)));
                false
            }
            Outcome::Fail(m) => {
                let ch = choices(self.sh);
                let mut msg = m;
                let p = self.p;
                let sh = self.sh;
                if self.once < p.once_per_process() {
                    self.once += 1;
                    let mut c = Ctx::new(false);
                    if let (Outcome::Ok, _) = run_case(p, &ch, None, sh, &mut c) {
                        return true;
                    }
                }
                let mut ctx = Ctx::new(false);
                let best = shrink(ch.clone(), 4000, &mut |c| {
                    unsafe { (*sh).beat += 1 };
                    match run_case(p, c, None, sh, &mut ctx) {
                        (Outcome::Fail(_), n) => Some(unsafe { (&(*sh).buf)[..n].to_vec() }),
                        _ => None,
                    }
                });
                let mut v = Ctx::new(true);
                let (o, _) = run_case(p, &best, None, sh, &mut v);
                let mut note = "";
                if let Outcome::Fail(m) = o {
                    msg = m;
                } else {
                    note = " [failed when generated, not on the re-run: the behaviour is not a function of the input]";
                }
                self.out.push(format!(
                    "FAIL {}\t{}\t{}\t{}",
                    stage,
                    jesc(&format!("{}{}", msg, note)),
                    fmt_choices(&best),
                    jesc(&v.transcript.join("\n"))
                ));
                false
            }
        }
    }
}
pub fn fmt_choices(c: &[u64]) -> String {
    c.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(",")
}

/// The whole work of worker `w`; returns text lines for the parent.
pub fn worker(p: &dyn Property, w: u64, seed: u64, thorough: bool, sh: *mut Shared) -> (Vec<String>, HashSet<u64>) {
    let mut wk = Worker {
        p,
        sh,
        ctx: Ctx::new(false),
        distinct: HashSet::new(),
        samples: vec![],
        once: 0,
        tally: Tally::default(),
        virgin: vec![0; rt::MAXG],
        corpus: vec![],
        cmp_of: HashMap::new(),
        out: vec![],
    };
    run_stages(&mut wk, w, seed, thorough);
    let t = wk.tally.clone();
    let mut out = std::mem::take(&mut wk.out);
    out.push(format!(
        "TALLY {} {} {} {} {} {} {} {} {}",
        t.regress, t.exhaustive, t.sweep, t.random, t.guided, wk.ctx.parses, t.nontrivial, t.corpus, t.edges
    ));
    for (k, v) in wk.ctx.classes.take().unwrap_or_default() {
        out.push(format!("CLASS {}\t{}", v, k));
    }
    for (k, (n, d)) in &wk.ctx.known {
        out.push(format!("KNOWN {}\t{}\t{}", k, n, jesc(d)));
    }
    for s in &wk.samples {
        out.push(format!("SAMPLE {}", jesc(s)));
    }
    (out, wk.distinct)
}

fn run_stages(wk: &mut Worker, w: u64, seed: u64, thorough: bool) {
    let p = wk.p;
    let pid = p.id().bytes().fold(0u64, |a, b| a * 256 + b as u64);
    // 1. regression cases (worker 0)
    let shp = wk.sh;
    let set_stage = |n: u64| unsafe { (*shp).stage = n };
    set_stage(1);
    if w == 0 {
        wk.ctx.begin();
        let ctx = &mut wk.ctx;
        match protect(|| p.regress(ctx)) {
            Outcome::Ok => wk.tally.regress += 1,
            Outcome::Broken(m) => {
                wk.out.push(format!("BROKEN {}", m));
                return;
            }
            Outcome::Fail(m) => {
                let mut v = Ctx::new(true);
                let _ = protect(|| p.regress(&mut v));
                wk.out.push(format!("FAIL regress\t{}\t\t{}", jesc(&m), jesc(&v.transcript.join("\n"))));
                return;
            }
        }
    }
    // 2. exhaustive part
    set_stage(2);
    {
        let ctx = &mut wk.ctx;
        ctx.begin();
        let sh = wk.sh;
        let mut beat = || unsafe { (*sh).beat += 1 };
        let mut n = 0;
        let o = protect(|| {
            n = p.exhaustive(w, WORKERS, ctx, &mut beat)?;
            Ok(())
        });
        wk.tally.exhaustive = n;
        match o {
            Outcome::Ok => {}
            Outcome::Broken(m) => {
                wk.out.push(format!("BROKEN {}", m));
                return;
            }
            Outcome::Fail(m) => {
                wk.out.push(format!("FAIL exhaustive\t{}\t\t{}", jesc(&m), jesc(&m)));
                return;
            }
        }
    }
    let plan = p.plan(thorough);
    // 3. systematic sweeps
    set_stage(3);
    let sweeps = p.sweeps(thorough);
    let total = sweeps.len() as u64 * plan.sweep_reps;
    let mut i = w;
    while i < total {
        let pre = &sweeps[(i / plan.sweep_reps) as usize];
        wk.reset_cov();
        if !wk.one(pre, Some(Rng::new(mix(seed ^ pid, 3, i))), "sweep") {
            return;
        }
        wk.tally.sweep += 1;
        i += WORKERS;
    }
    drop(sweeps);
    // 4. random generation; inputs that reach new code are kept for the guided part
    set_stage(4);
    unsafe { rt::CMPLOG = plan.guided > 0 };
    let mut i = w;
    while i < plan.random {
        wk.reset_cov();
        if !wk.one(&[], Some(Rng::new(mix(seed ^ pid, 4, i))), "random") {
            return;
        }
        wk.tally.random += 1;
        if wk.novelty() {
            keep(wk);
        }
        i += WORKERS;
    }
    // 5. coverage-guided mutation of the choice sequences
    set_stage(5);
    unsafe { GUIDED = true };
    let mut rng = Rng::new(mix(seed ^ pid, 5, w));
    if wk.corpus.is_empty() {
        return;
    }
    let n = plan.guided / WORKERS;
    for _ in 0..n {
        let k = wk.corpus.len() as u64;
        // favour recent entries
        let idx = if rng.below(3) == 0 { k - 1 - rng.below(k.min(16)) } else { rng.below(k) } as usize;
        let mut c = wk.corpus[idx].clone();
        mutate(wk, idx, &mut c, &mut rng);
        let tail = Rng::new(rng.next());
        wk.reset_cov();
        if !wk.one(&c, Some(tail), "guided") {
            return;
        }
        wk.tally.guided += 1;
        if wk.novelty() {
            keep(wk);
        }
    }
    wk.tally.corpus = wk.corpus.len() as u64;
    unsafe { rt::CMPLOG = false };
}

fn keep(wk: &mut Worker) {
    let c = choices(wk.sh);
    if c.len() <= 20_000 && wk.corpus.len() < 20_000 {
        let l: Vec<(u64, u64)> = unsafe { rt::CMPS[..rt::NCMPS].to_vec() };
        let mut seen = HashSet::new();
        let l: Vec<(u64, u64)> = l.into_iter().filter(|x| seen.insert(*x)).collect();
        wk.cmp_of.insert(wk.corpus.len(), l);
        wk.corpus.push(c);
    }
}

fn mutate(wk: &Worker, idx: usize, c: &mut Vec<u64>, rng: &mut Rng) {
    let rounds = 1 + rng.below(4);
    for _ in 0..rounds {
        if c.is_empty() {
            c.push(rng.next());
            continue;
        }
        let i = rng.below(c.len() as u64) as usize;
        match rng.below(10) {
            0 | 1 => {
                // operand of a comparison the parser made: set a choice equal to it
                if let Some(l) = wk.cmp_of.get(&idx) {
                    if !l.is_empty() {
                        let (a, b) = l[rng.below(l.len() as u64) as usize];
                        let hits: Vec<usize> = c.iter().enumerate().filter(|(_, v)| **v == b).map(|x| x.0).collect();
                        let j = if hits.is_empty() { i } else { hits[rng.below(hits.len() as u64) as usize] };
                        c[j] = a.wrapping_add(rng.below(3)).wrapping_sub(1);
                        continue;
                    }
                }
                c[i] = rng.next();
            }
            2 => c[i] = c[i].wrapping_add(1),
            3 => c[i] = c[i].wrapping_sub(1),
            4 => c[i] ^= 1 << rng.below(16),
            5 => c[i] = rng.below(256),
            6 => c[i] = rng.next() >> rng.below(64),
            7 => {
                // delete
                let e = (i + 1 + rng.below(8) as usize).min(c.len());
                c.drain(i..e);
            }
            8 => {
                // duplicate a chunk
                let e = (i + 1 + rng.below(16) as usize).min(c.len());
                let chunk = c[i..e].to_vec();
                let at = rng.below(c.len() as u64 + 1) as usize;
                for (k, v) in chunk.into_iter().enumerate() {
                    c.insert(at + k, v);
                }
            }
            _ => {
                // splice with another input
                let o = &wk.corpus[rng.below(wk.corpus.len() as u64) as usize];
                if !o.is_empty() {
                    let s = rng.below(o.len() as u64) as usize;
                    if rng.below(2) == 0 {
                        c.truncate(i);
                        c.extend_from_slice(&o[s..]);
                    } else {
                        let e = (s + 1 + rng.below(16) as usize).min(o.len());
                        for (k, v) in o[s..e].iter().enumerate() {
                            if i + k < c.len() {
                                c[i + k] = *v;
                            }
                        }
                    }
                }
            }
        }
    }
    c.truncate(20_000);
}
