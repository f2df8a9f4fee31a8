//! A small property-based testing engine.
//!
//! Every random decision of a case is drawn from a *tape* of choices. When a
//! case is generated, the tape is filled from a PRNG seeded with (VERIF_SEED,
//! property, facet, case index); when it is replayed or shrunk, the tape is
//! given and nothing random happens. Shrinking edits the tape (deletes spans,
//! lowers values) and keeps every edit under which the case still fails, so it
//! works through every generator. A replay file is a tape.

use std::{
    any::Any,
    cell::{Cell, RefCell},
    collections::{BTreeMap, HashSet},
    fmt::Write as _,
    panic::{self, AssertUnwindSafe},
    sync::{
        atomic::{AtomicU64, Ordering},
        Mutex,
    },
    time::Instant,
};

// ---------------------------------------------------------------- PRNG, tape

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9e37_79b9_7f4a_7c15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

pub fn fnv(bytes: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for &b in bytes {
        h ^= b as u64;
        h = h.wrapping_mul(0x100_0000_01b3);
    }
    // final avalanche, FNV alone is weak in the high bits
    let mut x = h;
    splitmix(&mut x)
}

pub struct Tape {
    given: Vec<u64>,
    /// Where choices come from after the given ones; `None`: all zero.
    rng: Option<u64>,
    pos: usize,
    pub rec: Vec<u64>,
}

impl Tape {
    pub fn seeded(seed: u64) -> Self {
        Self { given: vec![], rng: Some(seed), pos: 0, rec: vec![] }
    }

    pub fn given(v: Vec<u64>) -> Self {
        Self { given: v, rng: None, pos: 0, rec: vec![] }
    }

    pub fn seeded_after(v: Vec<u64>, seed: u64) -> Self {
        Self { given: v, rng: Some(seed), pos: 0, rec: vec![] }
    }

    /// Draws a value in `0..bound` (`bound == 0` means all of u64).
    pub fn draw(&mut self, bound: u64) -> u64 {
        let v = match (self.given.get(self.pos), &mut self.rng) {
            (Some(&v), _) => {
                if bound == 0 {
                    v
                } else {
                    v % bound
                }
            }
            (None, None) => 0,
            (None, Some(rng)) => {
                let v = splitmix(rng);
                if bound == 0 {
                    v
                } else {
                    // multiply-shift: uniform enough for test generation
                    ((v as u128 * bound as u128) >> 64) as u64
                }
            }
        };
        self.pos += 1;
        self.rec.push(v);
        v
    }
}

// ---------------------------------------------------------------- case context

pub struct Failure {
    pub msg: String,
    /// Exact signature of the failing behaviour, for the known-findings list.
    pub key: String,
}

pub type Res = Result<(), Failure>;

pub fn fail<T>(msg: impl Into<String>) -> Result<T, Failure> {
    Err(Failure { msg: msg.into(), key: String::new() })
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)*) => {
        if !$cond {
            return $crate::engine::fail(format!($($arg)*));
        }
    };
}

#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($arg:tt)*) => {{
        match (&$a, &$b) {
            (a, b) if a != b => {
                return $crate::engine::fail(format!(
                    "{}\n   got      {:?}\n   expected {:?}", format!($($arg)*), a, b))
            }
            _ => {}
        }
    }};
}

pub struct Ctx {
    pub t: Tape,
    pub notes: Vec<String>,
    pub want_notes: bool,
    pub classes: BTreeMap<&'static str, u64>,
    pub nontrivial: bool,
    pub ident: u64,
    /// Additional evaluations done inside this case (e.g. number of mutants).
    pub extra_evals: u64,
    /// Generators give large things.
    pub large: bool,
}

impl Ctx {
    pub fn new(t: Tape, want_notes: bool) -> Self {
        Self {
            t,
            notes: vec![],
            want_notes,
            classes: BTreeMap::new(),
            nontrivial: false,
            ident: 0,
            extra_evals: 0,
            large: false,
        }
    }

    pub fn class(&mut self, c: &'static str) {
        *self.classes.entry(c).or_insert(0) += 1;
    }

    pub fn class_if(&mut self, cond: bool, c: &'static str) {
        if cond {
            self.class(c);
        }
    }

    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.want_notes {
            self.notes.push(f());
        }
    }

    /// Mixes `bytes` into the identity of this case, by which distinct cases
    /// are counted.
    pub fn id(&mut self, bytes: impl AsRef<[u8]>) {
        self.ident = self.ident.rotate_left(5).wrapping_mul(0x9e37_79b9_7f4a_7c15)
            ^ fnv(bytes.as_ref());
    }

    // --- primitive generators; 0 is always the simplest choice

    pub fn below(&mut self, n: u64) -> u64 {
        self.t.draw(n.max(1))
    }

    pub fn idx(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }

    /// `lo..=hi`
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.idx(hi - lo + 1)
    }

    pub fn u64(&mut self) -> u64 {
        self.t.draw(0)
    }

    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }

    /// True with probability num/den; shrinks to false.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }

    pub fn pick<'a, T: ?Sized>(&mut self, items: &[&'a T]) -> &'a T {
        items[self.idx(items.len())]
    }

    pub fn pick_copy<T: Copy>(&mut self, items: &[T]) -> T {
        items[self.idx(items.len())]
    }

    /// Index chosen with the given weights.
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let total: u64 = w.iter().sum();
        let mut x = self.below(total);
        for (i, &wi) in w.iter().enumerate() {
            if x < wi {
                return i;
            }
            x -= wi;
        }
        unreachable!()
    }

    /// A size up to `max`, mostly small.
    pub fn size(&mut self, max: usize) -> usize {
        match self.weighted(&[50, 35, 15]) {
            0 => self.range(0, max.min(4)),
            1 => self.range(0, max.min(20)),
            _ => self.range(0, max),
        }
    }
}

// ---------------------------------------------------------------- panics

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
    static IN_REF: Cell<bool> = const { Cell::new(false) };
    static CAPTURE: Cell<bool> = const { Cell::new(false) };
}

pub fn install_panic_hook() {
    let prev = panic::take_hook();
    panic::set_hook(Box::new(move |info| {
        if !CAPTURE.with(|c| c.get()) {
            prev(info);
            return;
        }
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = payload_str(info.payload());
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
}

fn payload_str(p: &(dyn Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}

/// Runs reference-side code that may panic inside a dependency; such a panic
/// is never blamed on viadkim.
pub fn ref_guard<T>(f: impl FnOnce() -> T) -> Option<T> {
    let old = IN_REF.with(|c| c.replace(true));
    let r = panic::catch_unwind(AssertUnwindSafe(f));
    IN_REF.with(|c| c.set(old));
    r.ok()
}

pub enum Outcome {
    Pass,
    Fail(Failure),
    /// The harness itself is broken.
    Broken(String),
}

pub type FacetFn = fn(&mut Ctx) -> Res;

pub fn run_case(f: FacetFn, ctx: &mut Ctx) -> Outcome {
    crate::watch::enter();
    let r = run_case_inner(f, ctx);
    crate::watch::leave();
    r
}

fn run_case_inner(f: FacetFn, ctx: &mut Ctx) -> Outcome {
    let old = CAPTURE.with(|c| c.replace(true));
    let r = panic::catch_unwind(AssertUnwindSafe(|| f(ctx)));
    CAPTURE.with(|c| c.set(old));
    match r {
        Ok(Ok(())) => Outcome::Pass,
        Ok(Err(e)) => Outcome::Fail(e),
        Err(_) => {
            let (loc, msg) = LAST_PANIC
                .with(|p| p.borrow_mut().take())
                .unwrap_or_else(|| ("?".into(), "?".into()));
            if loc.starts_with("src/") || loc.contains("/verif/") || loc == "?" {
                Outcome::Broken(format!("panic in harness at {loc}: {msg}"))
            } else {
                Outcome::Fail(Failure {
                    msg: format!("panic at {loc}: {msg}"),
                    key: format!("panic {}", msg.lines().next().unwrap_or("")),
                })
            }
        }
    }
}

// ---------------------------------------------------------------- runner

#[derive(Clone, Copy)]
pub struct Facet {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub run: FacetFn,
    /// Enumerated facets: the case index is drawn first from the tape. Every
    /// index in `0..n` is run with all other choices zero, and then, if the
    /// facet varies, a number of times with random other choices.
    pub enumerate: Option<u64>,
    pub varies: bool,
}

pub const fn facet(name: &'static str, quick: u64, thorough: u64, run: FacetFn) -> Facet {
    Facet { name, quick, thorough, run, enumerate: None, varies: false }
}

/// A facet that runs `n` cases, the first tape choice being the case index.
pub const fn table(name: &'static str, n: u64, run: FacetFn) -> Facet {
    Facet { name, quick: n, thorough: n, run, enumerate: Some(n), varies: false }
}

/// A table whose cases draw further choices.
pub const fn vtable(name: &'static str, n: u64, quick: u64, thorough: u64, run: FacetFn) -> Facet {
    Facet { name, quick: n * quick, thorough: n * thorough, run, enumerate: Some(n), varies: true }
}

#[derive(Default)]
pub struct Stats {
    pub evaluations: u64,
    pub nontrivial: HashSet<u64>,
    pub classes: BTreeMap<&'static str, u64>,
    pub samples: BTreeMap<u64, String>,
}

pub struct Fault {
    pub facet: &'static str,
    pub case: u64,
    pub msg: String,
    pub key: String,
    pub tape: Vec<u64>,
    pub notes: Vec<String>,
    pub shrink_steps: u64,
}

pub struct FacetReport {
    pub facet: &'static str,
    pub stats: Stats,
    pub fault: Option<Fault>,
    pub known: BTreeMap<String, u64>,
    pub broken: Option<String>,
    pub wall: f64,
}

pub fn case_tape(prop: &str, facet: &Facet, seed: u64, i: u64) -> Tape {
    if let Some(n) = facet.enumerate {
        if i < n {
            return enum_tape(i);
        }
    }
    let mut s = fnv(format!("{prop}/{}", facet.name).as_bytes()) ^ seed.wrapping_mul(0x2545_f491_4f6c_dd1d);
    splitmix(&mut s);
    s ^= i.wrapping_mul(0xd134_2543_de82_ef95);
    splitmix(&mut s);
    match facet.enumerate {
        Some(n) => Tape::seeded_after(vec![i % n], s),
        None => Tape::seeded(s),
    }
}

fn enum_tape(i: u64) -> Tape {
    // After the given choices everything is drawn as zero.
    Tape::given(vec![i])
}

pub fn run_facet(
    prop: &str,
    facet: &Facet,
    n: u64,
    seed: u64,
    threads: usize,
    known: &[(String, String)],
    limit: f64,
) -> FacetReport {
    let t0 = Instant::now();
    let next = AtomicU64::new(0);
    let min_fail = AtomicU64::new(u64::MAX);
    let merged: Mutex<(Stats, Vec<(u64, Failure, Vec<u64>)>, BTreeMap<String, u64>, Option<String>)> =
        Mutex::new((Stats::default(), vec![], BTreeMap::new(), None));

    std::thread::scope(|sc| {
        for _ in 0..threads {
            let (next, min_fail, merged) = (&next, &min_fail, &merged);
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(sc, move || {
                    crate::watch::thread();
                    let mut st = Stats::default();
                    let mut fails = vec![];
                    let mut kn: BTreeMap<String, u64> = BTreeMap::new();
                    let mut broken = None;
                    loop {
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        if i >= n
                            || i > min_fail.load(Ordering::SeqCst)
                            || t0.elapsed().as_secs_f64() > limit
                        {
                            break;
                        }
                        crate::watch::case(facet.name, i);
                        let tape = case_tape(prop, facet, seed, i);
                        let mut ctx = Ctx::new(tape, i < 6);
                        let out = run_case(facet.run, &mut ctx);
                        st.evaluations += 1 + ctx.extra_evals;
                        for (k, v) in &ctx.classes {
                            *st.classes.entry(k).or_insert(0) += v;
                        }
                        if ctx.nontrivial {
                            st.nontrivial.insert(ctx.ident ^ fnv(facet.name.as_bytes()));
                        }
                        if i < 6 && !ctx.notes.is_empty() {
                            st.samples.insert(i, ctx.notes.join(" | "));
                        }
                        match out {
                            Outcome::Pass => {}
                            Outcome::Fail(f) => {
                                if let Some((k, _)) =
                                    known.iter().find(|(k, _)| !k.is_empty() && *k == f.key)
                                {
                                    *kn.entry(k.clone()).or_insert(0) += 1;
                                    continue;
                                }
                                min_fail.fetch_min(i, Ordering::SeqCst);
                                fails.push((i, f, ctx.t.rec));
                            }
                            Outcome::Broken(m) => {
                                min_fail.fetch_min(i, Ordering::SeqCst);
                                broken = Some(format!("{}/{} case {i}: {m}", prop, facet.name));
                            }
                        }
                    }
                    let mut m = merged.lock().unwrap();
                    m.0.evaluations += st.evaluations;
                    m.0.nontrivial.extend(st.nontrivial);
                    for (k, v) in st.classes {
                        *m.0.classes.entry(k).or_insert(0) += v;
                    }
                    m.0.samples.extend(st.samples);
                    m.1.extend(fails);
                    for (k, v) in kn {
                        *m.2.entry(k).or_insert(0) += v;
                    }
                    if broken.is_some() {
                        m.3 = broken;
                    }
                })
                .unwrap();
        }
    });

    let (stats, mut fails, known_hits, broken) = merged.into_inner().unwrap();
    fails.sort_by_key(|f| f.0);
    let fault = fails.into_iter().next().map(|(case, f, tape)| {
        let orig_key = f.key.clone();
        let is_known = |k: &str| known.iter().any(|(x, _)| !x.is_empty() && x == k);
        let (tape, f2, steps) = shrink(facet, tape, f, |g| !is_known(&g.key) && g.key == orig_key);
        let mut ctx = Ctx::new(Tape::given(tape.clone()), true);
        let _ = run_case(facet.run, &mut ctx);
        Fault {
            facet: facet.name,
            case,
            msg: f2.msg,
            key: f2.key,
            tape,
            notes: ctx.notes,
            shrink_steps: steps,
        }
    });

    FacetReport {
        facet: facet.name,
        stats,
        fault,
        known: known_hits,
        broken,
        wall: t0.elapsed().as_secs_f64(),
    }
}

fn shrink(
    facet: &Facet,
    tape: Vec<u64>,
    f: Failure,
    same: impl Fn(&Failure) -> bool,
) -> (Vec<u64>, Failure, u64) {
    if tape.iter().skip(1).all(|&x| x == 0) && facet.enumerate.is_some() {
        // the tape is just the case number
        return (tape[..1.min(tape.len())].to_vec(), f, 0);
    }
    // The budget counts executions, not time, so the result is reproducible;
    // slow cases get fewer executions, and very slow ones as many as fit.
    let t0 = Instant::now();
    let mut ctx = Ctx::new(Tape::given(tape.clone()), false);
    let _ = run_case(facet.run, &mut ctx);
    let per = t0.elapsed().as_secs_f64().max(1e-6);
    let mut budget = ((15.0 / per) as u64).clamp(60, 3000);

    let mut best = tape;
    let mut bestf = f;
    let mut steps = 0;

    let mut attempt = |cand: Vec<u64>, best: &mut Vec<u64>, bestf: &mut Failure, budget: &mut u64| -> bool {
        if t0.elapsed().as_secs() >= 30 {
            *budget = 0;
        }
        if *budget == 0 || cand == *best {
            return false;
        }
        *budget -= 1;
        let mut ctx = Ctx::new(Tape::given(cand), false);
        if let Outcome::Fail(g) = run_case(facet.run, &mut ctx) {
            if same(&g) && (ctx.t.rec.len(), &ctx.t.rec) < (best.len(), best) {
                *best = ctx.t.rec;
                *bestf = g;
                steps += 1;
                return true;
            }
        }
        false
    };

    loop {
        let before = best.clone();
        // delete spans
        for size in [64usize, 32, 16, 8, 4, 3, 2, 1] {
            let step = if size > 8 { size / 2 } else { 1 };
            let mut i = best.len();
            while i > 0 && budget > 0 {
                i = i.saturating_sub(step).min(best.len());
                if i + size > best.len() {
                    continue;
                }
                let mut cand = best.clone();
                cand.drain(i..i + size);
                if !attempt(cand, &mut best, &mut bestf, &mut budget) {
                    // also try: delete span and decrement the choice before (a size)
                    if size <= 4 && i > 0 && best[i - 1] > 0 {
                        let mut cand = best.clone();
                        cand.drain(i..i + size);
                        cand[i - 1] -= 1;
                        attempt(cand, &mut best, &mut bestf, &mut budget);
                    }
                }
            }
        }
        // zero spans
        for size in [8usize, 4, 2, 1] {
            let mut i = 0;
            while i + size <= best.len() {
                if best[i..i + size].iter().any(|&x| x != 0) {
                    let mut cand = best.clone();
                    cand[i..i + size].fill(0);
                    attempt(cand, &mut best, &mut bestf, &mut budget);
                }
                i += size;
            }
        }
        // lower single values
        let mut i = 0;
        while i < best.len() {
            let mut lo_v = 0;
            let mut hi_v = best[i];
            while lo_v < hi_v && budget > 0 {
                let mid = lo_v + (hi_v - lo_v) / 2;
                let mut cand = best.clone();
                cand[i] = mid;
                if attempt(cand, &mut best, &mut bestf, &mut budget) {
                    if i >= best.len() {
                        break;
                    }
                    hi_v = best[i].min(mid);
                } else {
                    lo_v = mid + 1;
                }
            }
            i += 1;
        }
        if best == before || budget == 0 {
            break;
        }
    }
    (best, bestf, steps)
}

// ---------------------------------------------------------------- JSON output

pub fn jstr(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => {
                write!(o, "\\u{:04x}", c as u32).unwrap()
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Readable rendering of bytes, truncated.
pub fn show(b: &[u8]) -> String {
    let mut s = String::new();
    for &c in b.iter().take(160) {
        s.push_str(&std::ascii::escape_default(c).to_string());
    }
    if b.len() > 160 {
        write!(s, "…({} bytes)", b.len()).unwrap();
    }
    s
}
