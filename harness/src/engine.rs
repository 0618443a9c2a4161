//! Choice-sequence property-testing engine: generation, replay, shrinking,
//! multi-threaded running, supervision, evidence.
//!
//! Every random decision of a case is one `Src` draw.  A case is therefore a
//! pure function of its choice sequence: the sequence is the replay file, and
//! shrinking works on it (delete blocks, zero blocks, lower values) for every
//! generator alike.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{self, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// Source of choices for one case.
pub struct Src {
    state: u64,
    replay: Option<Vec<u64>>,
    pub record: Vec<u64>,
}

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

impl Src {
    pub fn random(seed: u64) -> Self {
        Src {
            state: seed,
            replay: None,
            record: vec![],
        }
    }
    pub fn replay(choices: Vec<u64>) -> Self {
        Src {
            state: 0,
            replay: Some(choices),
            record: vec![],
        }
    }
    /// A number in `0..n`; 0 is the simplest choice.
    pub fn below(&mut self, n: u64) -> u64 {
        let n = n.max(1);
        let v = match &self.replay {
            None => {
                if n == 1 {
                    0
                } else {
                    // 128-bit multiply keeps it unbiased enough
                    ((splitmix(&mut self.state) as u128 * n as u128) >> 64) as u64
                }
            }
            Some(r) => r.get(self.record.len()).copied().unwrap_or(0).min(n - 1),
        };
        self.record.push(v);
        v
    }
    pub fn usize(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// Inclusive range.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.usize(hi.saturating_sub(lo) + 1)
    }
    /// True with probability `num/den`; `false` is the simple choice.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
        &items[self.usize(items.len())]
    }
    /// Weighted choice of an index; index 0 is the simplest.
    pub fn weighted(&mut self, weights: &[u64]) -> usize {
        let total: u64 = weights.iter().sum();
        let mut v = self.below(total);
        for (i, w) in weights.iter().enumerate() {
            if v < *w {
                return i;
            }
            v -= w;
        }
        weights.len() - 1
    }
    pub fn shuffle<T>(&mut self, items: &mut [T]) {
        // with all-zero choices, the identity
        for i in (1..items.len()).rev() {
            let j = i - self.usize(i + 1);
            items.swap(i, j);
        }
    }
}

/// Per-case report.
#[derive(Default)]
pub struct Case {
    pub nontrivial: bool,
    pub input: String,
    pub classes: Vec<&'static str>,
    pub counts: Vec<(&'static str, u64)>,
    pub inconclusive: bool,
}

impl Case {
    pub fn class(&mut self, c: &'static str) {
        self.classes.push(c);
    }
    pub fn class_if(&mut self, cond: bool, c: &'static str) {
        if cond {
            self.classes.push(c);
        }
    }
    pub fn count(&mut self, c: &'static str, n: u64) {
        self.counts.push((c, n));
    }
}

pub type Res = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)*) => {
        if !$cond {
            return Err(format!($($arg)*));
        }
    };
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub run: fn(&mut Src, &mut Case) -> Res,
    pub quick: u64,
    pub thorough: u64,
    /// Fixed probes for the known-findings file: name -> does it still fail?
    pub probes: &'static [(&'static str, fn() -> Res)],
}

thread_local! {
    static PANIC_INFO: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub const INCONCLUSIVE: &str = "HARNESS-INCONCLUSIVE";

pub fn install_hook() {
    panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        PANIC_INFO.with(|p| *p.borrow_mut() = Some(format!("panic at {loc}: {msg}")));
    }));
}

/// Runs a closure, turning a panic into `Err(description)`.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match panic::catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(PANIC_INFO
            .with(|p| p.borrow_mut().take())
            .unwrap_or_else(|| "panic".into())),
    }
}

pub fn exec(run: fn(&mut Src, &mut Case) -> Res, src: &mut Src, case: &mut Case) -> Res {
    match catch(|| run(src, case)) {
        Ok(r) => r,
        Err(p) if p.contains(INCONCLUSIVE) => {
            case.inconclusive = true;
            Ok(())
        }
        Err(p) => Err(format!("unexpected {p}")),
    }
}

fn case_seed(seed: u64, id: &str, index: u64) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in id.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    let mut s = seed ^ h.rotate_left(17);
    let a = splitmix(&mut s);
    let mut t = a ^ index.wrapping_mul(0xD1342543DE82EF95);
    splitmix(&mut t)
}

#[derive(Clone)]
pub struct Failure {
    pub index: u64,
    pub choices: Vec<u64>,
    pub message: String,
    pub input: String,
    pub crash: bool,
}

#[derive(Default)]
pub struct Totals {
    pub evaluations: u64,
    pub nontrivial: u64,
    pub inconclusive: u64,
    pub distinct: HashSet<u64>,
    pub classes: BTreeMap<&'static str, u64>,
    pub counts: BTreeMap<&'static str, u64>,
    pub samples: Vec<(u64, String)>,
}

fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}

pub struct RunOutcome {
    pub totals: Totals,
    pub failure: Option<Failure>,
    pub hung: Vec<u64>,
    pub wall: f64,
}

struct Shared {
    next: AtomicU64,
    stop: AtomicBool,
    totals: Mutex<Totals>,
    failure: Mutex<Option<Failure>>,
    /// per thread: (case index + 1, start time)
    current: Vec<Mutex<(u64, Instant)>>,
    live: AtomicU64,
}

pub const STACK: usize = 256 << 20;

/// Runs cases `0..n` except `skip`, on `threads` threads.
pub fn run_cases(
    prop: &'static Prop,
    seed: u64,
    n: u64,
    threads: usize,
    skip: &HashSet<u64>,
    case_timeout: Duration,
    progress: Option<std::path::PathBuf>,
) -> RunOutcome {
    let start = Instant::now();
    let max_slots = threads + 16;
    let shared = Arc::new(Shared {
        next: AtomicU64::new(0),
        stop: AtomicBool::new(false),
        totals: Mutex::new(Totals::default()),
        failure: Mutex::new(None),
        current: (0..max_slots)
            .map(|_| Mutex::new((0, Instant::now())))
            .collect(),
        live: AtomicU64::new(0),
    });
    let skip = Arc::new(skip.clone());
    // to find slow cases
    let slow: f64 = std::env::var("VERIF_SLOW").ok().and_then(|s| s.parse().ok()).unwrap_or(0.0);
    let spawn = |slot: usize| {
        let shared = shared.clone();
        let skip = skip.clone();
        let progress = progress.clone();
        shared.live.fetch_add(1, Ordering::SeqCst);
        std::thread::Builder::new()
            .stack_size(STACK)
            .spawn(move || {
                use std::os::unix::fs::FileExt;
                let pf = progress.and_then(|p| {
                    std::fs::OpenOptions::new().write(true).open(p).ok()
                });
                let mut local = Totals::default();
                loop {
                    if shared.stop.load(Ordering::Relaxed) {
                        break;
                    }
                    let i = shared.next.fetch_add(1, Ordering::Relaxed);
                    if i >= n {
                        break;
                    }
                    if skip.contains(&i) {
                        continue;
                    }
                    *shared.current[slot].lock().unwrap() = (i + 1, Instant::now());
                    if let Some(pf) = &pf {
                        let _ = pf.write_at(&(i + 1).to_le_bytes(), slot as u64 * 8);
                    }
                    let mut src = Src::random(case_seed(seed, prop.id, i));
                    let mut case = Case::default();
                    let begun = Instant::now();
                    let r = exec(prop.run, &mut src, &mut case);
                    if slow > 0.0 && begun.elapsed().as_secs_f64() > slow {
                        eprintln!("slow: case {i} took {:.1}s: {:?} {:.300}", begun.elapsed().as_secs_f64(), case.classes, case.input);
                    }
                    local.evaluations += 1;
                    if case.inconclusive {
                        local.inconclusive += 1;
                    }
                    for c in &case.classes {
                        *local.classes.entry(c).or_default() += 1;
                    }
                    for (c, k) in &case.counts {
                        *local.counts.entry(c).or_default() += k;
                    }
                    if case.nontrivial && !case.inconclusive {
                        local.nontrivial += 1;
                        local.distinct.insert(hash_str(&case.input));
                        if local.samples.len() < 2 {
                            let mut s = case.input.clone();
                            if s.len() > 1500 {
                                let mut e = 1500;
                                while !s.is_char_boundary(e) {
                                    e -= 1;
                                }
                                s.truncate(e);
                                s.push_str("…");
                            }
                            local.samples.push((i, s));
                        }
                    }
                    if let Err(message) = r {
                        let mut f = shared.failure.lock().unwrap();
                        if f.as_ref().map_or(true, |g| g.index > i) {
                            *f = Some(Failure {
                                index: i,
                                choices: src.record.clone(),
                                message,
                                input: case.input.clone(),
                                crash: false,
                            });
                        }
                        shared.stop.store(true, Ordering::Relaxed);
                    }
                    *shared.current[slot].lock().unwrap() = (0, Instant::now());
                    if let Some(pf) = &pf {
                        let _ = pf.write_at(&0u64.to_le_bytes(), slot as u64 * 8);
                    }
                }
                let mut t = shared.totals.lock().unwrap();
                t.evaluations += local.evaluations;
                t.nontrivial += local.nontrivial;
                t.inconclusive += local.inconclusive;
                t.distinct.extend(local.distinct);
                for (k, v) in local.classes {
                    *t.classes.entry(k).or_default() += v;
                }
                for (k, v) in local.counts {
                    *t.counts.entry(k).or_default() += v;
                }
                t.samples.extend(local.samples);
                drop(t);
                shared.live.fetch_sub(1, Ordering::SeqCst);
            })
            .unwrap();
    };
    for t in 0..threads {
        spawn(t);
    }
    let mut next_slot = threads;
    let mut abandoned: HashSet<usize> = HashSet::new();
    let mut hung = vec![];
    loop {
        std::thread::sleep(Duration::from_millis(5));
        let live = shared.live.load(Ordering::SeqCst) as usize;
        if live <= abandoned.len() {
            break;
        }
        for slot in 0..next_slot {
            if abandoned.contains(&slot) {
                continue;
            }
            let (i, t) = *shared.current[slot].lock().unwrap();
            if i != 0 && t.elapsed() > case_timeout {
                abandoned.insert(slot);
                hung.push(i - 1);
                if next_slot < max_slots {
                    spawn(next_slot);
                    next_slot += 1;
                }
            }
        }
    }
    let mut totals = std::mem::take(&mut *shared.totals.lock().unwrap());
    totals.samples.sort();
    totals.samples.truncate(6);
    let failure = shared.failure.lock().unwrap().clone();
    RunOutcome {
        totals,
        failure,
        hung,
        wall: start.elapsed().as_secs_f64(),
    }
}

/// Runs one choice sequence in a thread of its own with a time limit.
/// `None`: no answer in time.
pub fn try_choices(
    prop: &'static Prop,
    choices: Vec<u64>,
    limit: Duration,
) -> Option<(Res, Vec<u64>, String)> {
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::Builder::new()
        .stack_size(STACK)
        .spawn(move || {
            let mut src = Src::replay(choices);
            let mut case = Case::default();
            let r = exec(prop.run, &mut src, &mut case);
            let _ = tx.send((r, src.record, case.input));
        })
        .unwrap();
    rx.recv_timeout(limit).ok()
}

/// Shrinks a failing choice sequence.
pub fn shrink(prop: &'static Prop, fail: Failure, budget: Duration) -> Failure {
    let start = Instant::now();
    let mut best = fail;
    let case_limit = Duration::from_secs(10);
    let attempt = |cand: Vec<u64>, best: &mut Failure| -> bool {
        if let Some((Err(message), record, input)) = try_choices(prop, cand, case_limit) {
            // accept only if simpler in shortlex order
            if record.len() < best.choices.len()
                || (record.len() == best.choices.len() && record < best.choices)
            {
                best.choices = record;
                best.message = message;
                best.input = input;
                return true;
            }
        }
        false
    };
    let over = || start.elapsed() > budget;
    loop {
        let before = best.choices.clone();
        // delete blocks
        let mut size = (best.choices.len() / 2).max(1);
        while size >= 1 {
            let mut i = 0;
            while i < best.choices.len() {
                if over() {
                    return best;
                }
                let mut cand = best.choices.clone();
                let end = (i + size).min(cand.len());
                cand.drain(i..end);
                if !attempt(cand.clone(), &mut best) {
                    // deletion together with decrementing a preceding count
                    let mut ok = false;
                    if i > 0 && size <= 8 {
                        for back in 1..=2usize {
                            if i >= back {
                                let mut c2 = cand.clone();
                                if c2[i - back] > 0 {
                                    c2[i - back] -= 1;
                                    if attempt(c2, &mut best) {
                                        ok = true;
                                        break;
                                    }
                                }
                            }
                        }
                    }
                    if !ok {
                        i += size;
                    }
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // zero blocks
        let mut size = 8usize;
        while size >= 1 {
            let mut i = 0;
            while i < best.choices.len() {
                if over() {
                    return best;
                }
                let mut cand = best.choices.clone();
                let end = (i + size).min(cand.len());
                if cand[i..end].iter().any(|&v| v != 0) {
                    cand[i..end].fill(0);
                    attempt(cand, &mut best);
                }
                i += size;
            }
            size /= 2;
        }
        // lower single values
        let mut i = 0;
        while i < best.choices.len() {
            let v = best.choices[i];
            if v > 0 {
                let mut lo = 0;
                let mut hi = v;
                while lo < hi {
                    if over() {
                        return best;
                    }
                    let mid = lo + (hi - lo) / 2;
                    let mut cand = best.choices.clone();
                    cand[i] = mid;
                    if attempt(cand, &mut best) {
                        if i >= best.choices.len() {
                            break;
                        }
                        hi = best.choices[i].min(mid);
                    } else {
                        lo = mid + 1;
                    }
                }
            }
            i += 1;
        }
        // lower an earlier count and delete a later block
        if best.choices == before && best.choices.len() <= 120 {
            let mut i = 0;
            'outer: while i < best.choices.len() {
                if best.choices[i] > 0 && best.choices[i] < 64 {
                    for size in 1..=8usize {
                        for j in i + 1..best.choices.len() {
                            if over() {
                                return best;
                            }
                            if j + size > best.choices.len() {
                                break;
                            }
                            let mut cand = best.choices.clone();
                            cand[i] -= 1;
                            cand.drain(j..j + size);
                            if attempt(cand, &mut best) {
                                continue 'outer;
                            }
                        }
                    }
                }
                i += 1;
            }
        }
        if best.choices == before || over() {
            return best;
        }
    }
}
