//! Case runner: stages of seeded cases over all cores, guarded calls into the
//! library, evidence.

use crate::rng::{hash_bytes, mix, Rng};
use crate::stats::{Hist, Stats, DISTINCT_CAP};
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// A violation, described.
#[derive(Debug, Clone)]
pub struct Bad(pub String);

pub type Res = Result<(), Bad>;

#[macro_export]
macro_rules! bad {
    ($($t:tt)*) => { return Err($crate::core::Bad(format!($($t)*))) };
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err($crate::core::Bad(format!($($t)*))); } };
}

pub struct Ctx {
    pub rng: Rng,
    pub stats: Stats,
    pub thorough: bool,
    pub idx: u64,
    pub want_sample: bool,
    pub verbose: bool,
}

impl Ctx {
    pub fn hit(&mut self, n: &'static str, v: u64) {
        self.stats.hist.hit(n, v);
    }
    pub fn hist(&mut self) -> &mut Hist {
        &mut self.stats.hist
    }
    /// Counts one evaluation of the oracle on a case with this fingerprint.
    pub fn eval(&mut self, fp: u64) {
        self.stats.evals += 1;
        if self.stats.distinct.len() < DISTINCT_CAP {
            self.stats.distinct.insert(fp);
        }
    }
    pub fn eval_bytes(&mut self, data: &[u8]) {
        self.eval(hash_bytes(data));
    }
    /// An evaluation of a trivial case: counted, but not as distinct.
    pub fn eval_trivial(&mut self) {
        self.stats.evals += 1;
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.want_sample && self.stats.samples.len() < 64 {
            let s = f();
            self.stats.samples.push(s);
            self.want_sample = false;
        }
    }
}

pub struct Stage {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub f: fn(&mut Ctx) -> Res,
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub stages: Vec<Stage>,
    /// (feature, number of distinct values that a full run must have seen)
    pub required: Vec<(&'static str, u64)>,
}

thread_local! {
    static GUARDED: Cell<u32> = const { Cell::new(0) };
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let text = format!("{} ({})", msg, loc);
        let guarded = GUARDED.try_with(|g| g.get()).unwrap_or(0);
        if guarded == 0 {
            eprintln!("panic: {}", text);
        }
        let _ = LAST_PANIC.try_with(|p| {
            if let Ok(mut p) = p.try_borrow_mut() {
                *p = text
            }
        });
    }));
}

/// Calls into the library. A panic comes back as its message.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    GUARDED.with(|g| g.set(g.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f));
    GUARDED.with(|g| g.set(g.get() - 1));
    r.map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

/// As `catch`, a panic being a violation.
pub fn guard<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, Bad> {
    catch(f).map_err(|m| Bad(format!("{}: panicked: {}", what, m)))
}

pub struct RunCfg {
    pub seed: u64,
    pub thorough: bool,
    pub variant: String,
    pub scale: f64,
    pub threads: usize,
    pub cap: Duration,
    pub only: Vec<String>,
    pub verbose: bool,
    pub trace: bool,
    pub stage_cap: Duration,
}

pub struct Violation {
    pub stage: &'static str,
    pub idx: u64,
    pub msg: String,
}

pub struct Report {
    pub stats: Stats,
    pub violation: Option<Violation>,
    pub harness_error: Option<String>,
    pub capped: Vec<(String, u64, u64)>,
    pub stage_counts: Vec<(String, u64, f64)>,
}

fn stage_code(s: &str) -> u64 {
    hash_bytes(s.as_bytes())
}

pub fn case_rng(seed: u64, prop: &str, stage: &str, idx: u64) -> Rng {
    Rng::new(mix(&[seed, stage_code(prop), stage_code(stage), idx]))
}

// What each worker is doing, for the crash handler and the watchdog.
pub const MAX_WORKERS: usize = 64;
pub static CUR_STAGE: [AtomicU64; MAX_WORKERS] = [const { AtomicU64::new(u64::MAX) }; MAX_WORKERS];
pub static CUR_IDX: [AtomicU64; MAX_WORKERS] = [const { AtomicU64::new(0) }; MAX_WORKERS];
thread_local! {
    pub static WORKER: Cell<usize> = const { Cell::new(usize::MAX) };
}

pub fn run(prop: &Prop, cfg: &RunCfg) -> Report {
    let mut total = Stats::default();
    let mut capped = Vec::new();
    let mut counts = Vec::new();
    let start = Instant::now();
    let violation: Mutex<Option<Violation>> = Mutex::new(None);
    let harness_error: Mutex<Option<String>> = Mutex::new(None);
    for (si, st) in prop.stages.iter().enumerate() {
        if !cfg.only.is_empty() && !cfg.only.iter().any(|s| s == st.name) {
            continue;
        }
        let base = if cfg.thorough { st.thorough } else { st.quick };
        let n = (base as f64 * cfg.scale).ceil() as u64;
        let t0 = Instant::now();
        let next = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        let done = AtomicU64::new(0);
        let merged = Mutex::new(Stats::default());
        // Evenly spread over the range when scaled down, so that enumerating
        // stages are still sampled across.
        let stride = if n > 0 { (base as f64 / n as f64).max(1.0) } else { 1.0 };
        let work = |w: usize| {
            WORKER.with(|c| c.set(w));
            crate::watch::register(w);
            let mut cx = Ctx {
                rng: Rng::new(0),
                stats: Stats::default(),
                thorough: cfg.thorough,
                idx: 0,
                want_sample: false,
                verbose: cfg.verbose,
            };
            loop {
                if stop.load(Ordering::Relaxed) {
                    break;
                }
                let k = next.fetch_add(1, Ordering::Relaxed);
                if k >= n {
                    break;
                }
                if start.elapsed() > cfg.cap || t0.elapsed() > cfg.stage_cap {
                    stop.store(true, Ordering::Relaxed);
                    break;
                }
                let idx = if n >= base { k } else { (k as f64 * stride) as u64 };
                cx.rng = case_rng(cfg.seed, prop.id, st.name, idx);
                cx.idx = idx;
                cx.want_sample = k < 2;
                if cfg.trace {
                    eprintln!("CASE stage={} idx={}", st.name, idx);
                }
                CUR_IDX[w].store(idx, Ordering::Relaxed);
                CUR_STAGE[w].store(si as u64, Ordering::Relaxed);
                crate::watch::begin(w);
                let r = catch_unwind(AssertUnwindSafe(|| (st.f)(&mut cx)));
                crate::watch::end(w);
                CUR_STAGE[w].store(u64::MAX, Ordering::Relaxed);
                done.fetch_add(1, Ordering::Relaxed);
                match r {
                    Ok(Ok(())) => {}
                    Ok(Err(Bad(msg))) => {
                        let mut v = violation.lock().unwrap();
                        if v.as_ref().map_or(true, |o| idx < o.idx) {
                            *v = Some(Violation { stage: st.name, idx, msg });
                        }
                        stop.store(true, Ordering::Relaxed);
                    }
                    Err(_) => {
                        let m = LAST_PANIC.with(|p| p.borrow().clone());
                        *harness_error.lock().unwrap() =
                            Some(format!("stage {} case {}: {}", st.name, idx, m));
                        stop.store(true, Ordering::Relaxed);
                    }
                }
            }
            merged.lock().unwrap().merge(cx.stats);
        };
        if cfg.threads <= 1 {
            work(0);
        } else {
            std::thread::scope(|s| {
                for w in 0..cfg.threads.min(MAX_WORKERS) {
                    let work = &work;
                    std::thread::Builder::new()
                        .stack_size(16 << 20)
                        .spawn_scoped(s, move || work(w))
                        .unwrap();
                }
            });
        }
        let d = done.load(Ordering::Relaxed);
        total.merge(merged.into_inner().unwrap());
        counts.push((st.name.to_string(), d, t0.elapsed().as_secs_f64()));
        if violation.lock().unwrap().is_some() || harness_error.lock().unwrap().is_some() {
            break;
        }
        if d < n {
            capped.push((st.name.to_string(), d, n));
        }
    }
    Report {
        stats: total,
        violation: violation.into_inner().unwrap(),
        harness_error: harness_error.into_inner().unwrap(),
        capped,
        stage_counts: counts,
    }
}

/// Takes an iterator apart by a random sequence of the methods an iterator may
/// specialise. `same` says whether an item is the one wanted.
pub fn exercise<T, W, I: Iterator<Item = T>>(
    rng: &mut Rng,
    mut it: I,
    want: &[W],
    same: impl Fn(&T, &W) -> bool,
    what: &str,
) -> Result<(), Bad> {
    let mut at = 0;
    let n = want.len();
    let check = |x: &Option<T>, i: usize, op: &str| -> Result<(), Bad> {
        match (x, want.get(i)) {
            (None, None) => Ok(()),
            (Some(x), Some(w)) if same(x, w) => Ok(()),
            (x, _) => Err(Bad(format!(
                "{}: {} does not give item {} of {} ({})",
                what,
                op,
                i,
                n,
                if x.is_some() { "another item" } else { "nothing" }
            ))),
        }
    };
    for _ in 0..rng.usize(0, 6) {
        let (lo, hi) = it.size_hint();
        if lo > n - at || hi.map_or(false, |h| h < n - at) {
            return Err(Bad(format!("{}: size hint {:?}, {} left", what, (lo, hi), n - at)));
        }
        if at == n {
            break;
        }
        let k = match rng.below(4) {
            0 => rng.usize(0, n - at),
            1 => (n - at).saturating_sub(rng.usize(0, 2)),
            _ => rng.usize(0, 3.min(n - at)),
        };
        match rng.below(5) {
            0 => {
                let x = guard(what, || it.next())?;
                check(&x, at, "next")?;
                at += 1;
            }
            1 => {
                let x = guard(what, || it.nth(k))?;
                check(&x, at + k, "nth")?;
                at = (at + k + 1).min(n);
            }
            2 => {
                let v: Vec<T> = guard(what, || it.by_ref().take(k).collect())?;
                if v.len() != k || v.iter().zip(&want[at..]).any(|(x, w)| !same(x, w)) {
                    return Err(Bad(format!("{}: take({}) at {} of {} gives {} items, or others", what, k, at, n, v.len())));
                }
                at += k;
            }
            3 => {
                let x = guard(what, || it.by_ref().skip(k).next())?;
                check(&x, at + k, "skip")?;
                at = (at + k + 1).min(n);
            }
            _ => {
                let mut i = 0;
                let x = guard(what, || {
                    it.find(|_| {
                        i += 1;
                        i > k
                    })
                })?;
                check(&x, at + k, "find")?;
                at = (at + k + 1).min(n);
            }
        }
    }
    let left = &want[at..];
    match rng.below(6) {
        0 => {
            let c = guard(what, || it.count())?;
            if c != left.len() {
                return Err(Bad(format!("{}: count() is {}, {} of {} left", what, c, left.len(), n)));
            }
        }
        1 => {
            let x = guard(what, || it.last())?;
            let good = match (&x, left.last()) {
                (None, None) => true,
                (Some(x), Some(w)) => same(x, w),
                _ => false,
            };
            if !good {
                return Err(Bad(format!("{}: last() with {} of {} left is another", what, left.len(), n)));
            }
        }
        2 => {
            let (c, good) = guard(what, || it.fold((0, true), |(i, g), x| (i + 1, g && i < left.len() && same(&x, &left[i]))))?;
            if c != left.len() || !good {
                return Err(Bad(format!("{}: fold() sees {} items with {} of {} left, or others", what, c, left.len(), n)));
            }
        }
        3 => {
            let s = rng.usize(1, 5);
            let v: Vec<T> = guard(what, || it.step_by(s).collect())?;
            let w: Vec<&W> = left.iter().step_by(s).collect();
            if v.len() != w.len() || v.iter().zip(w).any(|(x, w)| !same(x, w)) {
                return Err(Bad(format!("{}: step_by({}) with {} of {} left gives others", what, s, left.len(), n)));
            }
        }
        _ => {
            let v: Vec<T> = guard(what, || it.collect())?;
            if v.len() != left.len() || v.iter().zip(left).any(|(x, w)| !same(x, w)) {
                return Err(Bad(format!("{}: collect() with {} of {} left gives {} items, or others", what, left.len(), n, v.len())));
            }
        }
    }
    Ok(())
}
