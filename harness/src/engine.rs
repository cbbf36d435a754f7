//! Exhaustive explorer: walks every index of every space, runs the case on the real code,
//! compares with the reference model, counts what it did, and stops at the first violation
//! (smallest index of the space, so the simplest member of the alphabet).
use crate::case::Case;
use crate::util::h64;
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Debug, Clone)]
pub enum Fail {
    /// the code under check breaks the property
    Violation(String),
    /// the harness itself is broken
    Engine(String),
}
pub type Res = Result<u64, Fail>;
pub fn viol<T>(s: impl Into<String>) -> Result<T, Fail> {
    Err(Fail::Violation(s.into()))
}

thread_local! {
    static MSG: RefCell<String> = RefCell::new(String::new());
    static CALLS: Cell<u64> = Cell::new(0);
}
pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        MSG.with(|c| *c.borrow_mut() = format!("{} at {}", m, l));
    }));
}
pub fn panic_msg() -> String {
    MSG.with(|c| c.borrow().clone())
}
/// One call into the code under check. A panic comes back as Err(message).
pub fn lib<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    CALLS.with(|c| c.set(c.get() + 1));
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| panic_msg())
}
/// Same, a panic being a violation.
pub fn total<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, Fail> {
    lib(f).map_err(|m| Fail::Violation(format!("{} panicked: {}", what, m)))
}
pub fn count_calls(n: u64) {
    CALLS.with(|c| c.set(c.get() + n));
}

pub fn run_guarded(c: &Case) -> Res {
    match catch_unwind(AssertUnwindSafe(|| c.run())) {
        Ok(r) => r,
        Err(_) => Err(Fail::Engine(format!("harness panic: {}", panic_msg()))),
    }
}

pub struct Space {
    pub name: String,
    pub bound: String,
    pub n: u64,
    pub gen: Box<dyn Fn(u64) -> Case + Send + Sync>,
    /// outcomes of all cases of all spaces flagged so must be pairwise distinct
    pub unique: bool,
}
impl Space {
    pub fn new(
        name: &str,
        bound: &str,
        n: u64,
        gen: impl Fn(u64) -> Case + Send + Sync + 'static,
    ) -> Space {
        Space {
            name: name.into(),
            bound: bound.into(),
            n,
            gen: Box::new(gen),
            unique: false,
        }
    }
    pub fn list(name: &str, bound: &str, v: Vec<Case>) -> Space {
        let n = v.len() as u64;
        Space::new(name, bound, n, move |i| v[i as usize].clone())
    }
}

pub struct SpaceReport {
    pub name: String,
    pub bound: String,
    pub size: u64,
    pub explored: u64,
    pub distinct: u64,
    pub wall: f64,
    pub complete: bool,
}
pub struct Report {
    pub spaces: Vec<SpaceReport>,
    pub calls: u64,
    pub cases: u64,
    pub states: u64,
    pub samples: Vec<(String, String, String)>,
    pub violation: Option<(String, String, String)>, // space, case json, message
    pub engine_error: Option<String>,
    pub digest: u64,
    pub complete: bool,
}

impl Report {
    pub fn empty() -> Report {
        Report {
            spaces: vec![],
            calls: 0,
            cases: 0,
            states: 0,
            samples: vec![],
            violation: None,
            engine_error: None,
            digest: 0,
            complete: false,
        }
    }
}

/// stack of a thread that runs cases: the size std gives to spawned threads
pub const STACK: usize = 2 << 20;
const BITS: usize = 1 << 28;
struct Bitmap(Vec<AtomicU64>);
impl Bitmap {
    fn new() -> Self {
        let mut v = Vec::with_capacity(BITS / 64);
        v.resize_with(BITS / 64, || AtomicU64::new(0));
        Bitmap(v)
    }
    /// true if the slot was empty
    fn set(&self, h: u64) -> bool {
        let h = (h ^ (h >> 31)).wrapping_mul(0x9e3779b97f4a7c15) >> 36;
        let (w, b) = ((h / 64) as usize, h % 64);
        self.0[w].fetch_or(1 << b, Relaxed) & (1 << b) == 0
    }
}

pub fn threads() -> usize {
    std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8)
}

pub fn explore(spaces: Vec<Space>, deadline: Instant, hang: Duration) -> Report {
    let nthreads = threads();
    let bitmap = Bitmap::new();
    let mut rep = Report {
        spaces: vec![],
        calls: 0,
        cases: 0,
        states: 0,
        samples: vec![],
        violation: None,
        engine_error: None,
        digest: 0,
        complete: true,
    };
    let uniq: Vec<Mutex<HashMap<u64, (usize, u64)>>> =
        (0..64).map(|_| Mutex::new(HashMap::new())).collect();
    for (si, sp) in spaces.iter().enumerate() {
        let t0 = Instant::now();
        let next = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        let done = AtomicU64::new(0);
        let explored = AtomicU64::new(0);
        let distinct = AtomicU64::new(0);
        let calls = AtomicU64::new(0);
        let digest = AtomicU64::new(0);
        let capped = AtomicBool::new(false);
        let best: Mutex<Option<(u64, Case, Fail)>> = Mutex::new(None);
        let beat: Vec<(AtomicU64, AtomicU64)> =
            (0..nthreads).map(|_| (AtomicU64::new(u64::MAX), AtomicU64::new(0))).collect();
        crate::guard::enter_space(si);
        // milliseconds this process was running: stands still while it is suspended
        let clock = AtomicU64::new(0);
        let chunk = (sp.n / (nthreads as u64 * 64)).clamp(1, 4096);
        std::thread::scope(|sc| {
            for (ti, b) in beat.iter().enumerate() {
                let (next, stop, explored, distinct, calls, digest, capped, best, done) =
                    (&next, &stop, &explored, &distinct, &calls, &digest, &capped, &best, &done);
                let (bitmap, uniq, clock) = (&bitmap, &uniq, &clock);
                std::thread::Builder::new()
                    .stack_size(STACK)
                    .spawn_scoped(sc, move || {
                        CALLS.with(|c| c.set(0));
                        let mut dg = 0u64;
                        'o: loop {
                            let lo = next.fetch_add(chunk, Relaxed);
                            if lo >= sp.n || stop.load(Relaxed) {
                                break;
                            }
                            for i in lo..(lo + chunk).min(sp.n) {
                                if stop.load(Relaxed) {
                                    break 'o;
                                }
                                if Instant::now() > deadline {
                                    capped.store(true, Relaxed);
                                    break 'o;
                                }
                                b.1.store(clock.load(Relaxed), Relaxed);
                                b.0.store(i, Release);
                                let c = (sp.gen)(i);
                                crate::guard::enter_case(ti, i);
                                let mut r = run_guarded(&c);
                                crate::guard::leave_case(ti);
                                b.0.store(u64::MAX, Release);
                                explored.fetch_add(1, Relaxed);
                                if let (Ok(h), true) = (&r, sp.unique) {
                                    let mut m = uniq[(h % 64) as usize].lock().unwrap();
                                    if let Some(&(s0, i0)) = m.get(h) {
                                        r = Err(Fail::Violation(format!(
                                            "DUP {} {}",
                                            s0, i0
                                        )));
                                    } else {
                                        m.insert(*h, (si, i));
                                    }
                                }
                                match r {
                                    Ok(h) => {
                                        if bitmap.set(h) {
                                            distinct.fetch_add(1, Relaxed);
                                        }
                                        dg = dg.wrapping_add(h64(&[&h.to_le_bytes(), &i.to_le_bytes()]));
                                    }
                                    Err(f) => {
                                        stop.store(true, Relaxed);
                                        let mut g = best.lock().unwrap();
                                        let better = match &*g {
                                            None => true,
                                            Some((j, _, Fail::Violation(_))) => i < *j,
                                            Some((_, _, Fail::Engine(_))) => {
                                                matches!(f, Fail::Violation(_))
                                            }
                                        };
                                        if better {
                                            *g = Some((i, c, f));
                                        }
                                        break 'o;
                                    }
                                }
                            }
                        }
                        calls.fetch_add(CALLS.with(|c| c.get()), Relaxed);
                        digest.fetch_add(dg, Relaxed);
                        done.fetch_add(1, Release);
                    })
                    .unwrap();
            }
            // watchdog: a case that does not come back is a violation of its own
            let mut last = Instant::now();
            let mut run = Duration::ZERO;
            loop {
                if done.load(Acquire) == nthreads as u64 {
                    break;
                }
                std::thread::sleep(Duration::from_millis(5));
                run += last.elapsed().min(Duration::from_millis(20));
                last = Instant::now();
                let now = run.as_millis() as u64;
                clock.store(now, Relaxed);
                for b in beat.iter() {
                    let i = b.0.load(Acquire);
                    let t = b.1.load(Relaxed);
                    if i != u64::MAX && now > t + hang.as_millis() as u64 && b.0.load(Acquire) == i {
                        let c = (sp.gen)(i);
                        crate::report_hang(&sp.name, &c, hang);
                    }
                }
            }
        });
        let ex = explored.load(Relaxed);
        rep.cases += ex;
        rep.calls += calls.load(Relaxed);
        rep.states += distinct.load(Relaxed);
        rep.digest = rep.digest.wrapping_add(h64(&[sp.name.as_bytes(), &digest.load(Relaxed).to_le_bytes()]));
        let complete = ex == sp.n && !capped.load(Relaxed);
        rep.complete &= complete;
        if sp.n > 0 && ex > 0 {
            for i in [0, sp.n / 2] {
                let c = (sp.gen)(i);
                let o = match run_guarded(&c) {
                    Ok(h) => format!("held, outcome {:016x}", h),
                    Err(f) => format!("{:?}", f),
                };
                rep.samples.push((sp.name.clone(), c.json(), o));
                if sp.n == 1 {
                    break;
                }
            }
        }
        let wall = t0.elapsed().as_secs_f64();
        eprintln!(
            "  {:<34} {:>10}/{:<10} cases {:>10} outcomes {:>7.1}s",
            sp.name, ex, sp.n, distinct.load(Relaxed), wall
        );
        rep.spaces.push(SpaceReport {
            name: sp.name.clone(),
            bound: sp.bound.clone(),
            size: sp.n,
            explored: ex,
            distinct: distinct.load(Relaxed),
            wall,
            complete,
        });
        let found = best.into_inner().unwrap();
        if let Some((_, c, f)) = found {
            match f {
                Fail::Engine(m) => rep.engine_error = Some(format!("{}: {} [{}]", sp.name, m, c.json())),
                Fail::Violation(m) => {
                    if let Some(rest) = m.strip_prefix("DUP ") {
                        let v: Vec<u64> = rest.split(' ').map(|x| x.parse().unwrap()).collect();
                        let c0 = (spaces[v[0] as usize].gen)(v[1]);
                        let pair = Case::Distinct(Box::new(c0), Box::new(c));
                        match run_guarded(&pair) {
                            Ok(_) => continue, // fingerprint collision, not an outcome collision
                            Err(Fail::Violation(m)) => {
                                rep.violation = Some((sp.name.clone(), pair.json(), m))
                            }
                            Err(Fail::Engine(m)) => rep.engine_error = Some(m),
                        }
                    } else {
                        // a violation must replay: same case, same verdict
                        match run_guarded(&c) {
                            Err(Fail::Violation(_)) => {
                                rep.violation = Some((sp.name.clone(), c.json(), m))
                            }
                            _ => {
                                rep.violation = Some((
                                    sp.name.clone(),
                                    c.json(),
                                    format!("{} (outcome differs when the same call is repeated)", m),
                                ))
                            }
                        }
                    }
                }
            }
            break;
        }
    }
    rep
}
