//! Shared parts of the workloads: identifiers with seams, the violation recorder, generators.
use serde::{Deserialize, Serialize};
use simrt::{fault, Rng};
use std::any::Any;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Violation {
    pub class: String,
    pub msg: String,
}
static VIOL: Mutex<Vec<Violation>> = Mutex::new(Vec::new());
static LAST_PANIC: Mutex<String> = Mutex::new(String::new());
/// Observable answers of the run, in order, canonical: compared between replicas.
static DIGEST: Mutex<Vec<String>> = Mutex::new(Vec::new());
/// Operations and answers checked.
static CHECKED: Mutex<u64> = Mutex::new(0);
static ACTIVE: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
/// Panics injected so far.
static INJECTED: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

fn quiet<R>(f: impl FnOnce() -> R) -> R {
    simrt::atomically(f)
}
/// Only violations of these classes count; at any other the run ends without a verdict
/// (it is another property's business).
static ONLY: Mutex<&'static [&'static str]> = Mutex::new(&[]);
static STOP: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
pub fn only(classes: &'static [&'static str]) {
    *ONLY.lock().unwrap_or_else(|e| e.into_inner()) = classes;
    STOP.store(false, std::sync::atomic::Ordering::Relaxed);
}
pub fn violate(class: &str, msg: String) {
    quiet(|| {
        let only = *ONLY.lock().unwrap_or_else(|e| e.into_inner());
        if !only.is_empty() && !only.contains(&class) {
            STOP.store(true, std::sync::atomic::Ordering::Relaxed);
            return;
        }
        let mut v = VIOL.lock().unwrap_or_else(|e| e.into_inner());
        if v.len() < 8 {
            v.push(Violation { class: class.into(), msg });
        }
    })
}
pub fn violated() -> bool {
    quiet(|| STOP.load(std::sync::atomic::Ordering::Relaxed) || !VIOL.lock().unwrap_or_else(|e| e.into_inner()).is_empty())
}
pub fn take_violations() -> Vec<Violation> {
    std::mem::take(&mut *VIOL.lock().unwrap_or_else(|e| e.into_inner()))
}
pub fn note_panic(s: String) {
    quiet(|| *LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()) = s)
}
pub fn last_panic() -> String {
    quiet(|| LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()).clone())
}
pub fn digest(s: String) {
    quiet(|| DIGEST.lock().unwrap_or_else(|e| e.into_inner()).push(s))
}
pub fn take_digest() -> Vec<String> {
    std::mem::take(&mut *DIGEST.lock().unwrap_or_else(|e| e.into_inner()))
}
pub fn checked(n: u64) {
    quiet(|| *CHECKED.lock().unwrap_or_else(|e| e.into_inner()) += n)
}
pub fn take_checked() -> u64 {
    std::mem::take(&mut *CHECKED.lock().unwrap_or_else(|e| e.into_inner()))
}

/// Payload of an injected panic in caller-supplied code.
pub struct Injected;

pub enum Fail {
    Injected,
    Panic(String),
}

/// Runs code under test with preemption on and contains its panics.
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, Fail> {
    let n = INJECTED.load(std::sync::atomic::Ordering::Relaxed);
    let r = simrt::cut(|| catch_unwind(AssertUnwindSafe(f)));
    // a panic that was passed on with another payload is still the injected one
    r.map_err(|e| match classify(e) {
        Fail::Panic(_) if INJECTED.load(std::sync::atomic::Ordering::Relaxed) != n => Fail::Injected,
        f => f,
    })
}
pub fn classify(e: Box<dyn Any + Send>) -> Fail {
    if e.is::<Injected>() {
        return Fail::Injected;
    }
    let m = if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".to_string()
    };
    Fail::Panic(format!("{} [{}]", m, last_panic()))
}

/// A seam in caller-supplied code: may be preempted here, may panic here.
pub fn user_seam() {
    if simrt::in_cut() {
        simrt::seam();
        if ACTIVE.load(std::sync::atomic::Ordering::Relaxed) != 0
            && simrt::atomically(|| simrt::fault_here(fault::USER_PANIC, 1)) != 0
        {
            INJECTED.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
            std::panic::resume_unwind(Box::new(Injected));
        }
    }
}
pub fn arm_user_panics(on: bool) {
    ACTIVE.store(on as u64, std::sync::atomic::Ordering::Relaxed);
}

/// Document id with a seam in `Clone` (the index clones ids into every band).
#[derive(PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct SimId(pub u64, ());
impl SimId {
    pub fn new(id: u64) -> SimId {
        if TRACK.load(std::sync::atomic::Ordering::Relaxed) {
            count(id, 1);
        }
        SimId(id, ())
    }
}
impl Clone for SimId {
    fn clone(&self) -> Self {
        user_seam();
        SimId::new(self.0)
    }
}
impl Drop for SimId {
    fn drop(&mut self) {
        if TRACK.load(std::sync::atomic::Ordering::Relaxed) && count(self.0, -1) < 0 {
            violate("leak", format!("a copy of id {} was released twice", self.0));
        }
    }
}
/// Copies of each id that exist (only counted when tracking is on)
static TRACK: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
const IDS: usize = 1 << 20;
static LIVE: [std::sync::atomic::AtomicI32; IDS] = [const { std::sync::atomic::AtomicI32::new(0) }; IDS];
static TOP: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
fn count(id: u64, d: i32) -> i32 {
    quiet(|| {
        let i = id as usize % IDS;
        TOP.fetch_max(i + 1, std::sync::atomic::Ordering::Relaxed);
        LIVE[i].fetch_add(d, std::sync::atomic::Ordering::Relaxed) + d
    })
}
pub fn track_ids(on: bool) {
    for x in &LIVE[..TOP.swap(0, std::sync::atomic::Ordering::Relaxed)] {
        x.store(0, std::sync::atomic::Ordering::Relaxed);
    }
    TRACK.store(on, std::sync::atomic::Ordering::Relaxed);
}
pub fn tracking() -> bool {
    TRACK.load(std::sync::atomic::Ordering::Relaxed)
}
/// ids of which copies exist, with their number
pub fn live_ids() -> Vec<(u64, i32)> {
    quiet(|| {
        let n = TOP.load(std::sync::atomic::Ordering::Relaxed);
        (0..n).map(|i| (i as u64, LIVE[i].load(std::sync::atomic::Ordering::Relaxed))).filter(|x| x.1 != 0).collect()
    })
}
/// Everything that could hold ids is gone.
pub fn all_released(what: &str) {
    if tracking() && !violated() {
        checked(1);
        let l = live_ids();
        if !l.is_empty() {
            violate("leak", format!("{}: copies of {} ids still exist: (id, copies) {}", what, l.len(), show(l)));
        }
    }
}
impl std::fmt::Display for SimId {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}

pub fn pickw<T: Copy>(r: &mut Rng, v: &[(T, u64)]) -> T {
    let tot: u64 = v.iter().map(|x| x.1).sum();
    let mut k = r.below(tot);
    for &(t, w) in v {
        if k < w {
            return t;
        }
        k -= w;
    }
    v[0].0
}
pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng::new(a.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ b.rotate_left(32));
    r.next()
}
pub fn show<T: std::fmt::Debug>(v: T) -> String {
    let s = format!("{:?}", v);
    if s.len() > 400 {
        let mut k = 400;
        while !s.is_char_boundary(k) {
            k -= 1;
        }
        format!("{}… ({} chars)", &s[..k], s.len())
    } else {
        s
    }
}

/// Scenario parameters that belong to the simulator.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SimCfg {
    pub seed: u64,
    pub entropy: u64,
    pub pct: bool,
    pub gap: u32,
    pub wa: u32,
    pub ws: u32,
    pub faults: Vec<(u8, u32)>,
    pub maxf: u32,
    pub pool: usize,
}
impl SimCfg {
    pub fn gen(r: &mut Rng) -> SimCfg {
        SimCfg {
            seed: r.next(),
            entropy: r.next(),
            pct: r.chance(1, 4),
            gap: pickw(r, &[(20, 2), (80, 3), (300, 4), (1500, 4), (8000, 2), (60000, 1)]),
            wa: *r.pick(&[1, 10, 40, 200]),
            ws: *r.pick(&[1, 10, 40, 200]),
            faults: {
                let mut f = vec![];
                if r.chance(1, 3) {
                    f.push((fault::STALL as u8, *r.pick(&[2000, 20000, 100000])));
                }
                if r.chance(1, 4) {
                    f.push((fault::SPURIOUS_WAKE as u8, *r.pick(&[20_000, 300_000])));
                }
                f
            },
            maxf: 3,
            pool: pickw(r, &[(1, 1), (2, 4), (3, 4), (4, 4), (5, 1), (7, 1), (8, 1)]),
        }
    }
    pub fn to_cfg(&self, decisions: Option<Vec<simrt::Decision>>) -> simrt::Cfg {
        let mut c = simrt::Cfg {
            seed: self.seed,
            entropy: self.entropy,
            strategy: if self.pct { simrt::Strategy::Pct } else { simrt::Strategy::Random },
            mean_gap: self.gap,
            w_atomic: self.wa,
            w_seam: self.ws,
            max_faults: self.maxf,
            ..Default::default()
        };
        for &(f, p) in &self.faults {
            c.fault_ppm[f as usize] = p;
        }
        if let Some(d) = decisions {
            c.mode = simrt::Mode::Explicit(d);
        }
        c
    }
}
