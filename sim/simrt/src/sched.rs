use std::cell::Cell;
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering};

pub type Tid = u32;

// ---------------------------------------------------------------- PRNG
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        r.next();
        r
    }
    #[inline]
    pub fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    #[inline]
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            ((self.next() as u128 * n as u128) >> 64) as u64
        }
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
}

// ---------------------------------------------------------------- configuration
/// Fault kinds the simulator can inject; each has a per-run rate and is counted when it fires.
pub mod fault {
    pub const STALL: usize = 0; // a task is not scheduled for a long stretch
    pub const USER_PANIC: usize = 1; // caller-supplied code (id clone, bucket push, token hash) panics
    pub const SPURIOUS_WAKE: usize = 2; // futex wait returns although nobody woke it
    pub const READ_EINTR: usize = 3;
    pub const READ_SHORT: usize = 4;
    pub const READ_EIO_ONCE: usize = 5;
    pub const READ_EIO_STUCK: usize = 6;
    pub const OPEN_FAIL: usize = 7;
    pub const EARLY_EOF: usize = 8;
    pub const SPAWN_FAIL: usize = 9;
    pub const N: usize = 10;
    pub const NAMES: [&str; N] = [
        "worker_stall",
        "caller_code_panic",
        "spurious_wakeup",
        "read_eintr",
        "read_short",
        "read_error_once",
        "read_error_stuck",
        "open_error",
        "early_eof",
        "thread_spawn_failure",
    ];
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Strategy {
    Random,
    Pct,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Decision {
    /// 0 = preempt, 1 = pick (current task cannot go on), 2 = stall, 3 = generic choice, 10+f = fault f
    pub k: u8,
    pub t: u32,
    pub ix: u64,
    pub v: u32,
}

#[derive(Clone, Debug)]
pub enum Mode {
    Random,
    Explicit(Vec<Decision>),
}

#[derive(Clone, Debug)]
pub struct Cfg {
    pub seed: u64,
    pub entropy: u64,
    pub mode: Mode,
    pub strategy: Strategy,
    /// mean accumulated weight between two preemptions; 0 = never preempt
    pub mean_gap: u32,
    pub w_atomic: u32,
    pub w_seam: u32,
    pub fault_ppm: [u32; fault::N],
    pub max_faults: u32,
    pub step_cap: u64,
    pub quarantine: bool,
}
impl Default for Cfg {
    fn default() -> Self {
        Cfg {
            seed: 1,
            entropy: 1,
            mode: Mode::Random,
            strategy: Strategy::Random,
            mean_gap: 300,
            w_atomic: 20,
            w_seam: 20,
            fault_ppm: [0; fault::N],
            max_faults: 0,
            step_cap: 1_500_000_000,
            quarantine: true,
        }
    }
}

#[derive(Clone, Debug, Default)]
pub struct Stats {
    pub steps: u64,
    pub switches: u64,
    pub preempts: u64,
    pub blocks: u64,
    pub forced: u64,
    pub tasks: u64,
    pub faults: [u64; fault::N],
    pub hash: u64,
}

#[derive(Debug)]
pub struct Outcome {
    pub stats: Stats,
    pub decisions: Vec<Decision>,
}

// ---------------------------------------------------------------- tasks
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum St {
    Runnable,
    Futex { addr: usize, timed: bool },
    Latch,
    Join(Tid),
    Done,
}

pub struct Task {
    pub id: Tid,
    go: AtomicU32,
    st: St,
    yields: u64,
    pub preempt: u32,
    prio: u64,
    stalled_until: u64,
    timed_out: bool,
    next_expl: u64,
    expl: Vec<(u64, u32, bool)>, // (yields, value, is_stall), ascending, consumed from the back
    pub pthread: u64,
    raw: bool,
    /// armed for caller-code panics (see `fault_here`)
    pub armed: u32,
}

pub struct Sim {
    cfg: Cfg,
    tasks: Vec<*mut Task>,
    cur: *mut Task,
    rng: Rng,
    ent: Rng,
    countdown: i64,
    since_switch: u64,
    explicit: bool,
    /// explicit decisions for kinds 1 and 3 and faults, sorted
    expl: std::collections::BTreeMap<(u8, u32, u64), u32>,
    rec: Vec<Decision>,
    pick_ix: u64,
    choice_ix: u64,
    fault_ix: [u64; fault::N],
    faults_fired: u32,
    heal: bool,
    stats: Stats,
    done: AtomicU32,
    alive: usize,
}

static mut SIM: *mut Sim = std::ptr::null_mut();
pub static RUN_TAG: AtomicU64 = AtomicU64::new(0);

thread_local! {
    static CUR: Cell<*mut Task> = const { Cell::new(std::ptr::null_mut()) };
}

#[inline(always)]
pub fn cur() -> *mut Task {
    CUR.with(|c| c.get())
}
/// True on a simulated task.
#[inline]
pub fn active() -> bool {
    !cur().is_null()
}
#[inline]
pub fn cur_id() -> Option<Tid> {
    let c = cur();
    if c.is_null() {
        None
    } else {
        Some(unsafe { (*c).id })
    }
}
#[inline]
fn sim() -> &'static mut Sim {
    unsafe { &mut *SIM }
}
#[inline]
pub fn quarantine_on() -> bool {
    // may be called during TLS teardown
    match CUR.try_with(|c| c.get()) {
        Ok(c) => !c.is_null() && sim().cfg.quarantine,
        Err(_) => false,
    }
}

// ---------------------------------------------------------------- raw futex
#[cfg(target_arch = "x86_64")]
pub unsafe fn raw_syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
fn fwait(w: &AtomicU32, v: u32) {
    unsafe {
        raw_syscall(libc::SYS_futex, w as *const _ as i64, (libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG) as i64, v as i64, 0, 0, 0);
    }
}
fn fwake(w: &AtomicU32) {
    unsafe {
        raw_syscall(libc::SYS_futex, w as *const _ as i64, (libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG) as i64, i32::MAX as i64, 0, 0, 0);
    }
}

// ---------------------------------------------------------------- fatal reports
pub static FATAL_FD: AtomicU32 = AtomicU32::new(1);

struct Fd(i32, [u8; 4096], usize);
impl Fd {
    fn flush(&mut self) {
        let mut off = 0;
        while off < self.2 {
            let n = unsafe { raw_syscall(libc::SYS_write, self.0 as i64, self.1.as_ptr() as i64 + off as i64, (self.2 - off) as i64, 0, 0, 0) };
            if n <= 0 {
                break;
            }
            off += n as usize;
        }
        self.2 = 0;
    }
}
impl std::fmt::Write for Fd {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        for &b in s.as_bytes() {
            if self.2 == self.1.len() {
                self.flush();
            }
            self.1[self.2] = b;
            self.2 += 1;
        }
        Ok(())
    }
}

/// Ends the process with a machine-readable report: used where the run cannot be unwound
/// (deadlock, endless loop, access to released memory, signals).
pub fn fatal(class: &str, msg: &str) -> ! {
    use std::fmt::Write;
    let mut f = Fd(FATAL_FD.load(Ordering::SeqCst) as i32, [0; 4096], 0);
    let _ = write!(f, "\nFATAL {{\"run\":{},\"class\":\"{}\",\"msg\":\"{}\",\"decisions\":[", RUN_TAG.load(Ordering::SeqCst), class, msg);
    unsafe {
        if !SIM.is_null() {
            for (i, d) in (*SIM).rec.iter().enumerate() {
                let _ = write!(f, "{}[{},{},{},{}]", if i > 0 { "," } else { "" }, d.k, d.t, d.ix, d.v);
            }
        }
    }
    let _ = write!(f, "]}}\n");
    f.flush();
    unsafe { libc::_exit(70) }
}

// ---------------------------------------------------------------- scheduling
impl Sim {
    fn runnable(&self, incl_stalled: bool) -> Vec<Tid> {
        let now = self.stats.steps;
        self.tasks
            .iter()
            .map(|&t| unsafe { &*t })
            .filter(|t| t.st == St::Runnable && (incl_stalled || t.stalled_until <= now))
            .map(|t| t.id)
            .collect()
    }

    fn gap(&mut self) -> i64 {
        if self.cfg.mean_gap == 0 {
            return i64::MAX;
        }
        // roughly geometric: mixture of short bursts and long gaps
        let m = self.cfg.mean_gap as u64;
        let r = self.rng.below(1 << 20) + 1;
        let x = -((r as f64) / ((1u64 << 20) as f64)).ln();
        ((x * m as f64) as i64).max(1)
    }

    fn by_policy(&mut self, c: &[Tid]) -> Tid {
        match self.cfg.strategy {
            Strategy::Random => c[self.rng.below(c.len() as u64) as usize],
            Strategy::Pct => *c.iter().max_by_key(|&&t| unsafe { (*self.tasks[t as usize]).prio }).unwrap(),
        }
    }

    /// The current task cannot go on: which task does?
    fn pick(&mut self) -> Tid {
        let mut c = self.runnable(false);
        if c.is_empty() {
            c = self.runnable(true);
        }
        if c.is_empty() {
            // nothing can run: time passes until the first timed wait expires
            for &t in &self.tasks {
                let t = unsafe { &mut *t };
                if let St::Futex { timed: true, .. } = t.st {
                    t.st = St::Runnable;
                    t.timed_out = true;
                    c.push(t.id);
                }
            }
        }
        if c.is_empty() {
            fatal("deadlock", "every thread is blocked and nothing can wake one");
        }
        let ix = self.pick_ix;
        self.pick_ix += 1;
        let def = c[0];
        let t = if c.len() == 1 {
            def
        } else if self.explicit {
            match self.expl.get(&(1, 0, ix)) {
                Some(v) if c.contains(v) => *v,
                _ => def,
            }
        } else {
            self.by_policy(&c)
        };
        if t != def {
            self.rec.push(Decision { k: 1, t: 0, ix, v: t });
        }
        t
    }

    fn note_switch(&mut self, to: Tid) {
        let y = unsafe { (*self.cur).yields };
        let from = unsafe { (*self.cur).id };
        let mut h = self.stats.hash;
        for x in [from as u64, y, to as u64] {
            h = (h ^ x).wrapping_mul(0x0000_0100_0000_01B3).rotate_left(17);
        }
        self.stats.hash = h;
        self.stats.switches += 1;
        self.since_switch = 0;
    }

    fn switch(&mut self, to: Tid) {
        let me = self.cur;
        let next = self.tasks[to as usize];
        if me == next {
            return;
        }
        self.note_switch(to);
        self.cur = next;
        let gone = unsafe { (*me).st == St::Done };
        unsafe {
            (*next).go.store(1, Ordering::SeqCst);
            fwake(&(*next).go);
        }
        if gone {
            return;
        }
        unsafe { wait_go(&*me) };
    }
}

fn wait_go(t: &Task) {
    let mut n = 0;
    while t.go.swap(0, Ordering::SeqCst) == 0 {
        n += 1;
        if n < 50 {
            std::hint::spin_loop();
            continue;
        }
        fwait(&t.go, 0);
    }
}

/// Where the current task is preempted if the decision source says so. `w` is the weight.
#[inline(always)]
pub fn point(t: *mut Task, w: u32) {
    let t = unsafe { &mut *t };
    if t.preempt == 0 {
        return;
    }
    let s = sim();
    t.yields += 1;
    s.stats.steps += 1;
    s.since_switch += 1;
    s.countdown -= w as i64;
    if s.countdown <= 0 || t.yields == t.next_expl || s.since_switch >= FAIR {
        slow(t);
    }
}

const FAIR: u64 = 400_000;

#[cold]
#[inline(never)]
fn slow(t: &mut Task) {
    let s = sim();
    if s.stats.steps > s.cfg.step_cap {
        fatal("no-progress", "step budget of the run exhausted: the operation does not terminate");
    }
    if s.explicit {
        s.countdown = i64::MAX;
        while t.yields == t.next_expl {
            let (_, v, stall) = t.expl.pop().unwrap();
            t.next_expl = t.expl.last().map_or(u64::MAX, |x| x.0);
            if stall {
                s.rec.push(Decision { k: 2, t: t.id, ix: t.yields, v });
                t.stalled_until = s.stats.steps + v as u64;
                s.stats.faults[fault::STALL] += 1;
            } else {
                let ok = (v as usize) < s.tasks.len() && v != t.id && unsafe { (*s.tasks[v as usize]).st == St::Runnable };
                if ok {
                    s.rec.push(Decision { k: 0, t: t.id, ix: t.yields, v });
                    s.stats.preempts += 1;
                    s.switch(v);
                    return;
                }
            }
        }
    } else if s.countdown <= 0 {
        s.countdown = s.gap();
        let c: Vec<Tid> = s.runnable(false).into_iter().filter(|&x| x != t.id).collect();
        if !c.is_empty() {
            if s.faults_fired < s.cfg.max_faults && s.rng.below(1_000_000) < s.cfg.fault_ppm[fault::STALL] as u64 {
                let v = s.rng.range(200, 200_000) as u32;
                t.stalled_until = s.stats.steps + v as u64;
                s.rec.push(Decision { k: 2, t: t.id, ix: t.yields, v });
                s.stats.faults[fault::STALL] += 1;
                s.faults_fired += 1;
            }
            if s.cfg.strategy == Strategy::Pct {
                t.prio = s.rng.below(1 << 20); // demote below the initial priorities
            }
            let v = match s.cfg.strategy {
                Strategy::Pct => s.by_policy(&c),
                Strategy::Random => s.by_policy(&c),
            };
            s.rec.push(Decision { k: 0, t: t.id, ix: t.yields, v });
            s.stats.preempts += 1;
            s.switch(v);
            return;
        }
    }
    if s.since_switch >= FAIR {
        s.since_switch = 0;
        // fairness, independent of the decision source: no task spins for ever alone
        let c: Vec<Tid> = s.runnable(true).into_iter().filter(|&x| x != t.id).collect();
        if !c.is_empty() {
            let v = *c.iter().find(|&&x| x > t.id).unwrap_or(&c[0]);
            s.stats.forced += 1;
            s.switch(v);
        }
    }
}

/// A seam in caller-supplied code or in the simulated environment.
#[inline]
pub fn seam() {
    let c = cur();
    if !c.is_null() {
        let w = sim().cfg.w_seam;
        point(c, w);
    }
}
/// A point with the weight of an atomic operation.
#[inline]
pub fn sync_point() {
    let c = cur();
    if !c.is_null() {
        let w = sim().cfg.w_atomic;
        point(c, w);
    }
}
/// Gives up the processor (sched_yield): another runnable task goes on.
pub fn yield_now() {
    let c = cur();
    if c.is_null() {
        return;
    }
    let t = unsafe { &mut *c };
    let s = sim();
    t.yields += 1;
    s.stats.steps += 50;
    if s.stats.steps > s.cfg.step_cap {
        fatal("no-progress", "step budget of the run exhausted: the operation does not terminate");
    }
    let old = t.stalled_until;
    t.stalled_until = u64::MAX; // anyone but me, if there is anyone
    let others = s.runnable(true).len() > 1;
    if others {
        let v = s.pick();
        t.stalled_until = old;
        if v != t.id {
            s.switch(v);
        }
    } else {
        t.stalled_until = old;
    }
}

fn block(st: St) {
    let s = sim();
    let t = unsafe { &mut *s.cur };
    debug_assert!(t as *mut Task == cur());
    t.st = st;
    s.stats.blocks += 1;
    let v = s.pick();
    // pick() may have timed out this very task
    if v == t.id {
        return;
    }
    s.switch(v);
}

fn wake(t: Tid) {
    let s = sim();
    let t = unsafe { &mut *s.tasks[t as usize] };
    if t.st != St::Done {
        t.st = St::Runnable;
    }
}

/// Blocks the current task until `unblock(tid)`.
pub fn block_latch() {
    block(St::Latch)
}
pub fn unblock(t: Tid) {
    let s = sim();
    if unsafe { (*s.tasks[t as usize]).st } == St::Latch {
        wake(t)
    }
}

/// One of `n` alternatives; 0 is the default that minimisation prefers.
pub fn choose(n: u32) -> u32 {
    if !active() || n < 2 {
        return 0;
    }
    let s = sim();
    let ix = s.choice_ix;
    s.choice_ix += 1;
    let v = if s.explicit {
        s.expl.get(&(3, 0, ix)).copied().unwrap_or(0) % n
    } else {
        s.rng.below(n as u64) as u32
    };
    if v != 0 {
        s.rec.push(Decision { k: 3, t: 0, ix, v });
    }
    v
}

/// Does fault `f` fire here? 0 = no, otherwise which of its `n` variants.
pub fn fault_here(f: usize, n: u32) -> u32 {
    if !active() {
        return 0;
    }
    let s = sim();
    let ix = s.fault_ix[f];
    s.fault_ix[f] += 1;
    let v = if s.heal {
        0
    } else if s.explicit {
        s.expl.get(&(10 + f as u8, 0, ix)).copied().unwrap_or(0)
    } else if s.cfg.fault_ppm[f] > 0
        && s.faults_fired < s.cfg.max_faults
        && s.rng.below(1_000_000) < s.cfg.fault_ppm[f] as u64
    {
        1 + s.rng.below(n as u64) as u32
    } else {
        0
    };
    if v != 0 {
        s.rec.push(Decision { k: 10 + f as u8, t: 0, ix, v });
        s.stats.faults[f] += 1;
        s.faults_fired += 1;
        s.stats.hash = (s.stats.hash ^ (f as u64 * 977 + v as u64)).wrapping_mul(0x0000_0100_0000_01B3);
    }
    v
}

/// Counts a fault that is part of the scenario itself (a malformed input, say).
pub fn note_fault(f: usize) {
    if active() {
        sim().stats.faults[f] += 1;
    }
}

pub fn entropy_u64() -> u64 {
    static OUT: AtomicU64 = AtomicU64::new(0x5EED);
    if active() {
        sim().ent.next()
    } else {
        Rng::new(OUT.fetch_add(1, Ordering::SeqCst)).next()
    }
}

pub fn steps() -> u64 {
    if active() {
        sim().stats.steps
    } else {
        0
    }
}
/// Global event number: total order of everything observable in a run.
pub fn event_no() -> u64 {
    steps()
}

/// Runs `f` with preemption on: the code under test.
pub fn cut<R>(f: impl FnOnce() -> R) -> R {
    struct G(*mut Task);
    impl Drop for G {
        fn drop(&mut self) {
            if !self.0.is_null() {
                unsafe { (*self.0).preempt -= 1 }
            }
        }
    }
    let t = cur();
    if !t.is_null() {
        unsafe { (*t).preempt += 1 }
    }
    let _g = G(t);
    f()
}
/// True while the current task runs code under test.
#[inline(never)]
pub fn in_cut() -> bool {
    let c = cur();
    !c.is_null() && unsafe { (*c).preempt > 0 }
}
/// From here on no fault is injected (the healing phase of a run).
#[inline(never)]
pub fn faults_off() {
    if active() {
        sim().cfg.max_faults = 0;
        sim().heal = true;
    }
}
/// Runs a scheduler job: preemption is on, however deep in stub code the worker is.
pub fn cut_weak<R>(f: impl FnOnce() -> R) -> R {
    struct G(*mut Task, u32);
    impl Drop for G {
        fn drop(&mut self) {
            if !self.0.is_null() {
                unsafe { (*self.0).preempt = self.1 }
            }
        }
    }
    let t = cur();
    let old = if t.is_null() { 0 } else { unsafe { std::mem::replace(&mut (*t).preempt, 1) } };
    let _g = G(t, old);
    f()
}
/// Runs `f` with preemption off.
pub fn atomically<R>(f: impl FnOnce() -> R) -> R {
    struct G(*mut Task, u32);
    impl Drop for G {
        fn drop(&mut self) {
            if !self.0.is_null() {
                unsafe { (*self.0).preempt = self.1 }
            }
        }
    }
    let t = cur();
    let old = if t.is_null() {
        0
    } else {
        unsafe { std::mem::replace(&mut (*t).preempt, 0) }
    };
    let _g = G(t, old);
    f()
}

// ---------------------------------------------------------------- futex, threads
pub(crate) fn sim_futex_wait(addr: usize, expected: u32, timed: bool) -> i64 {
    let v = unsafe { &*(addr as *const AtomicU32) }.load(Ordering::SeqCst);
    if v != expected {
        return -(libc::EAGAIN as i64);
    }
    if fault_here(fault::SPURIOUS_WAKE, 1) != 0 {
        yield_now();
        return 0;
    }
    block(St::Futex { addr, timed });
    let t = unsafe { &mut *cur() };
    if std::mem::replace(&mut t.timed_out, false) {
        return -(libc::ETIMEDOUT as i64);
    }
    0
}
pub(crate) fn sim_futex_wake(addr: usize, n: i64) -> i64 {
    let s = sim();
    let mut w: Vec<Tid> = s
        .tasks
        .iter()
        .map(|&t| unsafe { &*t })
        .filter(|t| matches!(t.st, St::Futex { addr: a, .. } if a == addr))
        .map(|t| t.id)
        .collect();
    let mut k = 0;
    while k < n && !w.is_empty() {
        let i = choose(w.len() as u32) as usize;
        wake(w.remove(i));
        k += 1;
    }
    k
}

fn new_task() -> *mut Task {
    let s = sim();
    let id = s.tasks.len() as Tid;
    let prio = (1 << 20) + s.rng.below(1 << 20);
    let mut expl = Vec::new();
    if let Mode::Explicit(d) = &s.cfg.mode {
        for x in d {
            if (x.k == 0 || x.k == 2) && x.t == id {
                expl.push((x.ix, x.v, x.k == 2));
            }
        }
        // popped from the back: smallest last, stall before preempt at the same point
        expl.sort_by(|a, b| b.0.cmp(&a.0).then(a.2.cmp(&b.2)));
    }
    let t = Box::new(Task {
        id,
        go: AtomicU32::new(0),
        st: St::Runnable,
        yields: 0,
        preempt: 0,
        prio,
        stalled_until: 0,
        timed_out: false,
        next_expl: expl.last().map_or(u64::MAX, |x| x.0),
        expl,
        pthread: 0,
        raw: false,
        armed: 0,
    });
    let t = Box::into_raw(t);
    s.tasks.push(t);
    s.alive += 1;
    s.stats.tasks += 1;
    t
}

pub(crate) struct Boot {
    pub task: *mut Task,
    pub start: extern "C" fn(*mut libc::c_void) -> *mut libc::c_void,
    pub arg: *mut libc::c_void,
}

pub(crate) extern "C" fn trampoline(p: *mut libc::c_void) -> *mut libc::c_void {
    let b = unsafe { Box::from_raw(p as *mut Boot) };
    let (task, start, arg) = (b.task, b.start, b.arg);
    drop(b);
    wait_go(unsafe { &*task });
    CUR.with(|c| c.set(task));
    let r = start(arg);
    finish();
    r
}

fn finish() {
    let s = sim();
    let t = unsafe { &mut *s.cur };
    CUR.with(|c| c.set(std::ptr::null_mut()));
    t.st = St::Done;
    s.alive -= 1;
    let me = t.id;
    for i in 0..s.tasks.len() {
        let x = unsafe { &mut *s.tasks[i] };
        if x.st == St::Join(me) {
            x.st = St::Runnable;
        }
    }
    if s.alive == 0 {
        s.done.store(1, Ordering::SeqCst);
        fwake(&s.done);
    } else {
        let v = s.pick();
        s.switch(v);
    }
}

pub(crate) fn create_task_for(start: extern "C" fn(*mut libc::c_void) -> *mut libc::c_void, arg: *mut libc::c_void) -> (*mut Task, *mut Boot) {
    let task = new_task();
    (task, Box::into_raw(Box::new(Boot { task, start, arg })))
}
pub(crate) fn drop_failed_task(t: *mut Task) {
    let s = sim();
    unsafe { (*t).st = St::Done };
    s.alive -= 1;
}
pub(crate) fn task_of_pthread(p: u64) -> Option<Tid> {
    let s = sim();
    s.tasks.iter().rev().map(|&t| unsafe { &*t }).find(|t| t.pthread == p).map(|t| t.id)
}
pub(crate) fn join_task(t: Tid) {
    if unsafe { (*sim().tasks[t as usize]).st } != St::Done {
        block(St::Join(t));
    }
}

/// Starts a simulated task without going through `std::thread` (used by the scheduler stub).
#[inline(never)]
pub fn spawn_raw(f: Box<dyn FnOnce() + Send>) -> Tid {
    extern "C" fn start(p: *mut libc::c_void) -> *mut libc::c_void {
        let f = unsafe { Box::from_raw(p as *mut Box<dyn FnOnce() + Send>) };
        f();
        std::ptr::null_mut()
    }
    assert!(active());
    let (task, boot) = create_task_for(start, Box::into_raw(Box::new(f)) as *mut _);
    unsafe {
        let mut pt: libc::pthread_t = 0;
        let r = crate::interpose::real_pthread_create(&mut pt, std::ptr::null(), trampoline, boot as *mut _);
        if r != 0 {
            eprintln!("simrt: cannot create thread");
            libc::_exit(3);
        }
        (*task).pthread = pt as u64;
        (*task).raw = true;
        (*task).id
    }
}
/// Waits until the task has ended.
#[inline(never)]
pub fn join_raw(t: Tid) {
    join_task(t)
}

/// Runs `f` as task 0 of a fresh simulation and returns once every task has ended.
pub fn run<F: FnOnce() + Send + 'static>(cfg: Cfg, f: F) -> Outcome {
    unsafe {
        assert!(SIM.is_null() && cur().is_null());
        let mut expl = std::collections::BTreeMap::new();
        let explicit = if let Mode::Explicit(d) = &cfg.mode {
            for x in d {
                if x.k != 0 && x.k != 2 {
                    expl.insert((x.k, x.t, x.ix), x.v);
                }
            }
            true
        } else {
            false
        };
        let seed = cfg.seed;
        let mut s = Box::new(Sim {
            rng: Rng::new(seed),
            ent: Rng::new(cfg.entropy ^ 0xE17A),
            tasks: Vec::new(),
            cur: std::ptr::null_mut(),
            countdown: 0,
            since_switch: 0,
            explicit,
            expl,
            rec: Vec::new(),
            pick_ix: 0,
            choice_ix: 0,
            fault_ix: [0; fault::N],
            faults_fired: 0,
            heal: false,
            stats: Stats { hash: 0xcbf2_9ce4_8422_2325, ..Default::default() },
            done: AtomicU32::new(0),
            alive: 0,
            cfg,
        });
        s.countdown = if explicit { i64::MAX } else { s.gap() };
        SIM = Box::into_raw(s);
        let task = new_task();
        let f: Box<Box<dyn FnOnce() + Send>> = Box::new(Box::new(f));
        extern "C" fn start(p: *mut libc::c_void) -> *mut libc::c_void {
            let f = unsafe { Box::from_raw(p as *mut Box<dyn FnOnce() + Send>) };
            f();
            std::ptr::null_mut()
        }
        let boot = Box::into_raw(Box::new(Boot { task, start, arg: Box::into_raw(f) as *mut _ }));
        let mut pt: libc::pthread_t = 0;
        let mut at: libc::pthread_attr_t = std::mem::zeroed();
        libc::pthread_attr_init(&mut at);
        libc::pthread_attr_setstacksize(&mut at, 8 << 20);
        let r = crate::interpose::real_pthread_create(&mut pt, &at, trampoline, boot as *mut _);
        libc::pthread_attr_destroy(&mut at);
        if r != 0 {
            eprintln!("simrt: cannot create root thread");
            libc::_exit(3);
        }
        (*task).pthread = pt as u64;
        (*SIM).cur = task;
        (*task).go.store(1, Ordering::SeqCst);
        fwake(&(*task).go);
        while (*SIM).done.load(Ordering::SeqCst) == 0 {
            fwait(&(*SIM).done, 0);
        }
        crate::interpose::real_pthread_join(pt, std::ptr::null_mut());
        let s = Box::from_raw(SIM);
        for &t in &s.tasks {
            if (*t).raw {
                crate::interpose::real_pthread_join((*t).pthread as libc::pthread_t, std::ptr::null_mut());
            }
        }
        SIM = std::ptr::null_mut();
        for &t in &s.tasks {
            drop(Box::from_raw(t));
        }
        crate::interpose::reset_fs();
        crate::heap::release_quarantine();
        Outcome { stats: s.stats.clone(), decisions: s.rec.clone() }
    }
}
