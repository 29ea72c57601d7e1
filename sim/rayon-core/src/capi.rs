//! C entry points for driving simulated runs from Python (the binding under test and this
//! runtime are one shared object).
use simrt::*;
use std::sync::atomic::Ordering;

#[repr(C)]
pub struct CDec {
    k: u32,
    t: u32,
    ix: u64,
    v: u32,
}
#[repr(C)]
pub struct CCfg {
    seed: u64,
    entropy: u64,
    tag: u64,
    pct: u32,
    gap: u32,
    wa: u32,
    ws: u32,
    maxf: u32,
    pool: u32,
    stall_ppm: u32,
    spurious_ppm: u32,
    explicit: u32,
    ndec: u32,
    dec: *const CDec,
}
#[repr(C)]
pub struct COut {
    hash: u64,
    steps: u64,
    switches: u64,
    preempts: u64,
    blocks: u64,
    tasks: u64,
    steals: u64,
    faults: [u64; 10],
    ndec: u64,
    dec: *mut CDec,
}

struct Src;
impl ahash::random_state::RandomSource for Src {
    fn gen_hasher_seed(&self) -> usize {
        entropy_u64() as usize
    }
}
extern "C" fn on_signal(n: i32) {
    match n {
        libc::SIGPROF => fatal("no-progress", "150 s of processor time passed in one simulated run: the operation does not terminate"),
        libc::SIGABRT => fatal("crash", "the process aborted (SIGABRT)"),
        _ => fatal("crash", "invalid memory access (SIGSEGV/SIGBUS/SIGILL/SIGFPE)"),
    }
}

#[no_mangle]
pub extern "C" fn gsim_init() {
    std::panic::set_hook(Box::new(|_| {}));
    unsafe {
        for s in [libc::SIGSEGV, libc::SIGBUS, libc::SIGABRT, libc::SIGILL, libc::SIGFPE, libc::SIGPROF] {
            let mut a: libc::sigaction = std::mem::zeroed();
            a.sa_sigaction = on_signal as *const () as usize;
            a.sa_flags = libc::SA_NODEFER;
            libc::sigaction(s, &a, std::ptr::null_mut());
        }
    }
    let _ = ahash::random_state::set_random_source(Src);
    let _ = ahash::RandomState::new();
}

/// Runs `cb` as the root task of a simulated run.
#[no_mangle]
pub unsafe extern "C" fn gsim_run(c: *const CCfg, cb: extern "C" fn(), out: *mut COut) {
    let c = &*c;
    RUN_TAG.store(c.tag, Ordering::SeqCst);
    let mut t: libc::itimerval = std::mem::zeroed();
    t.it_value.tv_sec = 150;
    libc::setitimer(libc::ITIMER_PROF, &t, std::ptr::null_mut());
    let mut cfg = Cfg {
        seed: c.seed,
        entropy: c.entropy,
        strategy: if c.pct != 0 { Strategy::Pct } else { Strategy::Random },
        mean_gap: c.gap,
        w_atomic: c.wa,
        w_seam: c.ws,
        max_faults: c.maxf,
        ..Default::default()
    };
    cfg.fault_ppm[fault::STALL] = c.stall_ppm;
    cfg.fault_ppm[fault::SPURIOUS_WAKE] = c.spurious_ppm;
    if c.explicit != 0 {
        let d = (0..c.ndec as usize)
            .map(|i| {
                let x = &*c.dec.add(i);
                Decision { k: x.k as u8, t: x.t, ix: x.ix, v: x.v }
            })
            .collect();
        cfg.mode = Mode::Explicit(d);
    }
    super::STEALS = 0;
    super::sim::set_threads(c.pool as usize);
    let o = run(cfg, move || {
        cut(|| cb());
        super::sim::stop();
    });
    let s = &o.stats;
    let mut d: Vec<CDec> = o.decisions.iter().map(|x| CDec { k: x.k as u32, t: x.t, ix: x.ix, v: x.v }).collect();
    d.shrink_to_fit();
    *out = COut {
        hash: s.hash,
        steps: s.steps,
        switches: s.switches,
        preempts: s.preempts,
        blocks: s.blocks,
        tasks: s.tasks,
        steals: super::STEALS,
        faults: s.faults,
        ndec: d.len() as u64,
        dec: d.as_mut_ptr(),
    };
    std::mem::forget(d);
}
