//! gsim: seeded simulated runs of the code under test.
//!   gsim run --prop P --seed S --start A --count N [--tier T]
//!   gsim gen --prop P --seed S --run I [--tier T]     prints the scenario of a run
//!   gsim replay FILE                                  scenario + explicit decisions
mod cl;
mod common;
mod load;
mod mh;
mod nest;
mod sh;
mod sig;

use common::*;
use serde::{Deserialize, Serialize};
use simrt::{Decision, Rng};
use std::io::Write;
use std::sync::atomic::Ordering;
use std::sync::Arc;

#[derive(Clone, Serialize, Deserialize)]
#[serde(tag = "family")]
enum Any {
    Mh(mh::Scenario),
    Sh(sh::Scenario),
    Sig(sig::Scenario),
    Cl(cl::Scenario),
    Load(load::Scenario),
    Nest(nest::Scenario),
}
impl Any {
    fn sim(&mut self) -> &mut SimCfg {
        match self {
            Any::Mh(s) => &mut s.sim,
            Any::Sh(s) => &mut s.sim,
            Any::Sig(s) => &mut s.sim,
            Any::Cl(s) => &mut s.sim,
            Any::Load(s) => &mut s.sim,
            Any::Nest(s) => &mut s.sim,
        }
    }
    fn prop(&self) -> &str {
        match self {
            Any::Mh(s) => &s.prop,
            Any::Sh(s) => &s.prop,
            Any::Sig(s) => &s.prop,
            Any::Cl(s) => &s.prop,
            Any::Load(s) => &s.prop,
            Any::Nest(s) => &s.prop,
        }
    }
    fn replicas(&self) -> Vec<SimCfg> {
        match self {
            Any::Mh(s) => s.replicas.clone(),
            Any::Sh(s) => s.replicas.clone(),
            Any::Sig(s) => s.replicas.clone(),
            _ => vec![],
        }
    }
    fn clear_replicas(&mut self) {
        match self {
            Any::Mh(s) => s.replicas.clear(),
            Any::Sh(s) => s.replicas.clear(),
            Any::Sig(s) => s.replicas.clear(),
            _ => {}
        }
    }
}

fn generate(prop: &str, seed: u64, run: u64, tier: u32) -> Any {
    let mut r = Rng::new(mix(mix(seed, run), prop.bytes().fold(7, |a, b| a * 31 + b as u64)));
    match prop {
        "C01" | "C02" | "C03" | "C04" | "C05" | "C06" => Any::Mh(mh::generate(prop, &mut r, tier)),
        "C07" | "C08" => Any::Sh(sh::generate(prop, &mut r, tier)),
        "C09" => Any::Sig(sig::generate(prop, &mut r, tier)),
        "C10" | "C11" | "C12" | "C13" | "C14" | "C23" => Any::Cl(cl::generate(prop, &mut r, tier)),
        "C15" | "C16" | "C17" => Any::Load(load::generate(prop, &mut r, tier)),
        "C18" => match r.below(3) {
            0 => Any::Sh(sh::generate(prop, &mut r, tier)),
            _ => Any::Mh(mh::generate(prop, &mut r, tier)),
        },
        "C21" => Any::Nest(nest::generate(prop, &mut r, tier)),
        "C22" => match r.below(8) {
            0 | 1 => Any::Sh(sh::generate(prop, &mut r, tier)),
            2 | 3 => Any::Cl(cl::generate(prop, &mut r, tier)),
            _ => Any::Mh(mh::generate(prop, &mut r, tier)),
        },
        _ => {
            eprintln!("unknown property {}", prop);
            std::process::exit(2)
        }
    }
}

struct One {
    out: simrt::Outcome,
    viol: Vec<Violation>,
    digest: Vec<String>,
    checked: u64,
    steals: u64,
}
fn simulate(mut sc: Any, dec: Option<Vec<Decision>>) -> One {
    let cfg = sc.sim().to_cfg(dec);
    unsafe { rayon_core::STEALS = 0 };
    let ids = sc.prop() == "C22";
    only(if ids { &["leak"] } else { &[] });
    track_ids(ids);
    let out = simrt::run(cfg, move || {
        match sc {
            Any::Mh(s) => mh::execute(Arc::new(s)),
            Any::Sh(s) => sh::execute(Arc::new(s)),
            Any::Sig(s) => sig::execute(Arc::new(s)),
            Any::Cl(s) => cl::execute(Arc::new(s)),
            Any::Load(s) => load::execute(Arc::new(s)),
            Any::Nest(s) => nest::execute(Arc::new(s)),
        };
    });
    track_ids(false);
    One { out, viol: take_violations(), digest: take_digest(), checked: take_checked(), steals: unsafe { rayon_core::STEALS } }
}

#[derive(Serialize, Deserialize)]
struct Replay {
    property: String,
    seed: u64,
    run: u64,
    tier: u32,
    class: String,
    msg: String,
    scenario: Any,
    decisions: Vec<(u8, u32, u64, u32)>,
}
fn pack(d: &[Decision]) -> Vec<(u8, u32, u64, u32)> {
    d.iter().map(|x| (x.k, x.t, x.ix, x.v)).collect()
}
fn unpack(d: &[(u8, u32, u64, u32)]) -> Vec<Decision> {
    d.iter().map(|x| Decision { k: x.0, t: x.1, ix: x.2, v: x.3 }).collect()
}

fn say(s: &str) {
    let mut o = std::io::stdout().lock();
    let _ = o.write_all(s.as_bytes());
    let _ = o.write_all(b"\n");
    let _ = o.flush();
}
fn line(tag: u64, o: &One) -> String {
    let s = &o.out.stats;
    let f: Vec<String> = s.faults.iter().map(|x| x.to_string()).collect();
    format!("R {} {:016x} {} {} {} {} {} {} {} {}", tag, s.hash, s.steps, s.switches, s.preempts, s.blocks, s.tasks, o.checked, o.steals, f.join(","))
}

/// A run that burns 150 s of processor time (normal runs need milliseconds) does not terminate.
fn watchdog() {
    unsafe {
        let mut t: libc::itimerval = std::mem::zeroed();
        t.it_value.tv_sec = 150;
        libc::setitimer(libc::ITIMER_PROF, &t, std::ptr::null_mut());
    }
}

/// Runs a scenario and its replicas. Tag = run * 10 + replica.
fn all(sc: &Any, dec: Option<Vec<Decision>>, run: u64, report: bool) -> Option<(Any, Violation, Vec<Decision>)> {
    simrt::RUN_TAG.store(run * 10, Ordering::SeqCst);
    watchdog();
    let a = simulate(sc.clone(), dec);
    if report {
        say(&line(run * 10, &a));
    }
    if let Some(v) = a.viol.first() {
        let mut s = sc.clone();
        s.clear_replicas();
        return Some((s, v.clone(), a.out.decisions));
    }
    for (k, c) in sc.replicas().iter().enumerate() {
        let mut s = sc.clone();
        s.clear_replicas();
        *s.sim() = c.clone();
        simrt::RUN_TAG.store(run * 10 + 1 + k as u64, Ordering::SeqCst);
        watchdog();
        let b = simulate(s.clone(), None);
        if report {
            say(&line(run * 10 + 1 + k as u64, &b));
        }
        if let Some(v) = b.viol.first() {
            return Some((s, v.clone(), b.out.decisions));
        }
        if a.digest != b.digest {
            let i = (0..a.digest.len().max(b.digest.len())).find(|&i| a.digest.get(i) != b.digest.get(i)).unwrap();
            return Some((
                sc.clone(),
                Violation {
                    class: "replica".into(),
                    msg: format!("the same history under another schedule, pool size and hash entropy (replica {}) answers differently: answer {} is {} / {}", k, i, show(a.digest.get(i)), show(b.digest.get(i))),
                },
                a.out.decisions,
            ));
        }
    }
    None
}

struct Src;
impl ahash::random_state::RandomSource for Src {
    fn gen_hasher_seed(&self) -> usize {
        simrt::entropy_u64() as usize
    }
}

extern "C" fn on_signal(n: i32) {
    match n {
        libc::SIGPROF => simrt::fatal("no-progress", "150 s of processor time passed in one simulated run: the operation does not terminate"),
        libc::SIGABRT => simrt::fatal("crash", "the process aborted (SIGABRT): panic while unwinding, or allocation failure"),
        _ => simrt::fatal("crash", "invalid memory access (SIGSEGV/SIGBUS/SIGILL/SIGFPE)"),
    }
}

fn main() {
    std::panic::set_hook(Box::new(|i| {
        simrt::atomically(|| {
            let loc = i.location().map(|l| format!("{}:{}", l.file().rsplit('/').take(2).collect::<Vec<_>>().into_iter().rev().collect::<Vec<_>>().join("/"), l.line())).unwrap_or_default();
            if std::env::var_os("GSIM_DEBUG").is_some() {
                eprintln!("panic: {}", i);
            }
            note_panic(loc);
        })
    }));
    unsafe {
        for s in [libc::SIGSEGV, libc::SIGBUS, libc::SIGABRT, libc::SIGILL, libc::SIGFPE, libc::SIGPROF] {
            let mut a: libc::sigaction = std::mem::zeroed();
            a.sa_sigaction = on_signal as *const () as usize;
            a.sa_flags = libc::SA_NODEFER;
            libc::sigaction(s, &a, std::ptr::null_mut());
        }
        let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &z);
    }
    let _ = ahash::random_state::set_random_source(Src);
    let _ = ahash::RandomState::new();
    let _ = std::collections::HashMap::<u8, u8>::new();

    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str, d: &str| -> String { args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned().unwrap_or(d.to_string()) };
    let num = |k: &str, d: &str| -> u64 { get(k, d).parse().unwrap_or_else(|_| panic!("{} is not a number", k)) };
    match args.get(1).map(|s| s.as_str()) {
        Some("run") => {
            let (prop, seed, start, count, tier) = (get("--prop", ""), num("--seed", "1"), num("--start", "0"), num("--count", "1"), num("--tier", "0") as u32);
            for i in start..start + count {
                say(&format!("B {}", i));
                let sc = generate(&prop, seed, i, tier);
                if let Some((s, v, d)) = all(&sc, None, i, true) {
                    let rp = Replay { property: prop.clone(), seed, run: i, tier, class: v.class, msg: v.msg, scenario: s, decisions: pack(&d) };
                    say(&format!("V {}", serde_json::to_string(&rp).unwrap()));
                    return;
                }
            }
            say("E");
        }
        Some("gen") => {
            let (run, k) = (num("--run", "0"), num("--replica", "0") as usize);
            let mut s = generate(&get("--prop", ""), num("--seed", "1"), run, num("--tier", "0") as u32);
            if k > 0 {
                let c = s.replicas()[k - 1].clone();
                *s.sim() = c;
            }
            s.clear_replicas();
            say(&serde_json::to_string(&s).unwrap());
        }
        Some("replay") => {
            let t = std::fs::read_to_string(&args[2]).expect("replay file");
            let rp: Replay = serde_json::from_str(&t).expect("replay file");
            match all(&rp.scenario, Some(unpack(&rp.decisions)), rp.run, true) {
                Some((s, v, d)) => {
                    let o = Replay { property: rp.property, seed: rp.seed, run: rp.run, tier: rp.tier, class: v.class, msg: v.msg, scenario: s, decisions: pack(&d) };
                    say(&format!("V {}", serde_json::to_string(&o).unwrap()));
                }
                None => say("E"),
            }
        }
        _ => {
            eprintln!("usage: gsim run|gen|replay");
            std::process::exit(2);
        }
    }
}
