//! Bulk signature creation (C09): the bulk result is the per-document result, in order, whatever
//! the schedule, the pool, the process's hash entropy and interruptions by failing tokens.
use crate::common::*;
use gaoya::minhash::{MinHasher, MinHasher16, MinHasher32, MinHasher64V1, MinHasher8, Sha1Hasher, SipHasher24BuildHasher};
use gaoya::simhash::{SimHash, SimSipHasher128, SimSipHasher64};
use serde::{Deserialize, Serialize};
use simrt::Rng;
use std::hash::{BuildHasher, Hash, Hasher};
use std::sync::Arc;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Scenario {
    pub prop: String,
    pub sim: SimCfg,
    pub hasher: u8,
    pub hashes: usize,
    pub batches: Vec<Vec<Vec<u32>>>,
    pub replicas: Vec<SimCfg>,
    #[serde(default)]
    pub callers: usize,
}

#[derive(PartialEq, Eq, Debug, Clone)]
struct Token(u32);
impl Hash for Token {
    fn hash<H: Hasher>(&self, h: &mut H) {
        user_seam();
        h.write(format!("tok{}", self.0).as_bytes());
        h.write_u8(0xff);
    }
}

/// The published definition of the signature: a permutation-style family (a*x+b) mod p drawn
/// from the fixed seed is what the hasher itself uses; here only its results for one document
/// at a time, from a hasher object of its own, are the reference.
fn check<M: MinHasher + Sync + Send + 'static>(sc: &Scenario, h: M, reference: M)
where
    M::V: std::fmt::Debug,
{
    let h = Arc::new(h);
    let reference = Arc::new(reference);
    for (bi, batch) in sc.batches.iter().enumerate() {
        let docs: Vec<Vec<Token>> = batch.iter().map(|d| d.iter().map(|t| Token(*t)).collect()).collect();
        let exp: Vec<Vec<M::V>> = docs.iter().map(|d| reference.create_signature(d.iter())).collect();
        let one = |what: &str, r: Result<Vec<Vec<M::V>>, Fail>| match r {
            Err(Fail::Injected) => {}
            Err(Fail::Panic(p)) => violate("panic", format!("{} panicked: {}", what, p)),
            Ok(r) => {
                checked(r.len() as u64);
                if r.len() != exp.len() {
                    violate("bulk", format!("{}: {} signatures for {} documents", what, r.len(), exp.len()));
                } else if let Some(i) = (0..r.len()).find(|&i| r[i] != exp[i]) {
                    violate("bulk", format!("{}: signature {} of {} differs from the document's own: {} / {}", what, i, r.len(), show(&r[i]), show(&exp[i])));
                }
            }
        };
        one("bulk_create_signature", guarded(|| h.bulk_create_signature(&docs)));
        if violated() {
            return;
        }
        let refs: Vec<&Vec<Token>> = docs.iter().collect();
        one("bulk_create_signature_refs", guarded(|| h.bulk_create_signature_refs(&refs)));
        if violated() {
            return;
        }
        // the tokens of a document may come from any iterator, in any order (a hash set's, say),
        // and a token more than once
        let longest = (0..docs.len()).max_by_key(|&i| docs[i].len()).unwrap_or(0);
        for (i, d) in docs.iter().enumerate().filter(|x| x.0 < 3 || x.0 == longest) {
            let mut v: Vec<&Token> = d.iter().collect();
            let k = mix(i as u64, sc.hashes as u64) as usize % v.len().max(1);
            v.rotate_left(k);
            v.reverse();
            let extra: Vec<&Token> = v.iter().take(3).copied().collect();
            let forms = [
                ("a filtering iterator", guarded(|| h.create_signature(d.iter().filter(|t| t.0 != u32::MAX)))),
                ("tokens in another order", guarded(|| h.create_signature(v.iter()))),
                ("repeated tokens", guarded(|| h.create_signature(v.iter().chain(extra.iter())))),
                ("a non-fused iterator", guarded(|| {
                    let mut k = 0;
                    h.create_signature(std::iter::from_fn(|| {
                        k += 1;
                        d.get(k - 1)
                    }))
                })),
            ];
            for (what, r) in forms {
                match r {
                    Ok(r) => {
                        checked(1);
                        if r != exp[i] {
                            violate("bulk", format!("document {} through {} has another signature: {} / {}", i, what, show(&r), show(&exp[i])));
                        }
                    }
                    Err(Fail::Injected) => {}
                    Err(Fail::Panic(p)) => violate("panic", format!("create_signature panicked: {}", p)),
                }
            }
        }
        // several callers share the hasher
        if bi == 0 {
            let docs = Arc::new(docs.clone());
            let exp2: Arc<Vec<String>> = Arc::new(exp.iter().map(|s| format!("{:?}", s)).collect());
            let hs: Vec<_> = (0..sc.callers.max(1))
                .map(|k| {
                    let (h, docs, exp2, h2) = (h.clone(), docs.clone(), exp2.clone(), reference.clone());
                    std::thread::spawn(move || {
                        let step = if docs.len() > 12 { docs.len() / 12 } else { 1 };
                        for j in 0..docs.len().min(12) {
                            let i = (j * step + k * 5) % docs.len();
                            // (a second hasher object with the same parameters, too)
                            let h = if j % 4 == 3 { &h2 } else { &h };
                            let to = docs.len().min(i + 1 + (j + k) % 7);
                            let r = match (j + k) % 3 {
                                0 => guarded(|| vec![h.create_signature(docs[i].iter())]),
                                1 => guarded(|| h.bulk_create_signature(&docs[i..to].to_vec())),
                                _ => guarded(|| h.bulk_create_signature_refs(&docs[i..to].iter().collect())),
                            };
                            match r {
                                Ok(s) => {
                                    checked(1);
                                    if s.iter().enumerate().any(|(x, s)| format!("{:?}", s) != exp2[i + x]) {
                                        violate("bulk", format!("signature of document {} or following computed by a concurrent caller differs", i));
                                    }
                                }
                                Err(Fail::Injected) => {}
                                Err(Fail::Panic(p)) => violate("panic", format!("create_signature panicked: {}", p)),
                            }
                        }
                    })
                })
                .collect();
            for x in hs {
                let _ = x.join();
            }
        }
        for e in &exp {
            digest(format!("{:?}", e));
        }
    }
}

pub fn execute(sc: Arc<Scenario>) {
    rayon_core::sim::set_threads(sc.sim.pool);
    let n = sc.hashes;
    arm_user_panics(true);
    macro_rules! both {
        ($e:expr) => {
            check(&sc, $e, $e)
        };
    }
    match sc.hasher {
        0 => both!(MinHasher8::new(n)),
        1 => both!(MinHasher16::new(n)),
        2 => both!(MinHasher32::new(n)),
        3 => both!(MinHasher64V1::new(n)),
        4 => both!(MinHasher32::new_with_hasher(n, SipHasher24BuildHasher::default())),
        5 => both!(MinHasher64V1::new_with_hasher_and_seed(n, fnv::FnvBuildHasher::default(), 77)),
        7 => both!(MinHasher16::new_with_hasher(n, std::hash::BuildHasherDefault::<Sha1Hasher>::default())),
        8 => both!(MinHasher8::new_with_hasher_and_seed(n, SipHasher24BuildHasher::default(), 4)),
        9 => both!(MinHasher64V1::new_with_hasher(n, SipHasher24BuildHasher::default())),
        _ => sim_sigs(&sc),
    }
    arm_user_panics(false);
    rayon_core::sim::stop();
    let _ = fnv::FnvBuildHasher::default().build_hasher();
}

/// SimHash signatures: several threads share one hasher object.
fn sim_sigs(sc: &Arc<Scenario>) {
    let h64 = Arc::new(SimHash::<SimSipHasher64, u64, 64>::new(SimSipHasher64::new(5, 6)));
    let h128 = Arc::new(SimHash::<SimSipHasher128, u128, 128>::new(SimSipHasher128::new(5, 6)));
    let mut exp = vec![];
    for d in sc.batches.iter().flatten() {
        let a = SimHash::<SimSipHasher64, u64, 64>::new(SimSipHasher64::new(5, 6)).create_signature(d.iter().map(|t| Token(*t)));
        let b = SimHash::<SimSipHasher128, u128, 128>::new(SimSipHasher128::new(5, 6)).create_signature(d.iter().map(|t| Token(*t)));
        digest(format!("{:x} {:x}", a, b));
        exp.push((a, b));
    }
    let exp = Arc::new(exp);
    let hs: Vec<_> = (0..sc.callers.max(2))
        .map(|k| {
            let (h64, h128, exp, sc) = (h64.clone(), h128.clone(), exp.clone(), sc.clone());
            std::thread::spawn(move || {
                for (i, d) in sc.batches.iter().flatten().enumerate() {
                    let mut d = d.clone();
                    if k % 2 == 1 {
                        d.reverse();
                    }
                    match guarded(|| (h64.create_signature(d.iter().map(|t| Token(*t))), h128.create_signature(d.iter().map(|t| Token(*t))))) {
                        Ok(s) => {
                            checked(1);
                            if s != exp[i] {
                                violate("bulk", format!("SimHash signature of document {} computed by a concurrent caller differs", i));
                            }
                        }
                        Err(Fail::Injected) => {}
                        Err(Fail::Panic(p)) => violate("panic", format!("create_signature panicked: {}", p)),
                    }
                }
            })
        })
        .collect();
    for x in hs {
        let _ = x.join();
    }
}

pub fn generate(prop: &str, r: &mut Rng, tier: u32) -> Scenario {
    let mut sim = SimCfg::gen(r);
    let hasher = r.below(10) as u8;
    let hashes = *r.pick(&[1usize, 2, 3, 8, 20, 33, 42, 100, 126, 128, 200, 300]);
    let nb = r.range(1, 3);
    // tokens times hashes of a batch
    let budget = if r.chance(1, 12) { 300_000u64 } else { 60_000 };
    let mut batches = vec![];
    for _ in 0..nb {
        let k = match r.below(20) {
            0 => 0,
            1 => 1,
            2..=11 => r.range(2, 20),
            12..=18 => r.range(20, 120),
            _ => r.range(120, if tier > 0 { 3000 } else { 1200 }),
        };
        let k = if hasher == 6 { k.min(30) } else { k.min(budget / (hashes as u64 * 12) + 2) };
        let vocab = *r.pick(&[3u64, 20, 1000, 100_000]);
        let long = r.chance(1, 8);
        let k = if long { k.min(3).max(1) } else { k };
        batches.push(
            (0..k)
                .map(|_| {
                    let m = match r.below(10) {
                        _ if long && r.chance(1, 2) => r.range(200, 9000).min(budget / 2 / hashes as u64),
                        0 => 0,
                        1 => 1,
                        9 if r.chance(1, 10) => r.range(60, 3000).min(budget / 2 / hashes as u64),
                        9 => r.range(10, 60).min(budget / (hashes as u64 * k.max(1)).max(1) + 2),
                        _ => r.range(2, 10),
                    };
                    (0..m).map(|_| r.below(vocab) as u32).collect()
                })
                .collect(),
        );
    }
    if r.chance(1, 3) {
        sim.faults.push((simrt::fault::USER_PANIC as u8, *r.pick(&[300u32, 3000, 30000])));
        sim.maxf = r.range(1, 3) as u32;
    }
    let replicas = (0..2)
        .map(|_| {
            let mut s = SimCfg::gen(r);
            s.faults.clear();
            s
        })
        .collect();
    let callers = r.range(2, 4) as usize;
    Scenario { prop: prop.into(), sim, hasher, hashes, batches, replicas, callers }
}
