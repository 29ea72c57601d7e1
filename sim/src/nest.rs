//! Nested and simultaneous use (C21): parallel operations called from inside rayon tasks, scopes
//! and pools, and from several threads at once, must end and give what they give alone.
use crate::common::*;
use gaoya::clustering::clusterer_parallel as par;
use gaoya::clustering::QueryIndex;
use gaoya::minhash::{HashSetContainer, MinHashIndex, MinHashStringIndex, MinHasher, MinHasher32, VecContainer};
use gaoya::simhash::{SimHash, SimHashIndex, SimSipHasher64};
use rayon::prelude::*;
use serde::{Deserialize, Serialize};
use simrt::Rng;
use std::collections::{BTreeSet, HashMap, HashSet};
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Job {
    /// 0 bulk signatures, 1 bulk query of the shared index, 2 own MinHash index, 3 own SimHash index,
    /// 4 cluster_par, 5 cluster with an index that is itself parallel, 6 parallel file load,
    /// 7 single queries of the shared index
    pub kind: u8,
    pub n: usize,
    pub seed: u64,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Scenario {
    pub prop: String,
    pub sim: SimCfg,
    /// 0 scope, 1 par_iter, 2 join, 3 threads, 4 threads with scopes, 5 a pool of its own,
    /// 6 threads with pools of their own, 7 spawn and wait outside
    pub shape: u8,
    /// threads of pools of their own
    pub inner: usize,
    /// documents of the shared index
    pub docs: usize,
    pub jobs: Vec<Job>,
}

const B: usize = 6;
const W: usize = 2;
type P = par::ClusterPoint<u64>;
struct Shared {
    idx: MinHashIndex<u32, u64>,
    hasher: MinHasher32<fnv::FnvBuildHasher>,
    clusterer: par::Clusterer<u32, u64>,
}
fn sig(seed: u64, fam: u64) -> Vec<u32> {
    let f = mix(seed, 1) % fam;
    (0..B * W).map(|k| if mix(seed, 100 + k as u64) % 6 == 0 { mix(seed, 7) as u32 % 5 } else { mix(f, k as u64) as u32 % 1000 }).collect()
}
fn set(s: impl IntoIterator<Item = u64>) -> String {
    format!("{:?}", s.into_iter().collect::<BTreeSet<u64>>())
}
fn scored(v: Vec<(u64, f64)>) -> String {
    let mut v: Vec<(u64, String)> = v.into_iter().map(|x| (x.0, format!("{:.6}", x.1))).collect();
    v.sort();
    format!("{:?}", v)
}
/// A neighbour index that uses the pool to answer.
struct ParIndex {
    points: Vec<P>,
    group: HashMap<u64, u64>,
    /// asks the pool only every so often
    every: usize,
    asked: std::sync::atomic::AtomicUsize,
}
impl QueryIndex for ParIndex {
    type Id = P;
    fn query(&self, id: &P) -> HashSet<&P> {
        let g = self.group[&id.id];
        if self.asked.fetch_add(1, std::sync::atomic::Ordering::Relaxed) % self.every != self.every - 1 {
            return self.points.iter().filter(|p| self.group[&p.id] == g).collect();
        }
        let v: Vec<&P> = self.points.par_iter().with_max_len(1).filter(|p| self.group[&p.id] == g).collect();
        v.into_iter().collect()
    }
}

fn work(j: &Job, sh: &Shared, file: &str) -> String {
    match j.kind {
        0 => {
            let docs: Vec<Vec<String>> = (0..j.n).map(|i| (0..mix(j.seed, i as u64) % 9).map(|k| format!("t{}", mix(j.seed ^ k, i as u64) % 50)).collect()).collect();
            format!("{:?}", sh.hasher.bulk_create_signature(&docs))
        }
        1 => {
            let q: Vec<Vec<u32>> = (0..j.n).map(|i| sig(mix(j.seed, i as u64), 4)).collect();
            let a: Vec<String> = sh.idx.par_bulk_query(&q).into_iter().map(set).collect();
            let b: Vec<String> = sh.idx.par_bulk_query_return_similarity(&q).into_iter().map(scored).collect();
            format!("{:?}{:?}", a, b)
        }
        2 => {
            let mut x: MinHashIndex<u32, u64, VecContainer<u64>> = MinHashIndex::new_index(B, W, 0.5);
            let s: Vec<Vec<u32>> = (0..j.n).map(|i| sig(mix(j.seed, i as u64), 3)).collect();
            if j.seed % 2 == 0 {
                x.par_bulk_insert((0..j.n as u64).collect(), s.clone());
            } else {
                x.par_bulk_insert_pairs((0..j.n as u64).zip(s.iter().cloned()).collect());
            }
            x.shrink_to_fit();
            let gone: Vec<u64> = (0..j.n as u64).filter(|i| i % 3 == 0).collect();
            let r = x.bulk_remove(&gone);
            let a: Vec<String> = x.par_bulk_query(&s).into_iter().map(set).collect();
            x.shrink_to(j.n / 2);
            format!("{} {:?} {:?} {:?}", x.size(), r, a, x.band_sizes())
        }
        3 => {
            let h = SimHash::<SimSipHasher64, u64, 64>::new(SimSipHasher64::new(5, 6));
            let mut x: SimHashIndex<u64, u64> = SimHashIndex::new(6, 3);
            let s: Vec<u64> = (0..j.n as u64).map(|i| h.create_signature((0..12u64).map(|k| if mix(j.seed, i * 12 + k) % 40 == 0 { i } else { k }))).collect();
            if j.seed % 2 == 0 {
                x.par_bulk_insert((0..j.n as u64).collect(), s.clone());
            } else {
                x.par_bulk_insert_pairs((0..j.n as u64).zip(s.iter().cloned()).collect());
            }
            let a: Vec<String> = x.par_bulk_query(&s).into_iter().map(set).collect();
            let mut b = x.par_bulk_query_return_distance(&s);
            b.iter_mut().for_each(|v| v.sort_by_key(|y| (y.1, y.0)));
            format!("{} {:?} {:?}", x.size(), a, b)
        }
        4 | 5 => {
            let groups = 1 + mix(j.seed, 3) % (j.n as u64 / 2 + 1);
            let of: Vec<u64> = (0..j.n as u64).map(|i| mix(j.seed, 50 + i) % groups).collect();
            let points: Vec<P> = (0..j.n as u64).map(|i| triomphe::Arc::new(par::ClusterPointInner::new(i))).collect();
            let mut v = points.clone();
            let own = par::Clusterer::<u32, u64>::new(2, 3);
            let c = if j.seed % 3 == 0 { &own } else { &sh.clusterer };
            let r = if j.kind == 4 {
                let mut x: MinHashIndex<u32, P, HashSetContainer<P>> = MinHashIndex::new_index(B, W, 0.9);
                for (p, g) in points.iter().zip(&of) {
                    x.insert(p.clone(), (0..B * W).map(|k| mix(*g, k as u64) as u32).collect());
                }
                c.cluster_par(&mut v, &x)
            } else {
                let x = ParIndex { points: points.clone(), group: (0..j.n as u64).zip(of).collect(), every: [1, 2, 5, j.n + 1][mix(j.seed, 9) as usize % 4], asked: Default::default() };
                c.cluster(&mut v, &x)
            };
            let got: BTreeSet<BTreeSet<u64>> = r.iter().map(|c| c.points.iter().map(|p| p.id).collect()).collect();
            let ok = r.iter().all(|c| c.points.iter().all(|p| p.get_cluster() as *const par::Cluster<u64> == &**c as *const _));
            format!("{:?} {}", got, ok)
        }
        6 => {
            let mut x = MinHashStringIndex::new(4, 2, 0.5);
            let n = x.load_from_file_parallel(file);
            let mut a: Vec<Vec<String>> = vec![];
            for i in 0..j.n.min(5) {
                let mut r: Vec<String> = x.query(&text(j, i)).into_iter().cloned().collect();
                r.sort();
                a.push(r);
            }
            format!("{:?} {} {:?}", n.ok(), x.size(), a)
        }
        _ => {
            let a: Vec<String> = (0..j.n.min(20)).map(|i| scored(sh.idx.query_owned_return_similarity(&sig(mix(j.seed, i as u64), 4)))).collect();
            format!("{:?}", a)
        }
    }
}
fn text(j: &Job, i: usize) -> String {
    (0..6).map(|k| format!("w{}", if mix(j.seed, i as u64 * 6 + k) % 5 == 0 { i as u64 } else { k })).collect::<Vec<_>>().join(" ")
}

fn split(v: &[usize], f: &(dyn Fn(usize) + Sync)) {
    match v.len() {
        0 => {}
        1 => f(v[0]),
        n => {
            let (a, b) = v.split_at(n / 2);
            rayon::join(|| split(a, f), || split(b, f));
        }
    }
}

pub fn execute(sc: Arc<Scenario>) {
    rayon_core::sim::set_threads(sc.sim.pool);
    arm_user_panics(false);
    let mut idx = MinHashIndex::new(B, W, 0.5);
    for i in 0..sc.docs as u64 {
        idx.insert(i, sig(mix(77, i), 4));
    }
    let sh = Arc::new(Shared { idx, hasher: MinHasher32::new(20), clusterer: par::Clusterer::new(2, 3) });
    let files: Arc<Vec<String>> = Arc::new(
        sc.jobs
            .iter()
            .enumerate()
            .map(|(i, j)| {
                let path = format!("{}n{}", simrt::interpose::prefix(), i);
                if j.kind == 6 {
                    let data: Vec<u8> = (0..j.n).flat_map(|i| (text(j, i) + "\n").into_bytes()).collect();
                    let n = data.len();
                    simrt::interpose::put_file(&path, data, n);
                }
                path
            })
            .collect(),
    );
    // each alone
    let want: Vec<Option<String>> = sc
        .jobs
        .iter()
        .zip(files.iter())
        .map(|(j, f)| match guarded(|| work(j, &sh, f)) {
            Ok(s) => Some(s),
            Err(Fail::Panic(p)) => {
                violate("panic", format!("job of kind {} panicked when called alone: {}", j.kind, p));
                None
            }
            Err(_) => None,
        })
        .collect();
    let got: Arc<Mutex<Vec<(usize, String)>>> = Arc::new(Mutex::new(vec![]));
    let all: Vec<usize> = (0..sc.jobs.len()).collect();
    let one: Arc<dyn Fn(usize) + Send + Sync> = {
        let (sc, sh, files, got) = (sc.clone(), sh.clone(), files.clone(), got.clone());
        Arc::new(move |i| {
            let s = work(&sc.jobs[i], &sh, &files[i]);
            simrt::atomically(|| got.lock().unwrap_or_else(|e| e.into_inner()).push((i, s)));
        })
    };
    if !violated() {
        let pool = |n: usize| rayon::ThreadPoolBuilder::new().num_threads(n).build().expect("pool");
        let threads = |f: Arc<dyn Fn(usize) + Send + Sync>| {
            let hs: Vec<_> = all
                .iter()
                .map(|&i| {
                    let f = f.clone();
                    std::thread::spawn(move || simrt::cut(|| f(i)))
                })
                .collect();
            let bad = hs.into_iter().map(|h| h.join()).filter(|r| r.is_err()).count();
            if bad > 0 {
                panic!("{} of the calling threads panicked", bad);
            }
        };
        let inner = sc.inner;
        let r = guarded(|| match sc.shape {
            0 => rayon::scope(|s| {
                for &i in &all {
                    let one = &one;
                    s.spawn(move |_| one(i));
                }
            }),
            1 => all.par_iter().with_max_len(1).for_each(|&i| one(i)),
            2 => split(&all, &*one),
            3 => threads(one.clone()),
            4 => {
                let one = one.clone();
                threads(Arc::new(move |i| {
                    rayon::scope(|s| {
                        s.spawn(|_| one(i));
                    })
                }))
            }
            5 => pool(inner).install(|| all.par_iter().with_max_len(1).for_each(|&i| one(i))),
            6 => {
                let one = one.clone();
                threads(Arc::new(move |i| if i % 2 == 0 { pool(inner).install(|| one(i)) } else { rayon::scope(|_| one(i)) }))
            }
            _ => {
                let (tx, rx) = std::sync::mpsc::channel();
                for &i in &all {
                    let (one, tx) = (one.clone(), tx.clone());
                    rayon::spawn(move || {
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| one(i)));
                        let _ = tx.send(r.is_ok());
                    });
                }
                drop(tx);
                if rx.iter().any(|ok| !ok) {
                    panic!("a spawned call panicked");
                }
            }
        });
        match r {
            Err(Fail::Panic(p)) => violate("panic", format!("calls from shape {} panicked: {}", sc.shape, p)),
            Err(_) => {}
            Ok(()) => {
                let mut g = std::mem::take(&mut *got.lock().unwrap_or_else(|e| e.into_inner()));
                g.sort();
                if g.iter().map(|x| x.0).ne(0..sc.jobs.len()) {
                    violate("jobs", format!("calls that ended: {}", show(g.iter().map(|x| x.0).collect::<Vec<_>>())));
                }
                for (i, s) in g {
                    checked(1);
                    if Some(&s) != want[i].as_ref() {
                        let w = want[i].clone().unwrap_or_default();
                        let k = s.bytes().zip(w.bytes()).take_while(|x| x.0 == x.1).count();
                        let cut = |t: &str| show(t.chars().skip(k.saturating_sub(20)).take(120).collect::<String>());
                        violate("differs", format!("call {} (kind {}) gives another result inside other parallel work (shape {}) than alone: …{} / …{}", i, sc.jobs[i].kind, sc.shape, cut(&s), cut(&w)));
                        break;
                    }
                }
            }
        }
    }
    rayon_core::sim::stop();
}

pub fn generate(prop: &str, r: &mut Rng, tier: u32) -> Scenario {
    let sim = SimCfg::gen(r);
    let shape = pickw(r, &[(0u8, 3), (1, 3), (2, 3), (3, 3), (4, 2), (5, 2), (6, 2), (7, 2)]);
    let many = r.chance(1, 3);
    let k = if many { r.range(8, if tier > 0 { 40 } else { 24 }) } else { r.range(2, if tier > 0 { 9 } else { 6 }) };
    let like = r.chance(1, 3);
    let first = r.below(8) as u8;
    let jobs = (0..k)
        .map(|_| {
            let kind = if like { first } else { r.below(8) as u8 };
            let n = match r.below(20) {
                _ if many => r.range(2, 9),
                0 => 0,
                1 => 1,
                2..=15 => r.range(2, 24),
                16..=18 => r.range(24, 70),
                _ => r.range(70, if tier > 0 { 400 } else { 200 }),
            };
            Job { kind, n: n as usize, seed: r.next() >> 20 }
        })
        .collect();
    Scenario { prop: prop.into(), sim, shape, inner: r.range(1, 4) as usize, docs: r.range(0, 40) as usize, jobs }
}
