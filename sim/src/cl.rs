//! Clustering workloads (C10-C14): `cluster_par` over a MinHashIndex, and several threads calling
//! `cluster` on one shared clusterer, points and index (an arbitrary similarity graph).
use crate::common::*;
use gaoya::clustering::clusterer_parallel as par;
use gaoya::clustering::clustering_serial as ser;
use gaoya::clustering::QueryIndex;
use gaoya::minhash::{HashSetContainer, IdContainer, MinHashIndex, SmallVecContainer, VecContainer};
use serde::{Deserialize, Serialize};
use simrt::Rng;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Scenario {
    pub prop: String,
    pub sim: SimCfg,
    /// 0: cluster_par over a MinHashIndex; 1: threads calling cluster over a graph index;
    /// 2: threads calling cluster over a MinHashIndex; 3: threads calling cluster_par
    pub mode: u8,
    pub cont: u8,
    pub n_threads: usize,
    pub min_size: usize,
    pub bands: usize,
    pub width: usize,
    pub thr: f64,
    /// MinHash mode: signature of point i
    pub sigs: Vec<Vec<u32>>,
    /// graph mode: neighbours of point i
    pub adj: Vec<Vec<usize>>,
    /// which points each thread (or each successive call of cluster_par) is given
    pub calls: Vec<Vec<usize>>,
    /// calls made when the threads have ended
    #[serde(default)]
    pub later: usize,
    /// MinHash mode: points that are not in the index
    #[serde(default)]
    pub out: Vec<usize>,
}

type P = par::ClusterPoint<SimId>;

struct Graph {
    points: Vec<P>,
    adj: Vec<Vec<usize>>,
    at: HashMap<u64, usize>,
}
impl QueryIndex for Graph {
    type Id = P;
    fn query(&self, id: &P) -> HashSet<&P> {
        user_seam();
        match self.at.get(&id.id.0) {
            Some(&i) => self.adj[i].iter().map(|&j| &self.points[j]).collect(),
            None => HashSet::new(),
        }
    }
}
struct SerGraph {
    points: Vec<ser::ClusterPoint<u64>>,
    nb: BTreeMap<u64, Vec<usize>>,
}
impl QueryIndex for SerGraph {
    type Id = ser::ClusterPoint<u64>;
    fn query(&self, id: &Self::Id) -> HashSet<&Self::Id> {
        self.nb.get(&id.id).map_or(HashSet::new(), |v| v.iter().map(|&j| &self.points[j]).collect())
    }
}

type Boxes = Vec<Box<par::Cluster<SimId>>>;

fn sim_of(a: &[u32], b: &[u32]) -> f64 {
    a.iter().zip(b).filter(|(x, y)| x == y).count() as f64 / a.len() as f64
}

/// Who is similar to whom: what the index answers, computed independently.
fn neighbours(sc: &Scenario) -> Vec<BTreeSet<usize>> {
    if sc.mode == 1 {
        return sc.adj.iter().map(|v| v.iter().copied().collect()).collect();
    }
    let n = sc.sigs.len();
    (0..n)
        .map(|i| {
            (0..n)
                .filter(|&j| {
                    if sc.out.contains(&i) || sc.out.contains(&j) {
                        return false;
                    }
                    let (a, b) = (&sc.sigs[i], &sc.sigs[j]);
                    (0..sc.bands).any(|k| a[k * sc.width..(k + 1) * sc.width] == b[k * sc.width..(k + 1) * sc.width]) && sim_of(a, b) >= sc.thr
                })
                .collect()
        })
        .collect()
}

fn go<C: IdContainer<P> + 'static>(sc: Arc<Scenario>) {
    rayon_core::sim::set_threads(sc.sim.pool);
    arm_user_panics(false);
    let n = if sc.mode == 1 { sc.adj.len() } else { sc.sigs.len() };
    let points: Vec<P> = (0..n).map(|i| triomphe::Arc::new(par::ClusterPointInner::new(SimId::new(i as u64)))).collect();
    let clusterer = Arc::new(par::Clusterer::<u32, SimId>::new(sc.min_size, sc.n_threads));
    let results: Arc<Mutex<Vec<(usize, Boxes)>>> = Arc::new(Mutex::new(vec![]));
    let cut_off: Arc<Mutex<Vec<usize>>> = Arc::new(Mutex::new(vec![]));
    let faulty = sc.sim.faults.iter().any(|f| f.0 as usize == simrt::fault::USER_PANIC);
    let mut idx: MinHashIndex<u32, P, C> = MinHashIndex::new_index(sc.bands.max(1), sc.width.max(1), sc.thr);
    if sc.mode != 1 {
        for i in (0..n).filter(|i| !sc.out.contains(i)) {
            idx.insert(points[i].clone(), sc.sigs[i].clone());
        }
    }
    let idx = Arc::new(idx);
    let graph = Arc::new(Graph { points: points.clone(), adj: sc.adj.clone(), at: (0..n).map(|i| (i as u64, i)).collect() });
    let call = {
        let (points, clusterer, results, idx, graph, sc, cut_off) = (points.clone(), clusterer.clone(), results.clone(), idx.clone(), graph.clone(), sc.clone(), cut_off.clone());
        move |k: usize| {
            let mut v: Vec<P> = sc.calls[k].iter().filter(|&&i| i < points.len()).map(|&i| points[i].clone()).collect();
            let before: Vec<u64> = v.iter().map(|p| p.id.0).collect();
            let what = if sc.mode % 3 == 0 { "cluster_par" } else { "cluster" };
            let r = guarded(|| match sc.mode {
                0 | 3 => clusterer.cluster_par(&mut v, &idx),
                1 => clusterer.cluster(&mut v, &*graph),
                _ => clusterer.cluster(&mut v, &*idx),
            });
            checked(1);
            let mut a: Vec<u64> = v.iter().map(|p| p.id.0).collect();
            let mut b0 = before.clone();
            a.sort();
            b0.sort();
            if a != b0 {
                violate("points", format!("{} changed the caller's points: {} -> {}", what, show(b0), show(a)));
            }
            match r {
                Ok(b) => simrt::atomically(|| results.lock().unwrap().push((k, b))),
                Err(Fail::Injected) if faulty => simrt::atomically(|| cut_off.lock().unwrap().push(k)),
                Err(Fail::Injected) => violate("panic", "unexpected injected panic".into()),
                Err(Fail::Panic(p)) => violate("panic", format!("{} panicked: {}", what, p)),
            }
        }
    };
    arm_user_panics(faulty);
    let par = sc.calls.len() - sc.later.min(sc.calls.len());
    if sc.mode == 0 || par == 1 {
        for k in 0..par {
            if !violated() {
                call(k);
            }
        }
    } else {
        let hs: Vec<_> = (0..par)
            .map(|k| {
                let call = call.clone();
                std::thread::spawn(move || call(k))
            })
            .collect();
        for h in hs {
            if h.join().is_err() {
                violate("panic", format!("clustering thread panicked: {}", last_panic()));
            }
        }
    }
    for k in par..sc.calls.len() {
        if !violated() {
            call(k);
        }
    }
    arm_user_panics(false);
    let again = std::mem::take(&mut *cut_off.lock().unwrap());
    if !violated() && !again.is_empty() {
        // what the interrupted calls left behind; then they are repeated
        judge(&sc, &points, &results.lock().unwrap(), &again, false);
        for &k in &again {
            if !violated() {
                call(k);
            }
        }
    }
    if !violated() && sc.prop == "C14" {
        // the points' cluster references are usable while the returned clusters live
        for p in &points {
            if let Err(Fail::Panic(m)) = guarded(|| {
                let c = p.get_cluster();
                if !c.is_null() {
                    let c = unsafe { &*c };
                    std::hint::black_box((c.cluster_id, c.points.len(), c.points.iter().map(|q| q.id.0).sum::<u64>()));
                }
            }) {
                violate("panic", m);
            }
            checked(1);
        }
    }
    if !violated() {
        judge(&sc, &points, &results.lock().unwrap(), &again, true);
    }
    rayon_core::sim::stop();
    drop(call);
    // the clusters go before the points that refer to them, as in any caller
    drop(results);
    drop((points, clusterer, idx, graph));
    all_released("clusters, points and index were dropped");
}

/// `again`: calls that were interrupted; `done`: they have been repeated
fn judge(sc: &Scenario, points: &[P], res: &[(usize, Boxes)], again: &[usize], done: bool) {
    let nb = neighbours(sc);
    let n = points.len();
    let mut owner: Vec<Option<usize>> = vec![None; n]; // index into `all`
    let all: Vec<&Box<par::Cluster<SimId>>> = res.iter().flat_map(|x| x.1.iter()).collect();
    let prop = sc.prop.as_str();
    let on = |p: &str| prop == p || (prop == "C23" && p != "C12");
    let given: BTreeSet<usize> = sc.calls.iter().flatten().copied().filter(|&i| i < n).collect();

    // C10: disjoint, and every point refers to the returned cluster that contains it
    for (ci, c) in all.iter().enumerate() {
        for p in &c.points {
            let i = p.id.0 as usize;
            if let Some(o) = owner[i] {
                if on("C10") {
                    violate("disjoint", format!("point {} is in {} (cluster ids {} and {})", i, if o == ci { "one cluster twice" } else { "two returned clusters" }, all[o].cluster_id, c.cluster_id));
                }
                return;
            }
            owner[i] = Some(ci);
        }
    }
    if on("C10") {
        checked(n as u64);
        for i in 0..n {
            let ptr = points[i].get_cluster() as *const par::Cluster<SimId>;
            match owner[i] {
                Some(ci) => {
                    if ptr != &**all[ci] as *const _ {
                        let w = if ptr.is_null() {
                            "nothing"
                        } else if all.iter().any(|c| &***c as *const par::Cluster<SimId> == ptr) {
                            "another cluster"
                        } else {
                            "a cluster that was not returned"
                        };
                        violate("assignment", format!("point {} is in returned cluster {} but refers to {}", i, all[ci].cluster_id, w));
                        return;
                    }
                }
                None => {
                    if !ptr.is_null() {
                        violate("assignment", format!("point {} is in no returned cluster but refers to {}", i, if all.iter().any(|c| &***c as *const par::Cluster<SimId> == ptr) { "one" } else { "a cluster that was not returned" }));
                        return;
                    }
                }
            }
        }
    }
    // C11: every cluster is a cluster
    if on("C11") {
        let mut idseen = BTreeSet::new();
        for c in &all {
            checked(1);
            if !idseen.insert(c.cluster_id) {
                violate("cluster-id", format!("two clusters have id {}", c.cluster_id));
                return;
            }
            if c.points.len() < sc.min_size {
                violate("too-small", format!("cluster {} has {} points, the minimum is {}", c.cluster_id, c.points.len(), sc.min_size));
                return;
            }
            let set: BTreeSet<usize> = c.points.iter().map(|p| p.id.0 as usize).collect();
            if !given.iter().any(|&s| set.is_subset(&nb[s])) {
                violate("not-similar", format!("cluster {} = {}: there is no input point to which all of them are similar", c.cluster_id, show(&set)));
                return;
            }
        }
    }
    // C23: after repeating, nothing clusterable is left over of the points of the interrupted calls
    if prop == "C23" && done {
        for &s in again.iter().flat_map(|&k| &sc.calls[k]).filter(|&&i| i < n) {
            checked(1);
            let left = nb[s].iter().filter(|&&j| owner[j].is_none()).count();
            if owner[s].is_none() && left >= sc.min_size {
                violate("left-over", format!("the interrupted call was repeated, but point {} is still unclustered although {} unclustered points are similar to it (minimum {})", s, left, sc.min_size));
                return;
            }
        }
    }
    // C12: nothing clusterable is left over
    if on("C12") {
        for &s in &given {
            checked(1);
            if owner[s].is_none() {
                let left = nb[s].iter().filter(|&&j| owner[j].is_none()).count();
                if left >= sc.min_size {
                    violate("left-over", format!("point {} was left unclustered although {} unclustered points are similar to it (minimum {})", s, left, sc.min_size));
                    return;
                }
            }
        }
        // separable groups: every schedule must give what the serial clusterer gives
        let cliques = (0..n).all(|i| (nb[i].contains(&i) || sc.out.contains(&i)) && nb[i].iter().all(|&j| nb[j] == nb[i]));
        let got: BTreeSet<BTreeSet<usize>> = all.iter().map(|c| c.points.iter().map(|p| p.id.0 as usize).collect()).collect();
        let serial = |order: &[usize]| -> BTreeSet<BTreeSet<usize>> {
            let pts: Vec<ser::ClusterPoint<u64>> = (0..n).map(|i| Rc::new(ser::ClusterPointInner::new(i as u64))).collect();
            let g = SerGraph { points: pts.clone(), nb: (0..n).map(|i| (i as u64, nb[i].iter().copied().collect())).collect() };
            let mut v: Vec<_> = order.iter().map(|&i| pts[i].clone()).collect();
            let cs = ser::Clusterer::new(sc.min_size).cluster(&mut v, &g);
            let mut of = vec![None; n];
            let (mut ids, mut total) = (BTreeSet::new(), 0);
            for c in &cs {
                ids.insert(c.cluster_id);
                total += c.points.len();
                c.points.iter().for_each(|p| of[p.id as usize] = Some(c.cluster_id));
            }
            if ids.len() != cs.len() || of.iter().flatten().count() != total || (0..n).any(|i| pts[i].cluster.get() != of[i]) {
                violate("serial", format!("the serial clusterer's clusters overlap, share an id or are not those the points refer to: {}", show(cs.iter().map(|c| (c.cluster_id, c.points.iter().map(|p| p.id).collect::<Vec<_>>())).collect::<Vec<_>>())));
            }
            cs.iter().map(|c| c.points.iter().map(|p| p.id as usize).collect()).collect()
        };
        // serial: greedy in the order given
        if sc.min_size > 0 {
            checked(1);
            let order = sc.calls.concat().into_iter().filter(|&i| i < n).collect::<Vec<_>>();
            let (mut taken, mut want) = (vec![false; n], BTreeSet::new());
            for &i in &order {
                let free: BTreeSet<usize> = nb[i].iter().copied().filter(|&j| !taken[j]).collect();
                if !taken[i] && free.len() >= sc.min_size {
                    free.iter().for_each(|&j| taken[j] = true);
                    want.insert(free);
                }
            }
            let s = serial(&order);
            if s != want && !violated() {
                violate("serial", format!("the serial clusterer gives {}, in the order given the clusters are {}", show(&s), show(&want)));
                return;
            }
        }
        let want_groups: BTreeSet<BTreeSet<usize>> = given.iter().map(|&i| nb[i].clone()).filter(|g| g.len() >= sc.min_size).collect();
        if cliques {
            checked(1);
            if got != want_groups {
                violate("groups", format!("the similar groups are {}, the clusters {}", show(&want_groups), show(&got)));
                return;
            }
            let order: Vec<usize> = given.iter().copied().collect();
            let s = serial(&order);
            if s != want_groups {
                violate("serial", format!("the similar groups are {}, the serial clusterer gives {}", show(&want_groups), show(&s)));
                return;
            }
        }
        // one caller, one thread: greedy, largest neighbourhood first
        if sc.mode % 3 != 0 && sc.calls.len() == 1 {
            // (points with equally many neighbours may be taken in any order)
            let mut by: BTreeMap<std::cmp::Reverse<usize>, Vec<usize>> = BTreeMap::new();
            sc.calls[0].iter().copied().filter(|&i| i < n).for_each(|i| by.entry(std::cmp::Reverse(nb[i].len())).or_default().push(i));
            let mut taken = vec![false; n];
            let mut unused = got.clone();
            checked(1);
            for class in by.values() {
                loop {
                    let open: Vec<(usize, BTreeSet<usize>)> = class
                        .iter()
                        .filter(|&&i| !taken[i])
                        .map(|&i| (i, nb[i].iter().copied().filter(|&j| !taken[j]).collect::<BTreeSet<usize>>()))
                        .filter(|x| x.1.len() >= sc.min_size)
                        .collect();
                    if let Some((_, s)) = open.iter().find(|x| unused.contains(&x.1)) {
                        unused.remove(s);
                        s.iter().for_each(|&j| taken[j] = true);
                    } else if let Some((i, s)) = open.first() {
                        violate("greedy", format!("a single caller gets {}: when point {} is due (largest neighbourhood first), the unclustered points similar to it are {}, which is not one of the clusters", show(&got), i, show(s)));
                        return;
                    } else {
                        break;
                    }
                }
            }
            if !unused.is_empty() {
                violate("greedy", format!("a single caller gets {}; {} is not formed when points are taken largest neighbourhood first", show(&got), show(&unused)));
            }
        }
    }
}

pub fn execute(sc: Arc<Scenario>) {
    match sc.cont {
        0 => go::<HashSetContainer<P>>(sc),
        1 => go::<VecContainer<P>>(sc),
        _ => go::<SmallVecContainer<P, 2>>(sc),
    }
}

pub fn generate(prop: &str, r: &mut Rng, tier: u32) -> Scenario {
    let mut sim = SimCfg::gen(r);
    if prop == "C23" || prop == "C22" && r.chance(1, 2) {
        sim.faults.push((simrt::fault::USER_PANIC as u8, *r.pick(&[2000u32, 10_000, 50_000, 200_000])));
        sim.maxf = r.range(1, 4) as u32;
    }
    // conflicts need tight interleaving
    if r.chance(2, 3) {
        sim.gap = *r.pick(&[15, 60, 200, 1000]);
    }
    if sim.pool == 1 && r.chance(3, 4) {
        sim.pool = 3;
    }
    let mode = pickw(r, &[(0u8, 4), (1, 5), (2, 2), (3, 1)]);
    let min_size = match r.below(40) {
        0 => 0,
        1 => r.range(7, 40) as usize,
        _ => pickw(r, &[(1usize, 1), (2, 4), (3, 4), (4, 2), (6, 1)]),
    };
    let n = match r.below(20) {
        0 => 0,
        1 => 1,
        2..=4 => r.range(2, 5),
        5..=14 => r.range(5, 24),
        15..=18 => r.range(24, 80),
        _ => r.range(80, if tier > 0 { 600 } else { 300 }),
    } as usize;
    let n_threads = match r.below(10) {
        0 if prop == "C13" => 0,
        0..=6 => r.range(1, 6) as usize,
        7 => n.max(1),
        8 => n + 1 + r.below(5) as usize,
        _ => r.range(6, 40) as usize,
    };
    let mut sc = Scenario {
        prop: prop.into(),
        sim,
        mode,
        cont: r.below(3) as u8,
        n_threads,
        min_size,
        bands: 0,
        width: 0,
        thr: 0.5,
        sigs: vec![],
        adj: vec![],
        calls: vec![],
        later: 0,
        out: vec![],
    };
    let groups = r.range(1, (n as u64 / 2).max(1));
    let shape = r.below(5);
    if mode == 1 {
        let mut adj: Vec<BTreeSet<usize>> = vec![BTreeSet::new(); n];
        match shape {
            0 | 1 => {
                // cliques
                let g: Vec<u64> = (0..n).map(|_| r.below(groups)).collect();
                for i in 0..n {
                    for j in 0..n {
                        if g[i] == g[j] {
                            adj[i].insert(j);
                        }
                    }
                }
            }
            2 => {
                // overlapping neighbourhoods: a window on a line or ring
                let w = r.range(1, 5) as usize;
                for i in 0..n {
                    for d in 0..=w {
                        if i + d < n {
                            adj[i].insert(i + d);
                            adj[i + d].insert(i);
                        }
                    }
                }
            }
            4 => {
                // similarity need not be symmetric
                let p = *r.pick(&[3u64, 10, 40]);
                for i in 0..n {
                    adj[i].insert(i);
                    for j in 0..n {
                        if r.chance(p, 100) {
                            adj[i].insert(j);
                        }
                    }
                }
            }
            _ => {
                let p = *r.pick(&[5u64, 20, 50]);
                for i in 0..n {
                    adj[i].insert(i);
                    for j in 0..i {
                        if r.chance(p, 100) {
                            adj[i].insert(j);
                            adj[j].insert(i);
                        }
                    }
                }
            }
        }
        sc.adj = adj.into_iter().map(|s| s.into_iter().collect()).collect();
    } else {
        sc.bands = *r.pick(&[2usize, 3, 4, 6, 10]);
        sc.width = *r.pick(&[1usize, 2, 3]);
        sc.thr = *r.pick(&[0.25, 0.5, 0.75, 1.0]);
        let m = sc.bands * sc.width;
        for _ in 0..n {
            let g = r.below(groups);
            let mut s: Vec<u32> = (0..m).map(|k| (mix(g, k as u64) % 1_000_000) as u32).collect();
            if shape >= 2 {
                for _ in 0..r.below(m as u64 / 2 + 1) {
                    let k = r.below(m as u64) as usize;
                    s[k] = r.below(if shape == 2 { 3 } else { 1 << 30 }) as u32;
                }
            }
            sc.sigs.push(s);
        }
        if min_size > 0 && r.chance(1, 8) {
            sc.out = (0..n).filter(|_| r.chance(1, 6)).collect();
        }
    }
    if mode == 0 {
        if r.chance(1, 4) && n > 1 {
            let k = r.range(1, n as u64 - 1) as usize;
            sc.calls = vec![(0..k).collect(), (k..n).collect()];
        } else {
            sc.calls = vec![(0..n).collect()];
        }
    } else {
        let t = pickw(r, &[(1usize, 2), (2, 5), (3, 4), (4, 2), (6, 1)]);
        match r.below(3) {
            0 => sc.calls = vec![(0..n).collect(); t], // every thread, all points
            1 => {
                sc.calls = vec![vec![]; t];
                for i in 0..n {
                    sc.calls[i % t].push(i);
                }
            }
            _ => {
                sc.calls = vec![vec![]; t];
                for i in 0..n {
                    sc.calls[i * t / n.max(1)].push(i);
                }
            }
        }
    }
    if r.chance(1, 6) {
        // some points are only in the index
        for c in &mut sc.calls {
            c.retain(|_| r.chance(3, 4));
        }
    }
    if r.chance(1, 8) {
        sc.calls.push((0..n).collect());
        sc.later = 1;
    }
    if r.chance(1, 12) {
        // the same point twice in a list
        for c in &mut sc.calls {
            for _ in 0..r.below(4) {
                if !c.is_empty() {
                    let x = *r.pick(c);
                    c.push(x);
                }
            }
        }
    }
    // processing order varies
    for c in &mut sc.calls {
        if r.chance(1, 2) {
            for i in (1..c.len()).rev() {
                let j = r.below(i as u64 + 1) as usize;
                c.swap(i, j);
            }
        }
    }
    sc
}
