//! SimHashIndex workloads (C07, C08): the reference is a scan over all documents.
use crate::common::*;
use gaoya::simhash::{SimHashBits, SimHashIndex};
use serde::{Deserialize, Serialize};
use simrt::Rng;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Mutex, RwLock};

/// base signature with some bits flipped
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Sig(pub u32, pub Vec<u8>);

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Ins(u64, Sig),
    Bulk { pairs: bool, items: Vec<(u64, Sig)> },
    Q(Sig, u32),
    BulkQ(Vec<Sig>, bool),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Scenario {
    pub prop: String,
    pub sim: SimCfg,
    pub wide: bool,
    pub blocks: usize,
    pub dist: usize,
    pub setup: Vec<Op>,
    pub clients: Vec<Vec<Op>>,
    #[serde(default)]
    pub replicas: Vec<SimCfg>,
    /// an interrupted insert is repeated 0 when faults have stopped, 1 at once, 2 at once and later
    #[serde(default)]
    pub retry: u8,
}

pub trait Bits: SimHashBits + Send + Sync + 'static {
    fn of(s: &Sig) -> Self;
    fn dist(a: &Self, b: &Self) -> usize;
}
impl Bits for u64 {
    fn of(s: &Sig) -> u64 {
        s.1.iter().fold(mix(s.0 as u64, 7), |x, b| x ^ (1u64 << (b % 64)))
    }
    fn dist(a: &u64, b: &u64) -> usize {
        (0..64).filter(|i| (a >> i) & 1 != (b >> i) & 1).count()
    }
}
impl Bits for u128 {
    fn of(s: &Sig) -> u128 {
        let v = ((mix(s.0 as u64, 7) as u128) << 64) | mix(s.0 as u64, 8) as u128;
        s.1.iter().fold(v, |x, b| x ^ (1u128 << (b % 128)))
    }
    fn dist(a: &u128, b: &u128) -> usize {
        (0..128).filter(|i| (a >> i) & 1 != (b >> i) & 1).count()
    }
}

struct State<S: Bits> {
    idx: SimHashIndex<S, SimId>,
    docs: BTreeMap<u64, (S, bool)>,
    /// ids of interrupted inserts: present or absent, with one of these signatures
    unsure: BTreeMap<u64, Vec<S>>,
}

struct Run<S: Bits> {
    st: RwLock<State<S>>,
    sc: Arc<Scenario>,
    faulty: bool,
    /// interrupted inserts that were not repeated yet
    redo: Mutex<Vec<Op>>,
}

impl<S: Bits> Run<S> {
    fn bad(&self, what: &str, f: Fail) {
        match f {
            Fail::Injected => {
                if !self.faulty {
                    violate("panic", format!("{}: unexpected injected panic", what))
                }
            }
            Fail::Panic(p) => violate("panic", format!("{} panicked: {}", what, p)),
        }
    }
    fn expect(&self, st: &State<S>, q: &S) -> (BTreeSet<u64>, BTreeSet<u64>) {
        let d = self.sc.dist;
        let must = st.docs.iter().filter(|x| !st.unsure.contains_key(x.0) && S::dist(&x.1 .0, q) <= d).map(|x| *x.0).collect();
        let may = st.unsure.iter().filter(|x| x.1.iter().any(|s| S::dist(s, q) <= d)).map(|x| *x.0).collect();
        (must, may)
    }
    fn within(&self, what: &str, st: &State<S>, q: &S, got: &BTreeSet<u64>) -> bool {
        checked(1);
        let (must, may) = self.expect(st, q);
        if let Some(x) = must.difference(got).next() {
            violate("missing", format!("{}: document {} at distance {} (max {}) is not in the answer {}", what, x, S::dist(&st.docs[x].0, q), self.sc.dist, show(got)));
            return false;
        }
        if let Some(x) = got.iter().find(|x| !must.contains(x) && !may.contains(x)) {
            violate("extra", format!("{}: answer {} contains {}, whose distance is {:?} (max {})", what, show(got), x, st.docs.get(x).map(|s| S::dist(&s.0, q)), self.sc.dist));
            return false;
        }
        true
    }
    fn scored(&self, what: &str, st: &State<S>, q: &S, r: &[(SimId, usize)]) {
        let got: BTreeSet<u64> = r.iter().map(|x| x.0 .0).collect();
        if got.len() != r.len() {
            violate("duplicate", format!("{}: a document appears twice", what));
        }
        if !self.within(what, st, q, &got) {
            return;
        }
        for (x, d) in r {
            let ok = match st.unsure.get(&x.0) {
                Some(v) => v.iter().any(|s| S::dist(s, q) == *d),
                None => S::dist(&st.docs[&x.0].0, q) == *d,
            };
            if !ok {
                violate("score", format!("{}: distance of {} reported as {}", what, x.0, d));
            }
        }
        if r.windows(2).any(|w| w[0].1 > w[1].1) {
            violate("order", format!("{}: not sorted from nearest to farthest: {}", what, show(r)));
        }
    }
    fn forms(&self, st: &State<S>, q: &S, mask: u32) {
        if mask & 1 != 0 {
            match guarded(|| st.idx.query(q).into_iter().map(|x| x.0).collect::<BTreeSet<u64>>()) {
                Ok(got) => {
                    self.within("query", st, q, &got);
                    digest(format!("q{:?}", got));
                }
                Err(e) => self.bad("query", e),
            }
        }
        if mask & 2 != 0 {
            match guarded(|| st.idx.query_owned(q).into_iter().map(|x| x.0).collect::<BTreeSet<u64>>()) {
                Ok(got) => {
                    self.within("query_owned", st, q, &got);
                    digest(format!("o{:?}", got));
                }
                Err(e) => self.bad("query_owned", e),
            }
        }
        if mask & 4 != 0 {
            match guarded(|| st.idx.query_return_distance(q)) {
                Ok(r) => {
                    self.scored("query_return_distance", st, q, &r);
                    let mut d: Vec<(usize, u64)> = r.iter().map(|x| (x.1, x.0 .0)).collect();
                    d.sort();
                    digest(format!("d{:?}", d));
                }
                Err(e) => self.bad("query_return_distance", e),
            }
        }
        if mask & 8 != 0 {
            match guarded(|| st.idx.query_one(q).map(|x| (x.0 .0, x.1))) {
                Ok(r) => {
                    checked(1);
                    let (must, may) = self.expect(st, q);
                    let best = must.iter().map(|x| S::dist(&st.docs[x].0, q)).min();
                    match r {
                        None => {
                            if !must.is_empty() {
                                violate("missing", format!("query_one: None although {} are within the distance", show(must)));
                            }
                        }
                        Some((x, d)) => {
                            if !must.contains(&x) && !may.contains(&x) {
                                violate("extra", format!("query_one: {} is not within the distance", x));
                            } else if !may.contains(&x) && d != S::dist(&st.docs[&x].0, q) {
                                violate("score", format!("query_one: distance of {} reported as {}", x, d));
                            } else if best.map_or(false, |b| d > b) {
                                violate("order", format!("query_one: distance {}, the nearest document is at {:?}", d, best));
                            }
                        }
                    }
                    digest(format!("1{:?}", r.map(|x| x.1)));
                }
                Err(e) => self.bad("query_one", e),
            }
        }
    }
    fn size_check(&self, st: &State<S>) {
        checked(1);
        let n = st.idx.size();
        let sure = st.docs.keys().filter(|k| !st.unsure.contains_key(k)).count();
        if n < sure || n > sure + st.unsure.len() {
            violate("size", format!("size() = {}, the index holds {} documents{}", n, sure, if st.unsure.is_empty() { String::new() } else { format!(" (+ up to {} of interrupted inserts)", st.unsure.len()) }));
        }
        digest(format!("n{}", n));
    }
    fn done(&self, st: &mut State<S>, items: &[(u64, S)]) {
        for (i, s) in items {
            st.docs.insert(*i, (*s, true));
            st.unsure.remove(i);
        }
    }
    fn interrupted(&self, st: &mut State<S>, items: &[(u64, S)]) {
        for (i, s) in items {
            let old = st.docs.get(i).map(|x| x.0);
            let e = st.unsure.entry(*i).or_default();
            e.push(*s);
            e.extend(old);
        }
        for (i, s) in items {
            st.docs.insert(*i, (*s, false));
        }
    }
    fn exec(&self, op: &Op) {
        if self.step(op) {
            let mut again = false;
            if self.sc.retry > 0 {
                // the caller tries again at once
                arm_user_panics(false);
                // (another client may have armed them again)
                again = self.step(op);
                arm_user_panics(true);
            }
            if self.sc.retry != 1 || again {
                simrt::atomically(|| self.redo.lock().unwrap().push(op.clone()));
            }
        }
    }
    /// Executes `op`; true if it is an insert that was interrupted by an injected panic.
    fn step(&self, op: &Op) -> bool {
        if violated() {
            return false;
        }
        let mut interrupted = false;
        self.apply(op, &mut interrupted);
        interrupted
    }
    fn apply(&self, op: &Op, interrupted: &mut bool) {
        match op {
            Op::Ins(id, s) => {
                let mut g = self.st.write().unwrap_or_else(|e| e.into_inner());
                let st = &mut *g;
                let items = [(*id, S::of(s))];
                match guarded(|| st.idx.insert(SimId::new(*id), items[0].1)) {
                    Ok(()) => self.done(st, &items),
                    Err(e) => {
                        self.bad("insert", e);
                        *interrupted = true;
                        self.interrupted(st, &items);
                    }
                }
                self.size_check(st);
            }
            Op::Bulk { pairs, items } => {
                let mut g = self.st.write().unwrap_or_else(|e| e.into_inner());
                let st = &mut *g;
                let items: Vec<(u64, S)> = items.iter().map(|(i, s)| (*i, S::of(s))).collect();
                let arg: Vec<(SimId, S)> = items.iter().map(|(i, s)| (SimId::new(*i), *s)).collect();
                let r = guarded(|| {
                    if *pairs {
                        st.idx.par_bulk_insert_pairs(arg)
                    } else {
                        let (i, s) = arg.into_iter().unzip();
                        st.idx.par_bulk_insert(i, s)
                    }
                });
                match r {
                    Ok(()) => self.done(st, &items),
                    Err(e) => {
                        self.bad("par_bulk_insert", e);
                        *interrupted = true;
                        self.interrupted(st, &items);
                    }
                }
                self.size_check(st);
            }
            Op::Q(s, mask) => {
                let g = self.st.read().unwrap_or_else(|e| e.into_inner());
                self.forms(&g, &S::of(s), *mask);
            }
            Op::BulkQ(v, scored) => {
                let g = self.st.read().unwrap_or_else(|e| e.into_inner());
                let st = &*g;
                let qs: Vec<S> = v.iter().map(S::of).collect();
                if *scored {
                    match guarded(|| st.idx.par_bulk_query_return_distance(&qs)) {
                        Err(e) => self.bad("par_bulk_query_return_distance", e),
                        Ok(r) => {
                            if r.len() != qs.len() {
                                violate("bulk", format!("par_bulk_query_return_distance: {} answers to {} queries", r.len(), qs.len()));
                                return;
                            }
                            for (q, a) in qs.iter().zip(&r) {
                                self.scored("par_bulk_query_return_distance", st, q, a);
                                if violated() {
                                    return;
                                }
                            }
                        }
                    }
                } else {
                    match guarded(|| st.idx.par_bulk_query(&qs)) {
                        Err(e) => self.bad("par_bulk_query", e),
                        Ok(r) => {
                            if r.len() != qs.len() {
                                violate("bulk", format!("par_bulk_query: {} answers to {} queries", r.len(), qs.len()));
                                return;
                            }
                            for (q, a) in qs.iter().zip(&r) {
                                let got: BTreeSet<u64> = a.iter().map(|x| x.0).collect();
                                if !self.within("par_bulk_query", st, q, &got) {
                                    return;
                                }
                                digest(format!("B{:?}", got));
                            }
                        }
                    }
                }
            }
        }
    }
    fn audit(&self) {
        if violated() {
            return;
        }
        let g = self.st.read().unwrap_or_else(|e| e.into_inner());
        self.size_check(&g);
        let k = (g.docs.len() / 40).max(1);
        for (s, _) in g.docs.values().step_by(k) {
            self.forms(&g, s, 15);
        }
        // a document at exactly the maximal distance, and one beyond, of the probe
        for (i, (s, _)) in g.docs.values().enumerate().step_by(k).take(12) {
            let mut q = *s;
            for j in 0..self.sc.dist + (i % 2) {
                let bit = (mix(i as u64, j as u64 * 31 + 5) as usize) % S::bit_length();
                q = q ^ (S::one() << bit);
            }
            self.forms(&g, &q, 15);
        }
    }
    fn heal(&self) {
        simrt::faults_off();
        if violated() {
            return;
        }
        let ops = std::mem::take(&mut *self.redo.lock().unwrap());
        for op in &ops {
            self.step(op);
        }
        if violated() {
            return;
        }
        let mut g = self.st.write().unwrap_or_else(|e| e.into_inner());
        let st = &mut *g;
        let redo: Vec<(u64, S)> = st.unsure.keys().map(|i| (*i, st.docs[i].0)).collect();
        let arg: Vec<(SimId, S)> = redo.iter().map(|(i, s)| (SimId::new(*i), *s)).collect();
        match guarded(|| st.idx.par_bulk_insert_pairs(arg)) {
            Ok(()) => self.done(st, &redo),
            Err(e) => self.bad("par_bulk_insert_pairs (repeating an interrupted one)", e),
        }
    }
}

fn go<S: Bits>(sc: Arc<Scenario>) {
    rayon_core::sim::set_threads(sc.sim.pool);
    let faulty = sc.sim.faults.iter().any(|f| f.0 as usize == simrt::fault::USER_PANIC);
    let run = Arc::new(Run::<S> {
        st: RwLock::new(State { idx: SimHashIndex::new(sc.blocks, sc.dist), docs: BTreeMap::new(), unsure: BTreeMap::new() }),
        sc: sc.clone(),
        faulty,
        redo: Mutex::new(vec![]),
    });
    arm_user_panics(false);
    for op in &sc.setup {
        run.exec(op);
    }
    arm_user_panics(faulty);
    if sc.clients.len() == 1 {
        for op in &sc.clients[0] {
            run.exec(op);
        }
    } else {
        let hs: Vec<_> = (0..sc.clients.len())
            .map(|c| {
                let run = run.clone();
                std::thread::spawn(move || {
                    for op in &run.sc.clients[c] {
                        run.exec(op);
                    }
                })
            })
            .collect();
        for h in hs {
            if h.join().is_err() {
                violate("panic", format!("client thread panicked: {}", last_panic()));
            }
        }
    }
    arm_user_panics(false);
    run.audit();
    if faulty {
        run.heal();
        run.audit();
    }
    rayon_core::sim::stop();
    drop(run);
    all_released("the index was dropped");
}

pub fn execute(sc: Arc<Scenario>) {
    if sc.wide {
        go::<u128>(sc)
    } else {
        go::<u64>(sc)
    }
}

pub fn generate(prop: &str, r: &mut Rng, tier: u32) -> Scenario {
    if prop == "C22" {
        let mut sc = generate("C08", r, tier);
        sc.prop = prop.into();
        return sc;
    }
    let mut sim = SimCfg::gen(r);
    let (blocks, dist) = *r.pick(&[(2usize, 1usize), (3, 1), (3, 2), (4, 1), (4, 2), (4, 3), (5, 2), (5, 4), (6, 3), (6, 5), (7, 3), (8, 2), (8, 6), (10, 2), (10, 3), (16, 1), (13, 2), (1, 0), (3, 0), (9, 1), (9, 2), (11, 2), (12, 1), (12, 2), (15, 1), (20, 1), (32, 1), (64, 1)]);
    let fam = *r.pick(&[1u64, 2, 4, 10]);
    let wide = r.chance(1, 3);
    let uniq = r.chance(1, 2);
    let mut next = 0u64;
    let tables: usize = (0..dist).fold(1, |a, i| a * (blocks - i) / (i + 1));
    let nb = if wide { 128 } else { 64 };
    let mut sig = |r: &mut Rng| {
        let b = r.below(fam) as u32;
        let k = match r.below(5) {
            0 => 0,
            1 => dist as u64,
            2 => dist as u64 + 1,
            _ => r.below(2 * dist as u64 + 3),
        };
        let same_block = r.chance(1, 4);
        let base = r.below(nb);
        Sig(b, (0..k).map(|i| if same_block { ((base + i) % nb) as u8 } else { r.below(nb) as u8 }).collect())
    };
    let mut id = |r: &mut Rng| {
        if !uniq && next > 0 && r.chance(1, 4) {
            r.range(1, next)
        } else {
            next += 1;
            next
        }
    };
    let mut sc = Scenario { prop: prop.into(), sim: sim.clone(), wide, blocks, dist, setup: vec![], clients: vec![], replicas: vec![], retry: r.below(3) as u8 };
    for _ in 0..r.below(12) {
        let i = id(r);
        let s = sig(r);
        sc.setup.push(Op::Ins(i, s));
    }
    if prop == "C08" && r.chance(5, 6) {
        sim.faults.push((simrt::fault::USER_PANIC as u8, *r.pick(&[1000u32, 8000, 50000])));
        sim.maxf = r.range(1, 4) as u32;
    }
    let nc = if prop == "C18" { 1 } else { pickw(r, &[(1usize, 3), (2, 2), (3, 1)]) };
    for _ in 0..nc {
        let mut ops = vec![];
        for _ in 0..r.range(2, 8) {
            ops.push(match r.below(10) {
                0..=1 => {
                    let i = id(r);
                    Op::Ins(i, sig(r))
                }
                2..=4 => {
                    let k = match r.below(40) {
                        0..=2 => 0,
                        3..=5 => 1,
                        6..=25 => r.range(2, 30),
                        26..=37 => r.range(30, 200),
                        38 => r.range(200, if tier > 0 { 4000 } else { 2000 }),
                        _ => r.range(1000, 9000),
                    };
                    let k = k.min(60_000 / tables as u64 + 2);
                    let items = (0..k)
                        .map(|_| {
                            let i = id(r);
                            (i, if k > 100 && r.chance(2, 3) { Sig(1_000_000 + r.below(1 << 30) as u32, vec![]) } else { sig(r) })
                        })
                        .collect();
                    Op::Bulk { pairs: r.chance(1, 2), items }
                }
                5..=6 => {
                    let k = match r.below(10) {
                        0 => 0,
                        1 => 1,
                        2..=7 => r.range(2, 20),
                        8 => r.range(20, 150),
                        _ if r.chance(1, 4) => r.range(150, 3000).min(30_000 / tables as u64 + 2),
                        _ => r.range(20, 150),
                    };
                    let v = (0..k).map(|_| if k > 150 && r.chance(4, 5) { Sig(2_000_000 + r.below(1 << 30) as u32, vec![]) } else { sig(r) }).collect();
                    Op::BulkQ(v, r.chance(1, 2))
                }
                _ => Op::Q(sig(r), 1 + r.below(15) as u32),
            });
        }
        sc.clients.push(ops);
    }
    if prop == "C18" {
        for _ in 0..2 {
            let mut s = SimCfg::gen(r);
            s.faults.clear();
            sc.replicas.push(s);
        }
    }
    sc.sim = sim;
    sc
}
