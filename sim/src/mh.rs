//! MinHashIndex workloads (C01-C06, C18): clients share one index behind a reader/writer lock,
//! bulk operations run on the simulated worker pool, every answer is compared with a reference
//! model that scans all documents.
use crate::common::*;
use gaoya::clustering::QueryIndex;
use gaoya::minhash::{HashSetContainer, IdContainer, MinHashIndex, MinHashType, SmallVecContainer, VecContainer};
use serde::{Deserialize, Serialize};
use simrt::Rng;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::fmt::Debug;
use std::hash::BuildHasher;
use std::sync::{Arc, Mutex, RwLock};

#[derive(Clone, Debug, Serialize, Deserialize, Default, PartialEq)]
pub struct Sig {
    pub b: u32,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub m: Vec<(u16, u8)>,
    #[serde(default, skip_serializing_if = "zero")]
    pub d: i8,
}
fn zero(x: &i8) -> bool {
    *x == 0
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Ins(u64, Sig),
    Bulk { pairs: bool, items: Vec<(u64, Sig)> },
    Rem(u64),
    BulkRem(Vec<u64>),
    Clear,
    Fit,
    ShrinkTo(usize),
    /// all single-query forms selected by the mask
    Q(Sig, u32),
    QId(u64),
    BulkQ(Vec<Sig>, bool),
    TopK(Sig, usize),
    Centroid(Vec<u64>),
    Sizes,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Scenario {
    pub prop: String,
    pub sim: SimCfg,
    pub ty: u8,
    pub cont: u8,
    pub ctor: u8,
    pub cap: usize,
    pub bands: usize,
    pub width: usize,
    pub thr: f64,
    pub alpha: u32,
    pub setup: Vec<Op>,
    pub clients: Vec<Vec<Op>>,
    #[serde(default)]
    pub replicas: Vec<SimCfg>,
    /// an interrupted update is repeated 0 when faults have stopped, 1 at once, 2 at once and later
    #[serde(default)]
    pub retry: u8,
    /// caller-supplied code panics in 0 any call, 1 inserts, 2 bulk inserts, 3 removals, 4 queries only
    #[serde(default)]
    pub focus: u8,
}

pub trait Ty: MinHashType + Debug + 'static {
    fn of(v: u64) -> Self;
}
macro_rules! ty {
    ($($t:ty),*) => { $(impl Ty for $t { fn of(v: u64) -> Self { v.wrapping_mul(0x9E37_79B9_7F4A_7C15) as $t } })* }
}
ty!(u8, u16, u32, u64, i32);

pub fn build<T: Ty>(s: &Sig, n: usize, alpha: u32) -> Vec<T> {
    let len = (n as i64 + s.d as i64).max(0) as usize;
    let mut v: Vec<u64> = (0..len).map(|p| mix(s.b as u64 + 1, p as u64) % alpha as u64).collect();
    for &(p, x) in &s.m {
        if (p as usize) < len {
            v[p as usize] = x as u64;
        }
    }
    v.into_iter().map(T::of).collect()
}

/// A bucket container of the caller's own (the trait is public), with a seam in `push`/`remove`.
pub struct SeamContainer {
    v: Vec<SimId>,
}
impl IdContainer<SimId> for SeamContainer {
    fn new() -> Self {
        SeamContainer { v: Vec::new() }
    }
    fn push(&mut self, item: SimId) {
        user_seam();
        if !self.v.contains(&item) {
            self.v.push(item);
        }
    }
    fn len(&self) -> usize {
        self.v.len()
    }
    fn copy_to<S: BuildHasher>(&self, set: &mut HashSet<SimId, S>) {
        user_seam();
        set.extend(self.v.iter().cloned());
    }
    fn copy_refs_to<'a, S: BuildHasher>(&'a self, set: &mut HashSet<&'a SimId, S>) {
        user_seam();
        set.extend(self.v.iter());
    }
    fn remove(&mut self, item: &SimId) {
        user_seam();
        self.v.retain(|x| x != item);
    }
}

// ------------------------------------------------------------------ reference model
struct Model<T> {
    bands: usize,
    width: usize,
    thr: f64,
    docs: BTreeMap<u64, (Vec<T>, bool)>, // signature, certain
    stale: BTreeMap<u64, Vec<BTreeSet<Vec<T>>>>, // per band: values in whose bucket an entry may linger
}
#[derive(Clone, Copy, PartialEq)]
enum Tri {
    No,
    May,
    Yes,
}
impl<T: Ty> Model<T> {
    fn n(&self) -> usize {
        self.bands * self.width
    }
    fn sim(a: &[T], b: &[T]) -> f64 {
        let m = a.iter().zip(b).filter(|(x, y)| x == y).count();
        m as f64 / a.len() as f64
    }
    fn at_least(&self, a: &[T], b: &[T]) -> Tri {
        let m = a.iter().zip(b).filter(|(x, y)| x == y).count() as f64;
        let n = a.len() as f64;
        match (m / n >= self.thr, m >= self.thr * n) {
            (true, true) => Tri::Yes,
            (false, false) => Tri::No,
            _ => Tri::May,
        }
    }
    fn shares(&self, a: &[T], b: &[T]) -> bool {
        (0..self.bands).any(|i| a[i * self.width..(i + 1) * self.width] == b[i * self.width..(i + 1) * self.width])
    }
    /// candidate status, by buckets only
    fn cand(&self, id: u64, q: &[T]) -> Tri {
        let (s, sure) = match self.docs.get(&id) {
            Some(x) => x,
            None => return Tri::No,
        };
        if self.shares(s, q) {
            return if *sure { Tri::Yes } else { Tri::May };
        }
        if let Some(v) = self.stale.get(&id) {
            if v.iter().enumerate().any(|(i, o)| o.contains(&q[i * self.width..(i + 1) * self.width])) {
                return Tri::May;
            }
        }
        Tri::No
    }
    fn query(&self, q: &[T]) -> (BTreeSet<u64>, BTreeSet<u64>) {
        let (mut must, mut may) = (BTreeSet::new(), BTreeSet::new());
        for (&id, (s, _)) in &self.docs {
            let c = self.cand(id, q);
            if c == Tri::No {
                continue;
            }
            let t = self.at_least(s, q);
            if t == Tri::No {
                continue;
            }
            if c == Tri::Yes && t == Tri::Yes {
                must.insert(id);
            } else {
                may.insert(id);
            }
        }
        (must, may)
    }
    fn put(&mut self, id: u64, s: Vec<T>) {
        if let Some((old, _)) = self.docs.insert(id, (s, true)) {
            self.linger(id, &old);
        }
    }
    /// the entries of the document under this signature may stay in the bands
    fn linger(&mut self, id: u64, s: &[T]) {
        let (b, w) = (self.bands, self.width);
        let e = self.stale.entry(id).or_insert_with(|| vec![BTreeSet::new(); b]);
        for i in 0..b {
            e[i].insert(s[i * w..(i + 1) * w].to_vec());
        }
    }
    fn del(&mut self, id: u64) -> Option<Vec<T>> {
        let (s, _) = self.docs.remove(&id)?;
        // a removal takes the id out of every bucket of its current signature
        let w = self.width;
        if let Some(e) = self.stale.get_mut(&id) {
            for (i, v) in e.iter_mut().enumerate() {
                v.remove(&s[i * w..(i + 1) * w]);
            }
            if e.iter().all(|v| v.is_empty()) {
                self.stale.remove(&id);
            }
        }
        Some(s)
    }
}

type Idx<T, C> = MinHashIndex<T, SimId, C>;
struct State<T: MinHashType, C: IdContainer<SimId>> {
    idx: Idx<T, C>,
    m: Model<T>,
}

fn ids<'a>(it: impl Iterator<Item = &'a SimId>) -> BTreeSet<u64> {
    it.map(|x| x.0).collect()
}

struct Run<T: Ty, C: IdContainer<SimId> + 'static> {
    st: RwLock<State<T, C>>,
    sc: Arc<Scenario>,
    faulty: bool,
    /// interrupted updates that were not repeated yet
    redo: Mutex<Vec<Op>>,
}

const ALL: u32 = 0x7F;
const AUDIT: u64 = 2_000_000;

impl<T: Ty, C: IdContainer<SimId> + 'static> Run<T, C> {
    fn sig(&self, s: &Sig) -> Vec<T> {
        build(s, self.sc.bands * self.sc.width, self.sc.alpha)
    }
    fn within(&self, what: &str, q: &[T], got: &BTreeSet<u64>, m: &Model<T>) -> bool {
        checked(1);
        let (must, may) = m.query(q);
        if let Some(x) = must.difference(got).next() {
            violate("missing", format!("{}: document {} (agreement {:.4}, threshold {}) shares a band with the query but is not in the answer {}", what, x, Model::sim(&m.docs[x].0, q), m.thr, show(got)));
            return false;
        }
        if let Some(x) = got.iter().find(|x| !must.contains(x) && !may.contains(x)) {
            let why = match m.docs.get(x) {
                None => "is not in the index".to_string(),
                Some((s, _)) => format!("agrees in {:.4} of the positions (threshold {}), shares a band: {}", Model::sim(s, q), m.thr, m.shares(s, q)),
            };
            violate("extra", format!("{}: answer {} contains document {}, which {}", what, show(got), x, why));
            return false;
        }
        true
    }
    fn bad(&self, what: &str, f: Fail) {
        match f {
            Fail::Injected => {
                if !self.faulty {
                    violate("panic", format!("{}: unexpected injected panic", what))
                }
            }
            Fail::Panic(p) => violate("panic", format!("{} panicked: {}", what, p)),
        }
    }

    fn query_forms(&self, st: &State<T, C>, q: &Vec<T>, mask: u32) {
        let (idx, m) = (&st.idx, &st.m);
        if mask & 1 != 0 {
            match guarded(|| idx.query(q)) {
                Ok(r) => {
                    let got = ids(r.iter().copied());
                    self.within("query", q, &got, m);
                    digest(format!("q{:?}", got));
                }
                Err(e) => self.bad("query", e),
            }
        }
        if mask & 2 != 0 {
            match guarded(|| idx.query_owned(q)) {
                Ok(r) => {
                    let got = ids(r.iter());
                    self.within("query_owned", q, &got, m);
                    digest(format!("o{:?}", got));
                }
                Err(e) => self.bad("query_owned", e),
            }
        }
        if mask & 4 != 0 {
            match guarded(|| idx.query_owned_return_similarity(q)) {
                Ok(r) => {
                    self.scored("query_owned_return_similarity", q, &r, m);
                }
                Err(e) => self.bad("query_owned_return_similarity", e),
            }
        }
        if mask & 8 != 0 {
            match guarded(|| idx.query_one(q).map(|(i, s)| (i.0, s))) {
                Ok(r) => {
                    checked(1);
                    let (must, may) = m.query(q);
                    let best = must.iter().map(|x| Model::sim(&m.docs[x].0, q)).fold(f64::NEG_INFINITY, f64::max);
                    match r {
                        None => {
                            if !must.is_empty() {
                                violate("missing", format!("query_one: None, although {} are within the threshold {}", show(&must), m.thr));
                            }
                        }
                        Some((x, s)) => {
                            if !must.contains(&x) && !may.contains(&x) {
                                violate("extra", format!("query_one: returned {}, which is not among {} / {}", x, show(&must), show(&may)));
                            } else if (s - Model::sim(&m.docs[&x].0, q)).abs() > 1e-9 {
                                violate("score", format!("query_one: similarity of {} is {}, reported {}", x, Model::sim(&m.docs[&x].0, q), s));
                            } else if s + 1e-9 < best {
                                violate("order", format!("query_one: returned similarity {}, the best is {}", s, best));
                            }
                        }
                    }
                    digest(format!("1{:?}", r.map(|x| (x.1 * 1e9) as i64)));
                }
                Err(e) => self.bad("query_one", e),
            }
        }
        if mask & 16 != 0 {
            self.top_k(st, q, 3);
        }
        if mask & 32 != 0 {
            self.top_k(st, q, 1000);
        }
    }

    fn scored(&self, what: &str, q: &[T], r: &[(SimId, f64)], m: &Model<T>) {
        let got = ids(r.iter().map(|x| &x.0));
        if got.len() != r.len() {
            violate("duplicate", format!("{}: a document appears twice in {}", what, show(r)));
        }
        if !self.within(what, q, &got, m) {
            return;
        }
        for (x, s) in r {
            let e = Model::sim(&m.docs[&x.0].0, q);
            if (e - s).abs() > 1e-9 {
                violate("score", format!("{}: similarity of {} is {}, reported {}", what, x.0, e, s));
            }
        }
        if r.windows(2).any(|w| w[0].1 < w[1].1) {
            violate("order", format!("{}: not sorted from most to least similar: {}", what, show(r)));
        }
        let mut d: Vec<(i64, u64)> = r.iter().map(|x| (-(x.1 * 1e9) as i64, x.0 .0)).collect();
        d.sort();
        digest(format!("s{:?}", d));
    }

    fn top_k(&self, st: &State<T, C>, q: &Vec<T>, k: usize) {
        let (idx, m) = (&st.idx, &st.m);
        match guarded(|| idx.query_top_k(q, k)) {
            Err(e) => self.bad("query_top_k", e),
            Ok(r) => {
                checked(1);
                let got = ids(r.iter().map(|x| &x.0));
                if got.len() != r.len() {
                    violate("duplicate", format!("query_top_k: a document appears twice in {}", show(&r)));
                }
                if r.len() > k {
                    violate("extra", format!("query_top_k({}) returned {} documents", k, r.len()));
                }
                for (x, d) in &r {
                    match m.docs.get(&x.0) {
                        Some((s, _)) if m.cand(x.0, q) != Tri::No => {
                            let e = 1.0 - Model::sim(s, q);
                            if (e - d).abs() > 1e-9 {
                                violate("score", format!("query_top_k: distance of {} is {}, reported {}", x.0, e, d));
                            }
                        }
                        Some(_) => violate("extra", format!("query_top_k: document {} shares no band with the query", x.0)),
                        None => violate("extra", format!("query_top_k: document {} is not in the index", x.0)),
                    }
                }
                if r.windows(2).any(|w| w[0].1 > w[1].1) {
                    violate("order", format!("query_top_k: not sorted by distance: {}", show(&r)));
                }
                let worst = if r.len() < k { f64::INFINITY } else { r.last().map_or(f64::INFINITY, |x| x.1) };
                if k > 0 {
                    for (&id, (s, _)) in &m.docs {
                        if !got.contains(&id) && m.cand(id, q) == Tri::Yes && 1.0 - Model::sim(s, q) < worst - 1e-9 {
                            violate("missing", format!("query_top_k({}): document {} at distance {} is nearer than the answer {}", k, id, 1.0 - Model::sim(s, q), show(&r)));
                            break;
                        }
                    }
                }
                let mut d: Vec<i64> = r.iter().map(|x| (x.1 * 1e9) as i64).collect();
                d.sort();
                digest(format!("k{:?}", d));
            }
        }
    }

    fn by_id(&self, st: &State<T, C>, id: u64) {
        let (idx, m) = (&st.idx, &st.m);
        let sid = SimId::new(id);
        let sig = m.docs.get(&id).map(|x| x.0.clone());
        for form in 0..3 {
            let r = guarded(|| match form {
                0 => ids(idx.query_by_id(&sid).into_iter()),
                1 => ids(idx.query_by_id_owned(&sid).iter()),
                _ => ids(QueryIndex::query(idx, &sid).into_iter()),
            });
            let what = ["query_by_id", "query_by_id_owned", "QueryIndex::query"][form];
            match r {
                Err(e) => self.bad(what, e),
                Ok(got) => match &sig {
                    Some(s) => {
                        self.within(what, s, &got, m);
                        digest(format!("i{:?}", got));
                    }
                    None => {
                        if !got.is_empty() {
                            violate("extra", format!("{}: {} is not in the index, answer {}", what, id, show(got)));
                        }
                    }
                },
            }
        }
    }

    /// After a contained failure: what does the index say about the ids the operation touched?
    fn settle(&self, st: &mut State<T, C>, what: &str, touched: &[(u64, Option<Vec<T>>)]) {
        let mut known: BTreeMap<u64, Vec<Vec<T>>> = BTreeMap::new();
        for (id, s) in touched {
            let e = known.entry(*id).or_default();
            if let Some(s) = s {
                e.push(s.clone());
            }
        }
        for (id, mut sigs) in known {
            let old = st.m.docs.remove(&id);
            if let Some((o, _)) = &old {
                sigs.push(o.clone());
            }
            let now = st.idx.get_signature(&SimId::new(id)).cloned();
            if let Some(s) = &now {
                if !sigs.contains(s) {
                    violate("corrupt", format!("after an interrupted {}: the signature of {} is neither its old nor its new one", what, id));
                }
            }
            for s in &sigs {
                st.m.linger(id, s);
            }
            if let Some(s) = now {
                st.m.docs.insert(id, (s, false));
            }
        }
    }

    fn size_check(&self, st: &State<T, C>) {
        checked(1);
        match guarded(|| (st.idx.size(), st.idx.capacity(), st.idx.get_id_signature_map().len())) {
            Ok((n, cap, ml)) => {
                if n != st.m.docs.len() || ml != n {
                    violate("size", format!("size() = {}, signature map {} entries, the index holds {} documents", n, ml, st.m.docs.len()));
                }
                if cap < n {
                    violate("size", format!("capacity() = {} < size {}", cap, n));
                }
                digest(format!("n{}", n));
            }
            Err(e) => self.bad("size", e),
        }
    }
    /// C22: no copy of an id that is not in the index (with the write lock held)
    fn ids_check(&self, st: &State<T, C>, what: &str) {
        if !tracking() || violated() {
            return;
        }
        checked(1);
        for (id, n) in live_ids() {
            if !st.m.docs.contains_key(&id) && !st.m.stale.contains_key(&id) {
                violate("leak", format!("after {}: {} copies of id {} exist, which is not in the index any more", what, n, id));
                return;
            }
        }
    }
    fn band_check(&self, st: &State<T, C>) {
        checked(1);
        match guarded(|| st.idx.band_sizes()) {
            Ok(b) => {
                let m = &st.m;
                if b.sizes.len() != m.bands || b.sizes.iter().max() != Some(&b.max_size) || b.sizes.iter().min() != Some(&b.min_size) {
                    violate("size", format!("band_sizes: {} bands (expected {}), min {} max {}", b.sizes.len(), m.bands, b.min_size, b.max_size));
                    return;
                }
                for i in 0..m.bands {
                    let r = i * m.width..(i + 1) * m.width;
                    let mut lo: HashSet<&[T]> = HashSet::new();
                    for (s, sure) in m.docs.values() {
                        if *sure {
                            lo.insert(&s[r.clone()]);
                        }
                    }
                    let low = lo.len();
                    for (s, _) in m.docs.values() {
                        lo.insert(&s[r.clone()]);
                    }
                    for s in m.stale.values() {
                        lo.extend(s[i].iter().map(|v| &v[..]));
                    }
                    let high = lo.len();
                    if b.sizes[i] < low || b.sizes[i] > high {
                        violate("buckets", format!("band {} has {} buckets; the documents in the index need {}{}", i, b.sizes[i], low, if high > low { format!("..{}", high) } else { String::new() }));
                        return;
                    }
                }
                digest(format!("b{:?}", b.sizes));
            }
            Err(e) => self.bad("band_sizes", e),
        }
    }

    fn exec(&self, op: &Op) {
        if self.sc.focus > 0 {
            arm_user_panics(match op {
                Op::Ins(..) => self.sc.focus == 1,
                Op::Bulk { .. } => self.sc.focus == 2,
                Op::Rem(..) | Op::BulkRem(..) => self.sc.focus == 3,
                _ => self.sc.focus == 4,
            });
        }
        if self.step(op) {
            let mut again = false;
            if self.sc.retry > 0 {
                // the caller tries again at once
                arm_user_panics(false);
                // (another client may have armed them again)
                again = self.step(op);
                arm_user_panics(true);
            }
            if self.sc.retry != 1 || again {
                simrt::atomically(|| self.redo.lock().unwrap().push(op.clone()));
            }
        }
    }
    /// Executes `op`; true if it is an update that was interrupted by an injected panic.
    fn step(&self, op: &Op) -> bool {
        if violated() {
            return false;
        }
        let mut interrupted = false;
        self.apply(op, &mut interrupted);
        interrupted
    }
    fn apply(&self, op: &Op, interrupted: &mut bool) {
        let n = self.sc.bands * self.sc.width;
        match op {
            Op::Ins(id, s) => {
                let sig = self.sig(s);
                let ok_len = sig.len() == n;
                let mut g = self.st.write().unwrap_or_else(|e| e.into_inner());
                let st = &mut *g;
                match guarded(|| st.idx.insert(SimId::new(*id), sig.clone())) {
                    Ok(()) if ok_len => st.m.put(*id, sig),
                    Ok(()) => violate("accepted", format!("insert accepted a signature of {} values, the index takes {}", sig.len(), n)),
                    Err(Fail::Panic(_)) if !ok_len => {}
                    Err(e) => {
                        self.bad("insert", e);
                        *interrupted = ok_len;
                        if ok_len {
                            self.settle(st, "insert", &[(*id, Some(sig))]);
                        }
                    }
                }
                self.size_check(st);
                self.ids_check(st, "insert");
            }
            Op::Bulk { pairs, items } => {
                let sigs: Vec<(u64, Vec<T>)> = items.iter().map(|(i, s)| (*i, self.sig(s))).collect();
                let ok_len = sigs.iter().all(|x| x.1.len() == n);
                let what = if *pairs { "par_bulk_insert_pairs" } else { "par_bulk_insert" };
                let mut g = self.st.write().unwrap_or_else(|e| e.into_inner());
                let st = &mut *g;
                let arg: Vec<(SimId, Vec<T>)> = sigs.iter().map(|(i, s)| (SimId::new(*i), s.clone())).collect();
                let r = guarded(|| {
                    if *pairs {
                        st.idx.par_bulk_insert_pairs(arg)
                    } else {
                        let (i, s) = arg.into_iter().unzip();
                        st.idx.par_bulk_insert(i, s)
                    }
                });
                match r {
                    Ok(()) if ok_len => {
                        for (i, s) in sigs {
                            st.m.put(i, s);
                        }
                    }
                    Ok(()) => violate("accepted", format!("{} accepted a signature of the wrong length", what)),
                    // a rejected batch leaves the index as it was: nothing to settle
                    Err(Fail::Panic(_)) if !ok_len => {}
                    Err(e) => {
                        self.bad(what, e);
                        *interrupted = ok_len;
                        let t: Vec<_> = sigs.into_iter().filter(|x| x.1.len() == n).map(|(i, s)| (i, Some(s))).collect();
                        if ok_len {
                            self.settle(st, what, &t);
                        }
                    }
                }
                self.size_check(st);
                self.ids_check(st, "a bulk insert");
            }
            Op::Rem(id) => {
                let mut g = self.st.write().unwrap_or_else(|e| e.into_inner());
                let st = &mut *g;
                match guarded(|| st.idx.remove(&SimId::new(*id))) {
                    Ok(r) => {
                        let e = st.m.del(*id);
                        if r != e {
                            violate("removed", format!("remove({}) returned {}, expected {}", id, show(r), show(e)));
                        }
                    }
                    Err(e) => {
                        self.bad("remove", e);
                        *interrupted = true;
                        self.settle(st, "remove", &[(*id, None)]);
                    }
                }
                self.size_check(st);
                self.ids_check(st, "remove");
            }
            Op::BulkRem(v) => {
                let mut g = self.st.write().unwrap_or_else(|e| e.into_inner());
                let st = &mut *g;
                let arg: Vec<SimId> = v.iter().map(|x| SimId::new(*x)).collect();
                match guarded(|| st.idx.bulk_remove(&arg)) {
                    Ok(r) => {
                        let e: Vec<Vec<T>> = v.iter().filter_map(|x| st.m.del(*x)).collect();
                        if r != e {
                            violate("removed", format!("bulk_remove({}) returned {} signatures, expected {} (in the order of the ids)", show(v), r.len(), e.len()));
                        }
                    }
                    Err(e) => {
                        self.bad("bulk_remove", e);
                        *interrupted = true;
                        let t: Vec<_> = v.iter().map(|x| (*x, None)).collect();
                        self.settle(st, "bulk_remove", &t);
                    }
                }
                self.size_check(st);
                drop(arg);
                self.ids_check(st, "bulk_remove");
            }
            Op::Clear => {
                let mut g = self.st.write().unwrap_or_else(|e| e.into_inner());
                let st = &mut *g;
                match guarded(|| st.idx.clear()) {
                    Ok(()) => {
                        st.m.docs.clear();
                        st.m.stale.clear();
                    }
                    Err(e) => self.bad("clear", e),
                }
                self.size_check(st);
                self.ids_check(st, "clear");
                self.band_check(st);
            }
            Op::Fit | Op::ShrinkTo(_) => {
                let mut g = self.st.write().unwrap_or_else(|e| e.into_inner());
                let st = &mut *g;
                let r = match op {
                    Op::ShrinkTo(k) => {
                        let r = guarded(|| st.idx.shrink_to(*k));
                        if r.is_ok() && *k <= st.idx.size() && st.idx.capacity() > 1 << 16 && st.idx.size() < 1 << 10 {
                            violate("size", format!("shrink_to({}) left capacity {} for {} documents", k, st.idx.capacity(), st.idx.size()));
                        }
                        r
                    }
                    _ => guarded(|| st.idx.shrink_to_fit()),
                };
                if let Err(e) = r {
                    self.bad("shrink", e);
                }
                self.size_check(st);
                self.band_check(st);
            }
            Op::Q(s, mask) => {
                let q = self.sig(s);
                let g = self.st.read().unwrap_or_else(|e| e.into_inner());
                if q.len() != n {
                    let _ = guarded(|| g.idx.query_owned(&q).len());
                    return;
                }
                self.query_forms(&g, &q, *mask);
            }
            Op::QId(id) => {
                let g = self.st.read().unwrap_or_else(|e| e.into_inner());
                self.by_id(&g, *id);
            }
            Op::TopK(s, k) => {
                let q = self.sig(s);
                let g = self.st.read().unwrap_or_else(|e| e.into_inner());
                if q.len() == n {
                    self.top_k(&g, &q, *k);
                }
            }
            Op::BulkQ(v, scored) => {
                let qs: Vec<Vec<T>> = v.iter().map(|s| self.sig(s)).collect();
                if qs.iter().any(|q| q.len() != n) {
                    return;
                }
                let g = self.st.read().unwrap_or_else(|e| e.into_inner());
                let st = &*g;
                if *scored {
                    match guarded(|| st.idx.par_bulk_query_return_similarity(&qs)) {
                        Err(e) => self.bad("par_bulk_query_return_similarity", e),
                        Ok(r) => {
                            if r.len() != qs.len() {
                                violate("bulk", format!("par_bulk_query_return_similarity: {} answers to {} queries", r.len(), qs.len()));
                                return;
                            }
                            for (i, q) in qs.iter().enumerate() {
                                let e = match simrt::atomically(|| std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| st.idx.query_owned_return_similarity(q)))) {
                                    Ok(e) => e,
                                    Err(e) => {
                                        self.bad("query_owned_return_similarity", classify(e));
                                        return;
                                    }
                                };
                                checked(1);
                                let c = |v: &Vec<(SimId, f64)>| {
                                    let mut x: Vec<(u64, i64)> = v.iter().map(|x| (x.0 .0, (x.1 * 1e9) as i64)).collect();
                                    x.sort();
                                    x
                                };
                                if c(&e) != c(&r[i]) || r[i].windows(2).any(|w| w[0].1 < w[1].1) {
                                    violate("bulk", format!("par_bulk_query_return_similarity: answer {} of {} is {}, the query alone gives {}", i, qs.len(), show(&r[i]), show(&e)));
                                    return;
                                }
                                digest(format!("B{:?}", c(&r[i])));
                            }
                        }
                    }
                } else {
                    match guarded(|| st.idx.par_bulk_query(&qs)) {
                        Err(e) => self.bad("par_bulk_query", e),
                        Ok(r) => {
                            if r.len() != qs.len() {
                                violate("bulk", format!("par_bulk_query: {} answers to {} queries", r.len(), qs.len()));
                                return;
                            }
                            for (i, q) in qs.iter().enumerate() {
                                let e = match simrt::atomically(|| std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| ids(st.idx.query_owned(q).iter())))) {
                                    Ok(e) => e,
                                    Err(e) => {
                                        self.bad("query_owned", classify(e));
                                        return;
                                    }
                                };
                                checked(1);
                                let got = ids(r[i].iter());
                                if got != e {
                                    violate("bulk", format!("par_bulk_query: answer {} of {} is {}, the query alone gives {}", i, qs.len(), show(&got), show(&e)));
                                    return;
                                }
                                digest(format!("B{:?}", got));
                            }
                        }
                    }
                }
            }
            Op::Centroid(v) => {
                let g = self.st.read().unwrap_or_else(|e| e.into_inner());
                let st = &*g;
                let present: Vec<&Vec<T>> = v.iter().filter_map(|x| st.m.docs.get(x)).map(|x| &x.0).collect();
                if present.is_empty() {
                    return;
                }
                let arg: Vec<SimId> = v.iter().map(|x| SimId::new(*x)).collect();
                match guarded(|| st.idx.calculate_centroid(&arg)) {
                    Err(e) => self.bad("calculate_centroid", e),
                    Ok(c) => {
                        checked(1);
                        if c.len() != n {
                            violate("centroid", format!("calculate_centroid: {} values instead of {}", c.len(), n));
                            return;
                        }
                        let w = self.sc.width;
                        for i in 0..self.sc.bands {
                            let mut cnt: HashMap<&[T], usize> = HashMap::new();
                            for s in &present {
                                *cnt.entry(&s[i * w..(i + 1) * w]).or_default() += 1;
                            }
                            let best = cnt.values().max().unwrap();
                            if cnt.get(&c[i * w..(i + 1) * w]) != Some(best) {
                                violate("centroid", format!("calculate_centroid: band {} of the centroid is not one of the most frequent", i));
                                return;
                            }
                        }
                    }
                }
            }
            Op::Sizes => {
                let g = self.st.read().unwrap_or_else(|e| e.into_inner());
                self.size_check(&g);
                self.band_check(&g);
            }
        }
    }

    /// Everything observable, against the model.
    fn audit(&self, probes: &[Vec<T>]) {
        if violated() {
            return;
        }
        let g = self.st.read().unwrap_or_else(|e| e.into_inner());
        let st = &*g;
        self.size_check(st);
        self.band_check(st);
        for (id, (s, _)) in &st.m.docs {
            checked(1);
            if st.idx.get_signature(&SimId::new(*id)) != Some(s) {
                violate("signature", format!("get_signature({}) is not the signature last inserted", id));
                return;
            }
        }
        // a query looks at every document of the shared buckets: keep the work of one run bounded
        let (from, keep) = (simrt::steps(), 40);
        // (a count where answers are compared between replicas: steps depend on the schedule)
        let replicated = self.sc.prop == "C18";
        let enough = |k: usize| if replicated { k >= 10 } else { k > 2 && simrt::steps() - from > AUDIT };
        let step = (st.m.docs.len() / keep).max(1);
        for (k, (id, (s, _))) in st.m.docs.iter().enumerate() {
            if k % step == 0 {
                if enough(k / step) {
                    break;
                }
                self.query_forms(st, s, ALL);
                self.by_id(st, *id);
                if violated() {
                    return;
                }
            }
        }
        for (k, q) in probes.iter().enumerate() {
            if enough(k) {
                break;
            }
            self.query_forms(st, q, if k % 2 == 0 { ALL } else { 3 });
            if violated() {
                return;
            }
        }
    }

    /// Faults have stopped: repeating what was interrupted must complete it.
    fn heal(&self) {
        simrt::faults_off();
        if violated() {
            return;
        }
        let ops = std::mem::take(&mut *self.redo.lock().unwrap());
        for op in &ops {
            self.step(op);
        }
        if violated() {
            return;
        }
        let mut g = self.st.write().unwrap_or_else(|e| e.into_inner());
        let st = &mut *g;
        let redo: Vec<(u64, Vec<T>)> = st.m.docs.iter().filter(|x| !x.1 .1).map(|x| (*x.0, x.1 .0.clone())).collect();
        let arg: Vec<(SimId, Vec<T>)> = redo.iter().map(|(i, s)| (SimId::new(*i), s.clone())).collect();
        match guarded(|| st.idx.par_bulk_insert_pairs(arg)) {
            Ok(()) => {
                for (i, s) in redo {
                    st.m.put(i, s);
                }
            }
            Err(e) => self.bad("par_bulk_insert_pairs (repeating an interrupted one)", e),
        }
    }
}

fn go<T: Ty, C: IdContainer<SimId> + 'static>(sc: Arc<Scenario>) {
    rayon_core::sim::set_threads(sc.sim.pool);
    let (b, w) = (sc.bands, sc.width);
    let idx: Idx<T, C> = match sc.ctor {
        0 => MinHashIndex::new_index(b, w, sc.thr),
        1 => MinHashIndex::new_with_capacity(b, w, sc.thr, sc.cap, 0.5),
        _ => MinHashIndex::new_with_capacity(b, w, sc.thr, sc.cap, 1.0),
    };
    let faulty = sc.sim.faults.iter().any(|f| f.0 as usize == simrt::fault::USER_PANIC);
    let run = Arc::new(Run::<T, C> {
        st: RwLock::new(State { idx, m: Model { bands: b, width: w, thr: sc.thr, docs: BTreeMap::new(), stale: BTreeMap::new() } }),
        sc: sc.clone(),
        faulty,
        redo: Mutex::new(vec![]),
    });
    arm_user_panics(false);
    for op in &sc.setup {
        run.exec(op);
    }
    arm_user_panics(faulty);
    if sc.clients.len() == 1 {
        for op in &sc.clients[0] {
            run.exec(op);
        }
    } else {
        let hs: Vec<_> = (0..sc.clients.len())
            .map(|c| {
                let run = run.clone();
                std::thread::spawn(move || {
                    for op in &run.sc.clients[c] {
                        run.exec(op);
                    }
                })
            })
            .collect();
        for h in hs {
            if h.join().is_err() {
                violate("panic", format!("client thread panicked: {}", last_panic()));
            }
        }
    }
    arm_user_panics(false);
    let mut probes: Vec<Vec<T>> = Vec::new();
    for op in sc.setup.iter().chain(sc.clients.iter().flatten()) {
        let mut add = |s: &Sig| {
            if probes.len() < 24 {
                let q = run.sig(s);
                if q.len() == b * w && !probes.contains(&q) {
                    probes.push(q)
                }
            }
        };
        match op {
            Op::Ins(_, s) | Op::Q(s, _) | Op::TopK(s, _) => add(s),
            Op::Bulk { items, .. } => {
                let k = (items.len() / 6).max(1);
                items.iter().step_by(k).for_each(|x| add(&x.1))
            }
            Op::BulkQ(v, _) => v.iter().take(3).for_each(add),
            _ => {}
        }
    }
    run.audit(&probes);
    if faulty {
        run.heal();
        run.audit(&probes);
    }
    rayon_core::sim::stop();
    drop(run);
    all_released("the index was dropped");
}

pub fn execute(sc: Arc<Scenario>) {
    macro_rules! d {
        ($t:ty) => {
            match sc.cont {
                0 => go::<$t, HashSetContainer<SimId>>(sc),
                1 => go::<$t, VecContainer<SimId>>(sc),
                2 => go::<$t, SmallVecContainer<SimId, 2>>(sc),
                _ => go::<$t, SeamContainer>(sc),
            }
        };
    }
    match sc.ty {
        0 => d!(u8),
        1 => d!(u16),
        2 => d!(u32),
        3 => d!(u64),
        _ => d!(i32),
    }
}

// ------------------------------------------------------------------ generation
struct Gen<'a> {
    r: &'a mut Rng,
    n: usize,
    width: usize,
    alpha: u32,
    fam: u32,
    next_id: u64,
    uniq: bool,
    live: Vec<u64>,
}
impl<'a> Gen<'a> {
    fn sig(&mut self) -> Sig {
        let b = self.r.below(self.fam as u64) as u32;
        let mut m = Vec::new();
        match self.r.below(6) {
            0 => {}
            1 | 2 => {
                for _ in 0..self.r.range(1, 3) {
                    m.push((self.r.below(self.n as u64) as u16, self.r.below(self.alpha.min(250) as u64) as u8));
                }
            }
            3 | 4 => {
                // disturb all bands but a few: borderline candidates
                let nb = self.n / self.width;
                let keep = self.r.below(nb as u64) as usize;
                for i in 0..nb {
                    if i != keep && self.r.chance(3, 4) {
                        m.push(((i * self.width + self.r.below(self.width as u64) as usize) as u16, self.r.below(250) as u8));
                    }
                }
            }
            _ => {
                // half of the positions: around common thresholds
                let k = self.r.below(self.n as u64 + 1);
                for i in 0..k {
                    m.push((i as u16, (200 + self.r.below(50)) as u8));
                }
            }
        }
        Sig { b, m, d: 0 }
    }
    fn fresh(&mut self) -> Sig {
        Sig { b: 1_000_000 + self.r.below(1 << 30) as u32, m: vec![], d: 0 }
    }
    fn id(&mut self) -> u64 {
        if !self.uniq && !self.live.is_empty() && self.r.chance(1, 4) {
            return self.some_id();
        }
        self.next_id += 1;
        let id = self.next_id;
        self.live.push(id);
        id
    }
    fn some_id(&mut self) -> u64 {
        if self.live.is_empty() || self.r.chance(1, 10) {
            return self.next_id + 1000 + self.r.below(5);
        }
        *self.r.pick(&self.live)
    }
    fn ins(&mut self) -> Op {
        let id = self.id();
        let s = self.sig();
        Op::Ins(id, s)
    }
    fn batch(&mut self, tier: u32) -> usize {
        let k = self.r.below(100);
        (match k {
            0..=4 => 0,
            5..=14 => 1,
            15..=49 => self.r.range(2, 12),
            50..=79 => self.r.range(10, 60),
            80..=93 => self.r.range(60, 150),
            94..=96 => self.r.range(150, 600),
            97..=98 => {
                let hi = if tier > 0 { 5000 } else { 2600 };
                self.r.range(600, hi)
            }
            _ => self.r.range(2600, 20_000),
        }) as usize
    }
    fn bulk(&mut self, tier: u32) -> Op {
        let mut k = self.batch(tier);
        // keep the work of one run bounded
        k = k.min(if tier > 0 { 300_000 } else { 80_000 } / (self.n / self.width * (3 + self.width)));
        let same = self.r.chance(1, 12); // one huge bucket
        let s0 = self.sig();
        let items = (0..k)
            .map(|_| {
                let s = if same {
                    s0.clone()
                } else if k > 200 && self.r.chance(3, 4) {
                    self.fresh()
                } else {
                    self.sig()
                };
                (self.id(), s)
            })
            .collect();
        Op::Bulk { pairs: self.r.chance(1, 2), items }
    }
    fn q(&mut self) -> Op {
        match self.r.below(10) {
            0..=5 => {
                let s = self.sig();
                Op::Q(s, 1 + self.r.below(ALL as u64) as u32)
            }
            6..=7 => Op::QId(self.some_id()),
            8 => {
                let s = self.sig();
                let k = *self.r.pick(&[0usize, 1, 2, 3, 5, 10, 100]);
                Op::TopK(s, k)
            }
            _ => Op::Sizes,
        }
    }
    fn bulkq(&mut self, tier: u32) -> Op {
        // (a query costs at least the bands; answers of large indexes cost more)
        let most = (40_000 / (self.n + 8)).min(40_000 / (self.live.len() + 8)).max(8);
        let k = self.batch(tier).min(most);
        let few = self.r.chance(1, 3);
        let pool: Vec<Sig> = (0..4).map(|_| self.sig()).collect();
        let v = (0..k)
            .map(|_| {
                if few && self.r.chance(2, 3) {
                    self.r.pick(&pool).clone()
                } else if k > 300 && self.r.chance(3, 4) {
                    self.fresh()
                } else {
                    self.sig()
                }
            })
            .collect();
        Op::BulkQ(v, self.r.chance(1, 2))
    }
    fn rem_all(&mut self) -> Op {
        let mut v = self.live.clone();
        v.sort();
        v.dedup();
        Op::BulkRem(v)
    }
    fn bulkrem(&mut self) -> Op {
        if self.r.chance(1, 12) {
            return self.rem_all();
        }
        let k = match self.r.below(8) {
            0 => 0,
            1 => self.live.len() * 2,
            2 => self.r.range(1, self.live.len().max(20) as u64) as usize,
            _ => self.r.range(1, 20) as usize,
        };
        let mut v: Vec<u64> = (0..k).map(|_| self.some_id()).collect();
        if self.r.chance(1, 3) {
            v.sort();
            v.dedup();
        }
        Op::BulkRem(v)
    }
}

pub fn generate(prop: &str, r: &mut Rng, tier: u32) -> Scenario {
    if prop == "C22" {
        let like = *r.pick(&["C01", "C03", "C03", "C05", "C05", "C06"]);
        let mut sc = generate(like, r, tier);
        sc.prop = prop.into();
        return sc;
    }
    let mut sim = SimCfg::gen(r);
    // thousands of documents in one bucket
    let crowd = matches!(prop, "C01" | "C02" | "C03" | "C04" | "C06") && r.chance(1, if prop == "C03" { 250 } else { 120 });
    let bands = if crowd {
        r.range(1, 4) as usize
    } else {
         pickw(r, &[(1usize, 2), (2, 3), (3, 4), (4, 4), (5, 3), (7, 2), (8, 3), (12, 2), (20, 2), (33, 1), (42, 1), (60, 1), (100, 1)])
    };
    let width = if crowd {
        1 + r.below(2) as usize
    } else {
         pickw(r, &[(1usize, 3), (2, 4), (3, 3), (4, 1), (5, 1), (8, 1)])
    };
    let n = bands * width;
    let thr = match r.below(4) {
        0 => *r.pick(&[0.0, 0.25, 0.5, 0.5, 0.75, 1.0]),
        1 => *r.pick(&[0.1, 0.3, 0.35, 0.55, 0.6, 0.7, 0.8, 0.85, 0.9, 0.95, 0.99]),
        _ => r.below(n as u64 + 1) as f64 / n as f64,
    };
    let alpha = pickw(r, &[(2u32, 3), (3, 3), (5, 2), (40, 2), (1000, 2)]);
    let mut sc = Scenario {
        prop: prop.into(),
        ty: r.below(5) as u8,
        cont: r.below(3) as u8,
        ctor: 0,
        cap: 0,
        bands,
        width,
        thr,
        alpha,
        setup: vec![],
        clients: vec![],
        replicas: vec![],
        retry: 0,
        focus: 0,
        sim: sim.clone(),
    };
    if r.chance(1, 4) {
        sc.ctor = 1 + r.below(2) as u8;
        sc.cap = *r.pick(&[0usize, 1, 10, 100, 5000]);
    }
    let uniq = r.chance(1, 2);
    let mut g = Gen { n, width, alpha, fam: *r.pick(&[1u32, 2, 4, 8]), next_id: 0, uniq, live: vec![], r };
    let nset = g.r.below(20);
    let setup_bulk = |g: &mut Gen, sc: &mut Scenario| {
        for _ in 0..nset {
            let op = g.ins();
            sc.setup.push(op);
        }
    };
    if crowd {
        let k = g.r.range(1000, 9000);
        let few: Vec<Sig> = {
            let m = g.r.range(1, 3);
            (0..m).map(|_| g.sig()).collect()
        };
        let items = (0..k)
            .map(|_| {
                g.next_id += 1;
                g.live.push(g.next_id);
                (g.next_id, few[g.r.below(few.len() as u64) as usize].clone())
            })
            .collect();
        sc.setup.push(Op::Bulk { pairs: g.r.chance(1, 2), items });
    }
    match prop {
        "C01" => {
            setup_bulk(&mut g, &mut sc);
            let nc = pickw(g.r, &[(1usize, 4), (2, 2), (3, 1)]);
            for c in 0..nc {
                let mut ops = vec![];
                let k = g.r.range(1, 4);
                for _ in 0..k {
                    if c == 0 {
                        ops.push(g.bulk(tier));
                        if g.r.chance(1, 3) {
                            ops.push(g.ins());
                        }
                    } else if g.r.chance(1, 3) {
                        ops.push(g.bulk(tier))
                    }
                    for _ in 0..g.r.below(3) {
                        ops.push(g.q());
                    }
                }
                sc.clients.push(ops);
            }
        }
        "C02" => {
            setup_bulk(&mut g, &mut sc);
            if g.r.chance(1, 12) {
                for _ in 0..g.r.range(100, 700) {
                    let op = g.ins();
                    sc.setup.push(op);
                }
            }
            let nc = g.r.range(1, 4);
            for _ in 0..nc {
                let mut ops = vec![];
                for _ in 0..g.r.range(2, 12) {
                    ops.push(match g.r.below(10) {
                        0..=1 => g.ins(),
                        2 => Op::Rem(g.some_id()),
                        _ => g.q(),
                    });
                }
                sc.clients.push(ops);
            }
        }
        "C03" => {
            setup_bulk(&mut g, &mut sc);
            if g.r.chance(1, 8) {
                let op = g.bulk(tier);
                sc.setup.push(op);
            }
            if g.r.chance(1, 10) {
                let s = g.sig();
                for _ in 0..g.r.range(20, 300) {
                    let id = g.id();
                    sc.setup.push(Op::Ins(id, s.clone()));
                }
            }
            let nc = pickw(g.r, &[(1usize, 4), (2, 2), (3, 1)]);
            for _ in 0..nc {
                let mut ops = vec![];
                for _ in 0..g.r.range(2, 10) {
                    ops.push(match g.r.below(10) {
                        0..=2 => g.bulkrem(),
                        3..=4 => Op::Rem(g.some_id()),
                        5..=7 => g.ins(),
                        _ => g.q(),
                    });
                }
                sc.clients.push(ops);
            }
        }
        "C04" => {
            setup_bulk(&mut g, &mut sc);
            for _ in 0..g.r.below(6) {
                let op = if g.r.chance(1, 2) { Op::Rem(g.some_id()) } else { g.ins() };
                sc.setup.push(op);
            }
            let nc = g.r.range(1, 3);
            for _ in 0..nc {
                let mut ops = vec![];
                for _ in 0..g.r.range(1, 4) {
                    ops.push(match g.r.below(8) {
                        0 => g.ins(),
                        1 => g.q(),
                        _ => g.bulkq(tier),
                    });
                }
                sc.clients.push(ops);
            }
        }
        "C05" => {
            setup_bulk(&mut g, &mut sc);
            sc.cont = g.r.below(4) as u8;
            sc.retry = g.r.below(3) as u8;
            let inject = g.r.chance(4, 5);
            if inject {
                sc.focus = if g.r.chance(1, 2) { 0 } else { *g.r.pick(&[1u8, 2, 3, 3, 4]) };
                let ppm = match sc.focus {
                    1 | 3 => *g.r.pick(&[20000u32, 100000, 300000]),
                    _ => *g.r.pick(&[500u32, 3000, 20000, 100000]),
                };
                if sc.focus == 3 && g.r.chance(3, 4) {
                    sc.cont = 3;
                }
                sim.faults.push((simrt::fault::USER_PANIC as u8, ppm));
                sim.maxf = g.r.range(1, 5) as u32;
            }
            let nc = pickw(g.r, &[(1usize, 4), (2, 2), (3, 1)]);
            for _ in 0..nc {
                let mut ops = vec![];
                for _ in 0..g.r.range(2, 10) {
                    let mut op = match g.r.below(12) {
                        0..=5 if sc.focus == 3 => {
                            if g.r.chance(1, 2) {
                                Op::Rem(g.some_id())
                            } else {
                                g.bulkrem()
                            }
                        }
                        0..=1 => g.ins(),
                        2..=5 => g.bulk(0),
                        6 => Op::Rem(g.some_id()),
                        7 => g.bulkrem(),
                        8 => g.bulkq(0),
                        9 => Op::Fit,
                        _ => g.q(),
                    };
                    if g.r.chance(1, 4) {
                        let d = *g.r.pick(&[-1i8, 1, -3, 7, -100]);
                        match &mut op {
                            Op::Ins(_, s) => s.d = d,
                            Op::Bulk { items, .. } if !items.is_empty() => {
                                let k = g.r.below(items.len() as u64) as usize;
                                items[k].1.d = d;
                            }
                            Op::Q(s, _) => s.d = d,
                            _ => {}
                        }
                    }
                    ops.push(op);
                }
                sc.clients.push(ops);
            }
        }
        "C06" => {
            setup_bulk(&mut g, &mut sc);
            if g.r.chance(1, 3) {
                let op = g.bulk(tier);
                sc.setup.push(op);
            }
            sc.ctor = g.r.below(3) as u8;
            sc.cap = *g.r.pick(&[0usize, 1, 10, 100, 5000]);
            let nc = pickw(g.r, &[(1usize, 4), (2, 2), (3, 1)]);
            for _ in 0..nc {
                let mut ops = vec![];
                for _ in 0..g.r.range(2, 10) {
                    if g.r.chance(1, 10) {
                        let op = g.rem_all();
                        ops.push(op);
                    }
                    ops.push(match g.r.below(12) {
                        0..=1 => Op::Fit,
                        2..=4 => Op::ShrinkTo(*g.r.pick(&[0usize, 1, 2, 5, 20, 100, 500, 900, 1500, 100000])),
                        5 => {
                            if g.r.chance(1, 2) {
                                Op::Clear
                            } else {
                                Op::Fit
                            }
                        }
                        6..=7 => g.ins(),
                        8 => Op::Rem(g.some_id()),
                        9 => g.bulk(0),
                        _ => g.q(),
                    });
                }
                sc.clients.push(ops);
            }
        }
        _ => {
            // C18: one client, everything, several replicas
            setup_bulk(&mut g, &mut sc);
            let mut ops = vec![];
            for _ in 0..g.r.range(3, 12) {
                ops.push(match g.r.below(12) {
                    0..=1 => g.ins(),
                    2..=3 => g.bulk(0),
                    4 => Op::Rem(g.some_id()),
                    5 => g.bulkrem(),
                    6 => g.bulkq(0),
                    7 => {
                        let k = match g.r.below(10) {
                            0..=6 => g.r.range(1, 8),
                            7 | 8 => g.r.range(8, 60),
                            _ => g.r.range(200, 700),
                        };
                        if k > 100 && g.r.chance(2, 3) {
                            // many of few
                            let few: Vec<u64> = (0..3).map(|_| g.some_id()).collect();
                            Op::Centroid((0..k).map(|i| few[[0, 0, 0, 1, 1, 1, 1, 2][i as usize % 8]]).collect())
                        } else {
                            Op::Centroid((0..k).map(|_| g.some_id()).collect())
                        }
                    }
                    8 => Op::Sizes,
                    9 => Op::Fit,
                    _ => g.q(),
                });
            }
            sc.clients.push(ops);
            for _ in 0..2 {
                let mut s = SimCfg::gen(g.r);
                s.faults.clear();
                sc.replicas.push(s);
            }
        }
    }
    sc.sim = sim;
    sc
}
