//! Document loading (C15-C17): MinHashStringIndex fed from readers and files whose reads are
//! fragmented, interrupted, cut off or failing, one at a time and in parallel.
use crate::common::*;
use gaoya::minhash::{MinHashStringIndex, MinHasher, MinHasher64V1};
use gaoya::text::whitespace_split;
use serde::{Deserialize, Serialize};
use simrt::{fault, Rng};
use std::collections::BTreeMap;
use std::io::{BufReader, Read};
use std::sync::Arc;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Line {
    pub w: Vec<u16>,
    /// extra bytes, to make long lines
    #[serde(default)]
    pub pad: u32,
    /// 0 plain, 1 not UTF-8, 2 multi-byte characters, 3 leading/trailing blanks, 4 a lone \r inside,
    /// 5 ends with \r, 6 other separators and NUL, 7 ends within a character, 8 starts with a BOM,
    /// 9 punctuation between the words
    #[serde(default)]
    pub kind: u8,
    /// 0 "\n", 1 "\r\n", 2 nothing (meaningful on the last line)
    #[serde(default)]
    pub end: u8,
}
impl Line {
    fn content(&self) -> Vec<u8> {
        let mut v: Vec<u8> = Vec::new();
        if self.kind == 3 {
            v.extend(b"  ");
        }
        if self.kind == 8 {
            v.extend("\u{feff}".bytes());
        }
        for (i, w) in self.w.iter().enumerate() {
            if i > 0 {
                v.push(if self.kind == 9 { b",;.-"[i % 4] } else { b' ' });
            }
            if self.kind == 2 {
                v.extend(format!("сл{}→𝕏", w).bytes());
            } else {
                v.extend(format!("w{}", w).bytes());
            }
            if self.kind == 4 && i == 0 {
                v.extend(b"\r");
            }
        }
        if self.pad > 0 {
            v.push(b' ');
            v.extend(std::iter::repeat(b'x').take(self.pad as usize));
        }
        if self.kind == 3 {
            v.extend(b"\t ");
        }
        match self.kind {
            5 => v.push(b'\r'),
            6 => v.extend("a\u{2028}b\u{85}c\u{b}d\u{c}e\0f\u{1c}\u{fffd}".bytes()),
            7 => v.extend(&"w→".as_bytes()[..3]),
            _ => {}
        }
        if self.kind == 1 {
            v.extend([b' ', 0xC3, 0x28, 0xFF]);
        }
        v
    }
    fn raw(&self) -> Vec<u8> {
        let mut v = self.content();
        match self.end {
            0 => v.push(b'\n'),
            1 => v.extend(b"\r\n"),
            _ => {}
        }
        v
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Ins(Vec<u16>),
    Reader { src: Vec<Line>, cap: usize },
    /// odd: 1 the file's attributes say 0 bytes (a pipe, /proc), 2 half of them (it grew)
    File {
        src: Vec<Line>,
        par: bool,
        #[serde(default)]
        odd: u8,
    },
    /// a path that is not there (0) or is a directory (1)
    NoFile { what: u8, par: bool },
    Q(Vec<u16>),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Scenario {
    pub prop: String,
    pub sim: SimCfg,
    pub bands: usize,
    pub width: usize,
    pub thr: f64,
    pub ops: Vec<Op>,
}

/// The lines of `b` that are UTF-8, as text without their terminator. `whole`: only terminated ones.
fn lines_of(b: &[u8], whole: bool) -> Vec<String> {
    let mut out = vec![];
    let mut rest = b;
    while !rest.is_empty() {
        let (l, r) = match rest.iter().position(|&c| c == b'\n') {
            Some(k) => {
                let mut l = &rest[..k];
                if l.last() == Some(&b'\r') {
                    l = &l[..k - 1];
                }
                (l, &rest[k + 1..])
            }
            None => {
                if whole {
                    break;
                }
                (rest, &rest[..0])
            }
        };
        if let Ok(s) = std::str::from_utf8(l) {
            out.push(s.to_string());
        }
        rest = r;
    }
    out
}

/// A caller's reader: delivers the source in pieces of the simulator's choosing and fails as it says.
struct SimReader {
    data: Vec<u8>,
    pos: usize,
    stuck: bool,
    after: u64,
    err_at: Arc<std::sync::Mutex<Option<usize>>>,
    eof_at: Arc<std::sync::Mutex<Option<usize>>>,
    /// bytes handed out before the current call, whether that call panicked, whether the end was told
    given: Arc<std::sync::Mutex<(usize, bool, bool)>>,
}
impl Read for SimReader {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        use std::io::{Error, ErrorKind};
        simrt::seam();
        let mark = |me: &Self, b| simrt::atomically(|| {
            let mut g = me.given.lock().unwrap();
            *g = (me.pos, b, g.2);
        });
        mark(self, true);
        user_seam();
        mark(self, false);
        simrt::atomically(|| {
            let hard = |me: &mut Self| {
                me.err_at.lock().unwrap().get_or_insert(me.pos);
            };
            if self.stuck {
                self.after += 1;
                if self.after > 100_000 {
                    simrt::fatal("no-progress", "the load keeps reading from a source that has failed for good (100000 reads)");
                }
                return Err(Error::new(ErrorKind::Other, "source failed"));
            }
            let end = self.eof_at.lock().unwrap().unwrap_or(self.data.len());
            if !buf.is_empty() && self.pos < end {
                if simrt::fault_here(fault::READ_EIO_STUCK, 1) != 0 {
                    self.stuck = true;
                    hard(self);
                    return Err(Error::new(ErrorKind::Other, "source failed"));
                }
                let v = simrt::fault_here(fault::READ_EIO_ONCE, 4);
                if v != 0 {
                    hard(self);
                    let k = [ErrorKind::Other, ErrorKind::TimedOut, ErrorKind::ConnectionReset, ErrorKind::WouldBlock][v as usize - 1];
                    return Err(Error::new(k, "source hiccup"));
                }
                if simrt::fault_here(fault::EARLY_EOF, 1) != 0 {
                    *self.eof_at.lock().unwrap() = Some(self.pos);
                    self.given.lock().unwrap().2 = true;
                    return Ok(0);
                }
                if simrt::fault_here(fault::READ_EINTR, 1) != 0 {
                    return Err(Error::from(ErrorKind::Interrupted));
                }
            }
            let mut k = (end - self.pos).min(buf.len());
            if k > 1 && simrt::fault_here(fault::READ_SHORT, 1) != 0 {
                k = 1 + simrt::choose((k - 1).min(64) as u32) as usize;
            }
            if k == 0 && !buf.is_empty() {
                self.given.lock().unwrap().2 = true;
            }
            buf[..k].copy_from_slice(&self.data[self.pos..self.pos + k]);
            self.pos += k;
            Ok(k)
        })
    }
}

struct Model {
    bands: usize,
    width: usize,
    thr: f64,
    h: MinHasher64V1<fnv::FnvBuildHasher>,
    docs: Vec<(String, Vec<u64>)>,
}
impl Model {
    fn add(&mut self, s: &str) {
        let sig = self.h.create_signature(whitespace_split(s));
        self.docs.push((s.to_string(), sig));
    }
    /// (certainly in, possibly in) with multiplicities
    fn query(&self, q: &str) -> (BTreeMap<String, usize>, BTreeMap<String, usize>) {
        let q = self.h.create_signature(whitespace_split(q));
        let (mut must, mut may) = (BTreeMap::new(), BTreeMap::new());
        for (t, s) in &self.docs {
            if !(0..self.bands).any(|i| s[i * self.width..(i + 1) * self.width] == q[i * self.width..(i + 1) * self.width]) {
                continue;
            }
            let m = s.iter().zip(&q).filter(|(a, b)| a == b).count() as f64;
            let n = s.len() as f64;
            let (x, y) = (m / n >= self.thr, m >= self.thr * n);
            if x && y {
                *must.entry(t.clone()).or_default() += 1;
            }
            if x || y {
                *may.entry(t.clone()).or_default() += 1;
            }
        }
        (must, may)
    }
}

fn ask(idx: &MinHashStringIndex, m: &Model, q: &str) {
    match guarded(|| idx.query(q).into_iter().map(|s| s.as_str()).collect::<Vec<&str>>()) {
        Err(Fail::Panic(p)) => violate("panic", format!("query({}) panicked: {}", show(q), p)),
        Err(Fail::Injected) => {}
        Ok(r) => {
            checked(1);
            let mut got: BTreeMap<String, usize> = BTreeMap::new();
            for s in r {
                *got.entry(s.to_string()).or_default() += 1;
            }
            let (must, may) = m.query(q);
            for (t, n) in &must {
                if got.get(t).copied().unwrap_or(0) < *n {
                    violate("missing", format!("query({}): {} comes {} times, {} such documents were loaded", show(q), show(t), got.get(t).copied().unwrap_or(0), n));
                    return;
                }
            }
            for (t, n) in &got {
                if may.get(t).copied().unwrap_or(0) < *n {
                    violate("extra", format!("query({}): {} comes {} times, {} such documents were loaded", show(q), show(t), n, may.get(t).copied().unwrap_or(0)));
                    return;
                }
            }
        }
    }
}

fn words(w: &[u16]) -> String {
    w.iter().map(|x| format!("w{}", x)).collect::<Vec<_>>().join(" ")
}

pub fn execute(sc: Arc<Scenario>) {
    rayon_core::sim::set_threads(sc.sim.pool);
    arm_user_panics(false);
    let mut idx = MinHashStringIndex::new(sc.bands, sc.width, sc.thr);
    let mut m = Model { bands: sc.bands, width: sc.width, thr: sc.thr, h: MinHasher64V1::new(sc.bands * sc.width), docs: vec![] };
    for (oi, op) in sc.ops.iter().enumerate() {
        if violated() {
            break;
        }
        match op {
            Op::Ins(w) => {
                let t = words(w);
                match guarded(|| idx.insert(t.clone())) {
                    Ok(()) => m.add(&t),
                    Err(Fail::Panic(p)) => violate("panic", format!("insert panicked: {}", p)),
                    Err(_) => {}
                }
            }
            Op::Reader { src, cap } => {
                let data: Vec<u8> = src.iter().flat_map(|l| l.raw()).collect();
                let (err, eof) = (Arc::new(std::sync::Mutex::new(None)), Arc::new(std::sync::Mutex::new(None)));
                let given = Arc::new(std::sync::Mutex::new((0usize, false, false)));
                let rd = SimReader { data: data.clone(), pos: 0, stuck: false, after: 0, err_at: err.clone(), eof_at: eof.clone(), given: given.clone() };
                let before = idx.size();
                arm_user_panics(true);
                let r = guarded(|| {
                    let mut br = BufReader::with_capacity(*cap, rd);
                    idx.load_from_lines(&mut br);
                });
                arm_user_panics(false);
                let err: Option<usize> = *err.lock().unwrap();
                let eof: Option<usize> = *eof.lock().unwrap();
                match r {
                    Err(Fail::Panic(p)) => violate("panic", format!("load_from_lines panicked: {}", p)),
                    Err(Fail::Injected) => {
                        // the caller's reader panicked: any leading part of the complete lines may be there
                        let g = *given.lock().unwrap();
                        let had = lines_of(&data[..g.0], !g.2);
                        let k = idx.size() as i64 - before as i64;
                        checked(1);
                        if k < 0 || k as usize > had.len() {
                            violate("count", format!("the reader panicked after {} complete lines; size went from {} to {}", had.len(), before, idx.size()));
                        } else {
                            for l in &had[..k as usize] {
                                m.add(l);
                            }
                        }
                    }
                    Ok(()) => {
                        if given.lock().unwrap().1 {
                            violate("swallowed", "the reader panicked, load_from_lines returned".into());
                        }
                        let end = err.or(eof).unwrap_or(data.len());
                        for l in lines_of(&data[..end], err.is_some()) {
                            m.add(&l);
                        }
                    }
                }
            }
            Op::File { .. } | Op::NoFile { .. } => {
                let (par, path, data) = match op {
                    Op::File { src, par, odd } => {
                        let data: Vec<u8> = src.iter().flat_map(|l| l.raw()).collect();
                        let path = format!("{}f{}", simrt::interpose::prefix(), oi);
                        let shown = match odd {
                            0 => data.len(),
                            1 => 0,
                            _ => data.len() / 2,
                        };
                        simrt::interpose::put_file(&path, data.clone(), shown);
                        (*par, path, Some(data))
                    }
                    Op::NoFile { what, par } => {
                        let path = format!("{}{}", simrt::interpose::prefix(), if *what == 0 { "missing" } else { "some/dir" });
                        if *what != 0 {
                            simrt::interpose::put_dir(&path);
                        }
                        (*par, path, None)
                    }
                    _ => unreachable!(),
                };
                let before = idx.size();
                let _ = simrt::interpose::take_log();
                let name = if par { "load_from_file_parallel" } else { "load_from_file" };
                let r = guarded(|| if par { idx.load_from_file_parallel(&path) } else { idx.load_from_file(&path) });
                let log = simrt::interpose::take_log();
                match r {
                    Err(Fail::Panic(p)) => violate("panic", format!("{} panicked: {}", name, p)),
                    Err(_) => {}
                    Ok(r) => {
                        checked(1);
                        let failed = log.opened == 0 || log.err_at.is_some();
                        let mut n = 0;
                        if let (Some(data), true) = (&data, log.opened > 0) {
                            let end = log.err_at.unwrap_or(if log.early_eof > 0 { log.last_eof_at } else { data.len() });
                            // a failed parallel load adds nothing, a failed sequential one keeps the whole lines before the failure
                            if !(par && failed) {
                                for l in lines_of(&data[..end], failed) {
                                    m.add(&l);
                                    n += 1;
                                }
                            }
                        }
                        match (failed, &r) {
                            (true, Ok(k)) => violate("unreported", format!("{} returned Ok({}) although {}", name, k, if log.opened == 0 { "the file could not be opened".into() } else { format!("reading failed after {} bytes", log.err_at.unwrap_or(0)) })),
                            (false, Err(e)) => violate("unreported", format!("{} of a readable file returned {:?}", name, e)),
                            (false, Ok(k)) if *k != n => violate("count", format!("{} returned Ok({}), the file has {} documents", name, k, n)),
                            _ => {}
                        }
                        if idx.size() != before + n && !violated() {
                            violate("count", format!("{}: size went from {} to {}, {} documents should have been added", name, before, idx.size(), n));
                        }
                    }
                }
            }
            Op::Q(w) => ask(&idx, &m, &words(w)),
        }
        if !violated() && idx.size() != m.docs.len() {
            violate("count", format!("size() is {}, {} documents were loaded (after {})", idx.size(), m.docs.len(), show(op)));
        }
    }
    simrt::faults_off();
    if !violated() {
        // concurrent readers ask for everything that was loaded and for lines that may have been lost
        let mut qs: Vec<String> = m.docs.iter().map(|d| d.0.clone()).collect();
        qs.sort();
        qs.dedup();
        let mut other: Vec<String> = vec![];
        for op in &sc.ops {
            let src = match op {
                Op::Reader { src, .. } | Op::File { src, .. } => src,
                _ => continue,
            };
            for l in src {
                if let Ok(t) = String::from_utf8(l.content()) {
                    let half = (0..=t.len() / 2).rev().find(|&k| t.is_char_boundary(k)).unwrap_or(0);
                    other.push(t[half..].to_string());
                    other.push(t);
                }
            }
        }
        let k = other.len() / 30 + 1;
        // some documents, lines as they were in the sources, then all documents while the work of the run is bounded
        qs.sort_by_key(|q| mix(sc.sim.seed ^ q.len() as u64, q.bytes().fold(7u64, |h, b| h.wrapping_mul(31).wrapping_add(b as u64))));
        let more = qs.split_off(qs.len().min(40));
        qs.extend(other.into_iter().step_by(k));
        let sure = qs.len();
        qs.extend(more);
        let from = simrt::steps();
        let sh = Arc::new((idx, m, qs));
        let hs: Vec<_> = (0..2)
            .map(|t| {
                let sh = sh.clone();
                std::thread::spawn(move || {
                    for (i, q) in sh.2.iter().enumerate() {
                        if i >= sure && simrt::steps() - from > 3_000_000 {
                            break;
                        }
                        if i % 2 == t && !violated() {
                            ask(&sh.0, &sh.1, q);
                        }
                    }
                })
            })
            .collect();
        for h in hs {
            if h.join().is_err() && !violated() {
                violate("panic", format!("query thread panicked: {}", last_panic()));
            }
        }
    }
    rayon_core::sim::stop();
}

pub fn generate(prop: &str, r: &mut Rng, tier: u32) -> Scenario {
    let mut sim = SimCfg::gen(r);
    let (bands, width) = *r.pick(&[(3usize, 2usize), (5, 1), (8, 2), (20, 1), (42, 3)]);
    let thr = *r.pick(&[0.2, 0.5, 0.75, 1.0]);
    let vocab = *r.pick(&[4u64, 12, 60]);
    let hash_n = (bands * width) as u64;
    let mut base: Vec<Vec<u16>> = vec![];
    let mut gen_line = |r: &mut Rng, base: &mut Vec<Vec<u16>>| -> Line {
        let w: Vec<u16> = if !base.is_empty() && r.chance(1, 2) {
            let mut w = r.pick(base).clone();
            if !w.is_empty() && r.chance(2, 3) {
                let k = r.below(w.len() as u64) as usize;
                w[k] = r.below(vocab) as u16;
            }
            w
        } else {
            let n = match r.below(8) {
                0 => 0,
                1 => 1,
                _ => r.range(2, 9),
            };
            (0..n).map(|_| r.below(vocab) as u16).collect()
        };
        base.push(w.clone());
        let pad = match r.below(30) {
            0 if r.chance(1, 10) => r.range(20_000, 70_000),
            0 => r.range(8100, 8300),
            1 => r.range(100, 600),
            2 if tier > 0 => r.range(10_000, 40_000),
            _ => 0,
        } as u32;
        let kind = match r.below(16) {
            0 | 1 if prop != "C15" || r.chance(1, 2) => 1,
            2 | 3 => 2,
            4 => 3,
            5 => 4,
            6 => 5 + r.below(5) as u8,
            _ => 0,
        };
        Line { w, pad, kind, end: if r.chance(1, 5) { 1 } else { 0 } }
    };
    let mut gen_src = |r: &mut Rng, base: &mut Vec<Vec<u16>>| -> Vec<Line> {
        let n = match r.below(12) {
            0 => 0,
            1 => 1,
            2..=8 => r.range(2, 15),
            9 | 10 => r.range(15, 60),
            _ if r.chance(1, 3) => r.range(500, if tier > 0 { 3000 } else { 1500 }),
            _ => r.range(60, if tier > 0 { 600 } else { 250 }),
        };
        let n = n.min(60_000 / (hash_n * 5));
        let mut v: Vec<Line> = (0..n).map(|_| gen_line(r, base)).collect();
        if n > 250 {
            // mostly unrelated lines, so that all of them can be asked for
            for l in &mut v {
                l.pad = l.pad.min(40);
                if r.chance(9, 10) {
                    l.w = (0..r.range(2, 5)).map(|_| 1000 + r.below(60_000) as u16).collect();
                }
            }
        }
        if let Some(l) = v.last_mut() {
            if r.chance(1, 3) {
                l.end = 2;
            }
        }
        v
    };
    let mut file = |r: &mut Rng, base: &mut Vec<Vec<u16>>, par: bool| -> Op {
        let src = gen_src(r, base);
        let odd = if r.chance(1, 6) { 1 + r.below(2) as u8 } else { 0 };
        Op::File { src, par, odd }
    };
    let reader = |f: Op, cap: usize| match f {
        Op::File { src, .. } => Op::Reader { src, cap },
        op => op,
    };
    let mut ops = vec![];
    for _ in 0..r.range(1, 5) {
        let op = match prop {
            "C15" => match r.below(6) {
                0 => Op::Ins((0..r.below(6)).map(|_| r.below(vocab) as u16).collect()),
                1 => file(r, &mut base, false),
                2 => {
                    let par = r.chance(1, 2);
                    file(r, &mut base, par)
                }
                _ => reader(file(r, &mut base, false), *r.pick(&[1usize, 2, 3, 7, 64, 1024, 8192])),
            },
            "C16" => match r.below(12) {
                0 => Op::Ins((0..r.below(6)).map(|_| r.below(vocab) as u16).collect()),
                1 => Op::NoFile { what: r.below(2) as u8, par: r.chance(1, 2) },
                2..=5 => file(r, &mut base, false),
                6..=8 => file(r, &mut base, true),
                _ => reader(file(r, &mut base, false), *r.pick(&[1usize, 2, 3, 7, 64, 1024, 8192])),
            },
            _ => match r.below(8) {
                0 | 1 => Op::Ins((0..r.below(6)).map(|_| r.below(vocab) as u16).collect()),
                2 => file(r, &mut base, false),
                3 => reader(file(r, &mut base, false), 8192),
                _ => file(r, &mut base, true),
            },
        };
        ops.push(op);
        if r.chance(1, 3) && !base.is_empty() {
            ops.push(Op::Q(r.pick(&base).clone()));
        }
    }
    if prop == "C17" && !ops.iter().any(|o| matches!(o, Op::File { par: true, .. })) {
        ops.push(file(r, &mut base, true));
    }
    let soft = |r: &mut Rng, s: &mut SimCfg| {
        s.faults.push((fault::READ_SHORT as u8, *r.pick(&[20_000u32, 300_000, 900_000])));
        s.faults.push((fault::READ_EINTR as u8, *r.pick(&[5_000u32, 50_000, 300_000])));
    };
    match prop {
        "C16" => {
            if r.chance(2, 3) {
                soft(r, &mut sim);
            }
            let k = *r.pick(&[3_000u32, 30_000, 300_000]);
            for f in [fault::READ_EIO_ONCE, fault::READ_EIO_STUCK, fault::OPEN_FAIL] {
                if r.chance(2, 3) {
                    sim.faults.push((f as u8, k));
                }
            }
            if r.chance(1, 4) {
                sim.faults.push((fault::EARLY_EOF as u8, k));
            }
            if r.chance(1, 3) {
                sim.faults.push((fault::USER_PANIC as u8, k));
            }
            sim.maxf = if r.chance(1, 2) { 100_000 } else { r.range(1, 40) as u32 };
        }
        _ => {
            if r.chance(9, 10) {
                soft(r, &mut sim);
            }
            if r.chance(1, 6) {
                sim.faults.push((fault::EARLY_EOF as u8, 30_000));
            }
            sim.maxf = 100_000;
        }
    }
    Scenario { prop: prop.into(), sim, bands, width, thr, ops }
}
