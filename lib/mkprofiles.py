"""Writes profiles.json (what each check runs, and what its evidence says about it)."""
import json, os
REAL_MH = ["gaoya::minhash::MinHashIndex (insert, bulk insert, removal, queries, maintenance) with its id containers, itertools, ahash/hashbrown maps",
           "rayon's parallel iterators (producers, splitters, collect, for_each) unchanged"]
STUB = ["rayon-core (thread pool, join/scope/work stealing) re-implemented on simulated threads: same semantics, every steal and pick decided by the seed",
        "operating-system threads, futexes, allocator, random source: simulated (one runs at a time; preemption at any instrumented memory access)"]
REAL = {
 "mh": REAL_MH,
 "sh": ["gaoya::simhash::SimHashIndex and its permutation tables", "rayon's parallel iterators unchanged"],
 "sig": ["gaoya::minhash::MinHasher32/MinHasher16V1/… , gaoya::simhash::SimHash hashers, bulk_create_signature*", "rayon's parallel iterators unchanged"],
 "cl": ["gaoya::clustering (parallel and serial clusterers), crossbeam scoped threads, gaoya::minhash::MinHashIndex as the neighbour index (other runs: a harness graph index)"],
 "load": ["gaoya::minhash::MinHashStringIndex loading (reader, file, parallel file), tokenisers, MinHashIndex", "std BufReader/File, rayon's parallel iterators unchanged"],
 "nest": ["gaoya's bulk hashing, MinHashIndex, SimHashIndex, parallel clusterer and MinHashStringIndex file loading, called from nested and simultaneous parallel work", "rayon's parallel iterators unchanged"],
 "py": ["the whole Python binding: py-gaoya Rust extension, pyo3, CPython, the wrappers in py-gaoya/gaoya/*.py, gaoya", "rayon's parallel iterators unchanged"],
}
XSTUB = {"nest": ["files: open/read/fstat/lseek of simulated paths answered by the simulator"], "load": ["files and directories: open/read/fstat/lseek of simulated paths answered by the simulator"], "cl": [], "py": []}
S = "A run's operations, arguments, sizes, thread pool size, preemption rates and fault plan are generated from (VERIF_SEED, property, run index); the schedule and fault instants come from the same seed. "
SW = S + "Counted as distinct and non-trivial: executions with a schedule/fault hash not seen before, at least one context switch and at least one answer compared with the oracle."
FT = S + "Counted as distinct and non-trivial: executions with a schedule/fault hash not seen before in which at least one injected fault fired and at least one answer was compared with the oracle."
P = {}
def p(i, fam, q, t, rule=SW, need=None, **kw):
    P[i] = dict(runs=[q, t], real=REAL[fam], stub=STUB + XSTUB.get(fam, []), rule=rule,
        assumptions=["sequentially consistent memory between simulated threads (weak-memory reorderings are not explored)",
                     "the re-implemented rayon-core has the published semantics of rayon-core",
                     "sampling: a clean batch is evidence, not proof"], **kw)
    if need: P[i]["need"] = need
p("C01", "mh", 3000, 60000); p("C02", "mh", 7000, 140000); p("C03", "mh", 12000, 240000); p("C04", "mh", 3200, 64000)
p("C05", "mh", 1500, 30000, rule=FT, need="fault"); p("C06", "mh", 9000, 180000)
p("C07", "sh", 2200, 44000); p("C08", "sh", 1900, 38000)
p("C09", "sig", 900, 18000)
for c in ("C10", "C11", "C12", "C13"): p(c, "cl", 15000, 300000, batch=[100, 200])
p("C14", "cl", 15000, 300000, batch=[100, 200])
p("C15", "load", 4000, 80000, rule=FT, need="fault"); p("C16", "load", 8000, 160000, rule=FT, need="fault"); p("C17", "load", 3200, 64000)
p("C18", "mh", 1200, 24000)
P["C18"]["real"] = REAL["mh"] + REAL["sh"][:1]
PF = ["worker_stall", "python_exception_in_call", "spurious_wakeup"] + ["-"] * 7
p("C19", "py", 2400, 48000, engine="pysim", fault_names=PF); p("C20", "py", 2600, 52000, rule=FT, need="fault", engine="pysim", fault_names=PF)
p("C21", "nest", 2000, 40000); p("C22", "mh", 3000, 60000); p("C23", "cl", 8000, 160000, rule=FT, need="fault", batch=[100, 200])
P["C22"]["real"] = REAL["mh"] + REAL["sh"][:1] + REAL["cl"][:1]
json.dump(P, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "profiles.json"), "w"), indent=1)
