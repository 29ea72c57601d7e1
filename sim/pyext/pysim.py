#!/usr/bin/env python3
"""Simulated runs of the Python binding (C19, C20). Same command line and output as gsim:
    pysim.py run --prop P --seed S --start A --count N [--tier T] | gen ... --run I | replay FILE
CPython, the wrappers of /repo/py-gaoya/gaoya and the extension (with gaoya) are the real code;
worker threads below the extension are simulated."""
import collections.abc, ctypes, importlib, importlib.util, json, os, random, sys, tempfile, types

HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(os.path.dirname(HERE))
REPO_PKG = "/repo/py-gaoya/gaoya"
SO = os.path.join(V, "target", "py", "debug", "libgaoya.so")


def say(s):
    sys.stdout.write(s + "\n")
    sys.stdout.flush()


# ------------------------------------------------------------------ the extension and the simulator
class CDec(ctypes.Structure):
    _fields_ = [("k", ctypes.c_uint32), ("t", ctypes.c_uint32), ("ix", ctypes.c_uint64), ("v", ctypes.c_uint32)]


class CCfg(ctypes.Structure):
    _fields_ = [(n, ctypes.c_uint64) for n in ("seed", "entropy", "tag")] + \
               [(n, ctypes.c_uint32) for n in ("pct", "gap", "wa", "ws", "maxf", "pool", "stall_ppm", "spurious_ppm", "explicit", "ndec")] + \
               [("dec", ctypes.POINTER(CDec))]


class COut(ctypes.Structure):
    _fields_ = [(n, ctypes.c_uint64) for n in ("hash", "steps", "switches", "preempts", "blocks", "tasks", "steals")] + \
               [("faults", ctypes.c_uint64 * 10), ("ndec", ctypes.c_uint64), ("dec", ctypes.POINTER(CDec))]


CB = ctypes.CFUNCTYPE(None)


def load():
    """Imports package `gaoya`: wrappers from /repo, extension module from the simulator build."""
    d = tempfile.mkdtemp(prefix="pysim-")
    so = os.path.join(d, "gaoya.abi3.so")
    os.symlink(SO, so)
    pkg = types.ModuleType("gaoya")
    pkg.__path__ = [d, REPO_PKG]
    pkg.__package__ = "gaoya"
    sys.modules["gaoya"] = pkg
    ext = importlib.import_module("gaoya.gaoya")
    assert ext.__file__ == so, ext.__file__
    with open(os.path.join(REPO_PKG, "__init__.py")) as f:
        exec(compile(f.read(), os.path.join(REPO_PKG, "__init__.py"), "exec"), pkg.__dict__)
    assert pkg.minhash.__file__.startswith(REPO_PKG), pkg.minhash.__file__
    lib = ctypes.CDLL(so)
    lib.gsim_run.argtypes = [ctypes.POINTER(CCfg), CB, ctypes.POINTER(COut)]
    lib.gsim_init()
    os.unlink(so)
    os.rmdir(d)
    return pkg, lib


# ------------------------------------------------------------------ scenarios
def words(r, vocab):
    return ["w%d" % r.randrange(vocab) for _ in range(r.choice([0, 1, 2, 3, 5, 8, 8, 12, 20]))]


class Gen:
    def __init__(self, r, tier):
        self.r, self.tier, self.vocab = r, tier, r.choice([4, 30, 500])
        self.base, self.ids, self.next = [], [], 0
        self.uniq = r.random() < 0.5

    def doc(self):
        r = self.r
        if self.base and r.random() < 0.6:
            w = list(r.choice(self.base))
            for _ in range(r.choice([0, 0, 1, 1, 2, 4])):
                if w:
                    w[r.randrange(len(w))] = "w%d" % r.randrange(self.vocab)
            if r.random() < 0.2:
                w.append("Extra")
        else:
            w = words(r, self.vocab)
        self.base.append(w)
        t = r.choice([" ", " ", " ", ", ", "\t"]).join(w)
        x = r.random()
        if x < 0.05:
            t = t.upper()
        elif x < 0.1:
            t += " \u00fc\u4e2d\U0001f600 \u0130stanbul"
        elif x < 0.12:
            t = ""
        elif x < 0.14:
            t = "..., !"
        elif x < 0.17:
            t = t + " " + "x" * r.randrange(1, 400)
        return t

    def id(self):
        r = self.r
        if not self.uniq and self.ids and r.random() < 0.2:
            return r.choice(self.ids)
        self.next += 1
        i = self.next if r.random() < 0.97 else r.choice([-self.next, (1 << 62) + self.next, -(1 << 62) - self.next])
        self.ids.append(i)
        return i

    def size(self):
        r = self.r
        return r.choice([0, 1, r.randrange(2, 12), r.randrange(2, 12), r.randrange(12, 99), 98, 99, 100, 101, r.randrange(100, 140), r.randrange(100, 260),
                         r.randrange(260, 900 if self.tier else 420) if r.random() < 0.8 else r.randrange(420, 1600)])


BAD_DOC = ["none", "int", "bytes", "list", "surrogate"]
BAD_ID = ["none", "str", "float", "big", "small"]


def generate(prop, seed, run, tier):
    r = random.Random("%s-%d-%d-%d" % (prop, seed, run, tier))
    g = Gen(r, tier)
    sim = dict(seed=r.getrandbits(64), entropy=r.getrandbits(64), pct=int(r.random() < 0.25), gap=r.choice([20, 80, 300, 300, 1500, 8000]),
               wa=r.choice([1, 10, 40, 200]), ws=r.choice([1, 10, 40]), maxf=3, pool=r.choice([1, 2, 2, 3, 3, 4, 4, 5, 8]),
               stall_ppm=r.choice([0, 0, 2000, 20000]), spurious_ppm=r.choice([0, 0, 0, 100000]))
    kind = r.choice(["mh", "mh", "mh", "sh"])
    an = r.choice(["word", "word", "char", "call", "call"])
    ng = r.choice([None, None, [1, 1], [2, 2], [1, 2], [2, 3], [3, 5]])
    low = r.random() < 0.3
    if kind == "mh":
        bands, width = r.choice([(4, 1), (5, 2), (10, 2), (8, 3), (20, 1), (20, 2)])
        a = dict(hash_size=r.choice([8, 16, 32, 64]), jaccard_threshold=r.choice([0.0, 0.2, 0.5, 0.75, 1.0]), num_bands=bands, band_size=width,
                 num_hashes=None, analyzer=an, lowercase=low, ngram_range=ng, id_container=r.choice(["set", "vec", "smallvec"]))
        if r.random() < 0.05:
            a.update(num_bands=None, band_size=None, num_hashes=r.choice([16, 30]))
            a["jaccard_threshold"] = r.choice([0.5, 0.75])
    else:
        blocks, dist = r.choice([(4, 1), (5, 2), (6, 3), (6, 5), (8, 2)])
        a = dict(hash_size=r.choice([64, 128]), num_blocks=blocks, hamming_distance=dist, analyzer=an, lowercase=low, ngram_range=ng)
    ops = []

    def fault_for(op, n):
        k = r.randrange(n) if n else 0
        kinds = ["doc", "seq"] if n else ["notlist"]
        if op in ("ins", "bulk"):
            kinds.append("id")
        if an == "call":
            kinds += ["raise", "token", "retnone"]
        f = r.choice(kinds)
        if op in ("ins", "q") and f in ("seq", "notlist"):
            f = "doc"
        if f == "doc":
            return [f, k, r.choice(BAD_DOC)]
        if f == "id":
            return [f, k, r.choice(BAD_ID)]
        if f == "raise":
            return [f, k, r.choice(["ValueError", "KeyboardInterrupt", "OSError", "MemoryError"])]
        return [f, k, r.choice(["none", "int"])]
    for _ in range(r.randrange(2, 8)):
        x = r.random()
        if x < 0.2:
            o = dict(op="ins", id=g.id(), doc=g.doc())
        elif x < 0.55:
            o = dict(op="bulk", how=r.randrange(3), bulk=[[g.id(), g.doc()] for _ in range(g.size())])
        elif x < 0.65:
            o = dict(op="rem", id=r.choice(g.ids) if g.ids and r.random() < 0.8 else 777777) if kind == "mh" else dict(op="q", doc=g.doc())
        elif x < 0.8:
            o = dict(op="q", doc=g.doc())
        else:
            n = min(g.size(), r.choice([150, 150, 150, 600]) if not tier else 800)
            o = dict(op="bulkq", scores=int(r.random() < 0.5), queries=[g.doc() for _ in range(n)])
        if prop == "C20" and o["op"] != "rem" and r.random() < 0.6:
            o["fault"] = fault_for(o["op"], {"bulk": len(o.get("bulk", [])), "bulkq": len(o.get("queries", []))}.get(o["op"], 1))
        elif prop == "C20" and o["op"] == "rem" and r.random() < 0.5:
            o["fault"] = ["id", 0, r.choice(BAD_ID)]
        ops.append(o)
    return dict(family="Py", prop=prop, sim=sim, kind=kind, args=a, ops=ops)


# ------------------------------------------------------------------ execution
class Violation(Exception):
    def __init__(self, cls, msg):
        self.cls, self.msg = cls, msg


def short(x):
    s = repr(x)
    return s if len(s) < 300 else s[:300] + "... (%d chars)" % len(s)


class BadSeq(collections.abc.Sequence):
    """A caller's sequence that fails at element k."""

    def __init__(self, v, k):
        self.v, self.k = v, k

    def __len__(self):
        return len(self.v)

    def __getitem__(self, i):
        if i == self.k:
            raise RuntimeError("element %d is not available" % i)
        return self.v[i]


def bad_doc(kind):
    return {"none": None, "int": 7, "bytes": b"abc", "list": ["a"], "surrogate": "a\ud800b"}[kind]


def bad_id(kind):
    return {"none": None, "str": "x", "float": 1.5, "big": 1 << 63, "small": -(1 << 63) - 1}[kind]


class Run:
    def __init__(self, pkg, sc):
        self.pkg, self.sc = pkg, sc
        self.checked = 0
        self.faults = [0] * 10
        self.plan = None
        self.calls = 0
        self.texts = {}
        self.main, self.ref = self.make(), self.make()

    def analyzer(self, doc):
        if self.plan is not None:
            f, k, what = self.plan
            if f in ("raise", "token", "retnone") and self.calls == k:
                self.calls += 1
                if f == "raise":
                    raise {"ValueError": ValueError, "KeyboardInterrupt": KeyboardInterrupt, "OSError": OSError, "MemoryError": MemoryError}[what]("injected")
                if f == "retnone":
                    return None
                return doc.split() + [bad_doc(what)]
            self.calls += 1
        return doc.split()

    def make(self):
        a = dict(self.sc["args"])
        if a["analyzer"] == "call":
            a["analyzer"] = self.analyzer
        if a["ngram_range"]:
            a["ngram_range"] = tuple(a["ngram_range"])
        return (self.pkg.minhash.MinHashStringIndex if self.sc["kind"] == "mh" else self.pkg.simhash.SimHashStringIndex)(**a)

    def inner(self, ix):
        return ix.minhash_index if self.sc["kind"] == "mh" else ix.index

    # -- operations (raise what the binding raises)
    def insert(self, ix, i, d):
        ix.insert_document(i, d)

    def bulk(self, ix, ids, docs, how):
        if self.sc["args"]["analyzer"] == "call":
            if how == 0 and self.sc["kind"] == "mh":
                ix.par_bulk_insert_docs(ids, docs)
            else:
                # (the serial token loop of the binding, and its parallel one)
                t = [self.analyzer(d) for d in docs]
                if how == 1 and self.sc["kind"] == "mh":
                    self.inner(ix).bulk_insert_tokens(ids, t)
                else:
                    self.inner(ix).par_bulk_insert_tokens(ids, t)
        elif self.sc["kind"] == "mh":
            ix.par_bulk_insert_docs(ids, docs)
        else:
            self.inner(ix).par_bulk_insert_docs(ids, docs)

    def query(self, ix, d):
        plain = ix.query(d)
        scored = ix.query(d, True)
        return plain, scored

    def bulkq(self, ix, docs, scores):
        return ix.par_bulk_query(docs, bool(scores))

    # -- comparison
    def canon(self, plain, scored, what):
        p, s = sorted(plain), sorted(scored)
        if len(set(p)) != len(p):
            raise Violation("duplicate", "%s: an id is returned twice: %s" % (what, short(p)))
        if [x[0] for x in s] != p:
            raise Violation("forms", "%s: with and without scores the ids differ: %s / %s" % (what, short(p), short(s)))
        v = [x[1] for x in scored]
        if v != sorted(v, reverse=self.sc["kind"] == "mh"):
            raise Violation("order", "%s: scored results are not in order: %s" % (what, short(scored)))
        return s

    def same(self, what, probes):
        self.checked += 1
        if self.sc["kind"] == "mh" and self.main.size() != self.ref.size():
            raise Violation("size", "%s: size %d, the same documents inserted one by one give %d" % (what, self.main.size(), self.ref.size()))
        if self.sc["kind"] == "mh" and self.main.size() != len(self.texts):
            raise Violation("size", "%s: size %d, documents stored %d" % (what, self.main.size(), len(self.texts)))
        for d in probes:
            a, b = self.query(self.main, d), self.query(self.ref, d)
            self.checked += 1
            if self.canon(*a, what) != self.canon(*b, what):
                raise Violation("differs", "%s: query %s gives %s; on an index filled one by one %s" % (what, short(d), short(sorted(a[1])), short(sorted(b[1]))))

    def own(self, what, r):
        """A stored document is found by its own text, with the best score."""
        k = list(self.texts)
        for i in (k if len(k) <= 12 else r.sample(k, 12)):
            d = self.texts[i]
            s = dict(self.query(self.main, d)[1])
            best = 1.0 if self.sc["kind"] == "mh" else 0
            self.checked += 1
            if s.get(i) != best:
                raise Violation("lost", "%s: document %d is not found by its own text %s with score %s (got %s)" % (what, i, short(d), best, s.get(i)))

    def probes(self, r):
        k = list(self.texts.values())
        p = [r.choice(k) for _ in range(min(6, len(k)))] + ["", "w1 w2 w3"]
        return p

    def attempt(self, what, f):
        """A call that has to fail."""
        try:
            f()
        except BaseException as e:
            if type(e).__name__ == "PanicException":
                raise Violation("panic", "%s: the extension panicked: %s" % (what, e))
            self.faults[1] += 1
            return
        finally:
            self.plan = None
        raise Violation("accepted", "%s: the call did not fail" % what)

    def go(self):
        r = random.Random(self.sc["sim"]["entropy"] ^ 0x51)
        for n, o in enumerate(self.sc["ops"]):
            what = "operation %d (%s)" % (n, o["op"])
            f = o.get("fault")
            if f:
                self.failing(what, o, f, r)
            self.step(what, o, r)
        self.same("at the end", self.probes(r))
        self.own("at the end", r)

    def step(self, what, o, r):
        op = o["op"]
        if op == "ins":
            self.insert(self.main, o["id"], o["doc"])
            self.insert(self.ref, o["id"], o["doc"])
            self.texts[o["id"]] = o["doc"]
        elif op == "rem":
            self.main.remove(o["id"])
            self.ref.remove(o["id"])
            self.texts.pop(o["id"], None)
        elif op == "bulk":
            ids, docs = [x[0] for x in o["bulk"]], [x[1] for x in o["bulk"]]
            self.bulk(self.main, ids, docs, o["how"])
            for i, d in o["bulk"]:
                self.insert(self.ref, i, d)
                self.texts[i] = d
            self.same(what, self.probes(r))
        elif op == "q":
            self.same(what, [o["doc"]])
        else:
            got = self.bulkq(self.main, o["queries"], o["scores"])
            if len(got) != len(o["queries"]):
                raise Violation("bulkq", "%s: %d results for %d queries" % (what, len(got), len(o["queries"])))
            for k, d in enumerate(o["queries"]):
                one = self.query(self.main, d)
                self.canon(*one, what)
                exp = one[1] if o["scores"] else one[0]
                self.checked += 1
                if sorted(got[k]) != sorted(exp):
                    raise Violation("bulkq", "%s: result %d is %s, the query alone gives %s" % (what, k, short(got[k]), short(exp)))
                if o["scores"]:
                    v = [x[1] for x in got[k]]
                    if v != sorted(v, reverse=self.sc["kind"] == "mh"):
                        raise Violation("order", "%s: scored results are not in order: %s" % (what, short(got[k])))

    def failing(self, what, o, f, r):
        kind, k, w = f
        op = o["op"]
        if kind in ("raise", "token", "retnone"):
            n = len(o["bulk"]) if op == "bulk" else len(o["queries"]) if op == "bulkq" else 1
            if k >= n:
                return  # (minimised away)
            self.plan, self.calls = f, 0
        what = "%s failing by %s" % (what, f)
        if op in ("ins", "q"):
            d = bad_doc(w) if kind == "doc" else o["doc"]
            if self.sc["args"]["analyzer"] == "call" and kind == "doc" and w == "surrogate":
                d = bad_doc("int")
            if op == "ins":
                i = bad_id(w) if kind == "id" else o["id"]
                self.attempt(what, lambda: self.insert(self.main, i, d))
            else:
                self.attempt(what, lambda: self.main.query(d))
        elif op == "rem":
            self.attempt(what, lambda: self.main.remove(bad_id(w)))
        else:
            docs = [x[1] for x in o["bulk"]] if op == "bulk" else list(o["queries"])
            ids = [x[0] for x in o["bulk"]] if op == "bulk" else []
            if kind in ("doc", "seq", "id") and k >= len(docs):
                return
            if kind == "doc":
                docs[k] = bad_doc("int") if self.sc["args"]["analyzer"] == "call" and w in ("surrogate", "bytes") else bad_doc(w)
            elif kind == "seq":
                docs = BadSeq(docs, k)
            elif kind == "notlist":
                docs = bad_doc(w)
            elif kind == "id":
                ids[k] = bad_id(w)
            if op == "bulk":
                self.attempt(what, lambda: self.bulk(self.main, ids, docs, o["how"]))
            else:
                self.attempt(what, lambda: self.bulkq(self.main, docs, o["scores"]))
        # nothing of it may be visible
        pr = self.probes(r)
        if op == "bulk":
            pr += [x[1] for x in o["bulk"][:5]]
        elif op == "ins":
            pr.append(o["doc"])
        self.same("after " + what, pr)


def simulate(pkg, lib, sc, dec, tag):
    s = sc["sim"]
    c = CCfg(tag=tag, **s)
    if dec is not None:
        c.explicit = 1
        arr = (CDec * max(1, len(dec)))(*[CDec(*d) for d in dec])
        c.ndec, c.dec = len(dec), arr
    res = {}

    def body():
        run = None
        try:
            run = Run(pkg, sc)
            run.go()
        except Violation as v:
            res["viol"] = (v.cls, v.msg)
        except BaseException as e:
            n = type(e).__name__
            res["viol"] = ("panic" if n == "PanicException" else "exception", "%s: %s" % (n, short(str(e))))
            if os.environ.get("GSIM_DEBUG"):
                import traceback
                traceback.print_exc()
        res["checked"] = run.checked if run else 0
        res["faults"] = run.faults if run else [0] * 10
        del run
    out = COut()
    lib.gsim_run(ctypes.byref(c), CB(body), ctypes.byref(out))
    f = [out.faults[i] + res["faults"][i] for i in range(10)]
    line = "R %d %016x %d %d %d %d %d %d %d %s" % (tag, out.hash, out.steps, out.switches, out.preempts, out.blocks, out.tasks, res["checked"], out.steals, ",".join(map(str, f)))
    decs = [[out.dec[i].k, out.dec[i].t, out.dec[i].ix, out.dec[i].v] for i in range(out.ndec)]
    return line, res.get("viol"), decs


def main():
    a = sys.argv
    opt = lambda k, d: a[a.index(k) + 1] if k in a else d
    if a[1] == "gen":
        say(json.dumps(generate(opt("--prop", ""), int(opt("--seed", "1")), int(opt("--run", "0")), int(opt("--tier", "0")))))
        return
    import gc
    pkg, lib = load()
    if a[1] == "run":
        prop, seed, tier = opt("--prop", ""), int(opt("--seed", "1")), int(opt("--tier", "0"))
        start, count = int(opt("--start", "0")), int(opt("--count", "1"))
        for i in range(start, start + count):
            say("B %d" % i)
            sc = json.loads(json.dumps(generate(prop, seed, i, tier)))
            line, v, d = simulate(pkg, lib, sc, None, i * 10)
            say(line)
            if v:
                say("V " + json.dumps(dict(property=prop, seed=seed, run=i, tier=tier, **{"class": v[0]}, msg=v[1], scenario=sc, decisions=d)))
                return
            gc.collect()
        say("E")
    elif a[1] == "replay":
        rp = json.load(open(a[2]))
        line, v, d = simulate(pkg, lib, rp["scenario"], rp["decisions"], rp["run"] * 10)
        say(line)
        if v:
            rp.update(**{"class": v[0]}, msg=v[1], decisions=d)
            say("V " + json.dumps(rp))
        else:
            say("E")


main()
