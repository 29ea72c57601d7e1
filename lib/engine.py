"""Build, seeded search, minimisation, evidence."""
import fcntl, hashlib, json, os, queue, shutil, subprocess, sys, tempfile, threading, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
TARGET = os.path.join(V, "target")
REPLAYS = os.path.join(V, "replays")
FAULTS = ["worker_stall", "caller_code_panic", "spurious_wakeup", "read_eintr", "short_read", "read_error_once", "read_error_persistent", "open_failure", "early_eof", "thread_spawn_failure"]
CORES = os.cpu_count() or 8

with open(os.path.join(V, "lib", "profiles.json")) as f:
    PROFILES = json.load(f)


class CheckError(Exception):
    pass


def env():
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "PYTHONPATH", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    e.update(
        HOME="/root", PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
        RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
        CARGO_TARGET_DIR=TARGET, RUSTC_WRAPPER=os.path.join(V, "sim", "rustc-wrap.sh"), RUSTC_BOOTSTRAP="1",
        PYO3_PYTHON="/usr/bin/python3", PYTHONDONTWRITEBYTECODE="1", RUST_BACKTRACE="0",
        PYTHONHASHSEED="0", LANG="C.UTF-8", MALLOC_ARENA_MAX="1",
    )
    return e


def tree_hash():
    """Content of everything the build reads from /repo (not time stamps)."""
    h = hashlib.sha256()
    for d in ("gaoya", "py-gaoya"):
        for root, dirs, files in os.walk(os.path.join(REPO, d)):
            dirs[:] = sorted(x for x in dirs if x not in ("target", "__pycache__", ".git"))
            for n in sorted(files):
                if n.endswith((".rs", ".toml", ".py", ".lock")):
                    p = os.path.join(root, n)
                    h.update(p.encode() + b"\0")
                    with open(p, "rb") as f:
                        h.update(f.read())
                    h.update(b"\0")
    return h.hexdigest()


def engine_of(prop):
    return PROFILES[prop].get("engine", "gsim")


def build(prop):
    """Rebuilds from /repo's working tree. Freshness is decided by content, not by mtime."""
    eng = engine_of(prop)
    os.makedirs(TARGET, exist_ok=True)
    with open(os.path.join(TARGET, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        d = os.path.join(V, "sim") if eng == "gsim" else os.path.join(V, "sim", "pyext")
        ev = env()
        if eng != "gsim":
            ev["CARGO_TARGET_DIR"] = os.path.join(TARGET, "py")
        cmd = ["cargo", "build", "--offline"] + (["--locked"] if os.path.exists(os.path.join(d, "Cargo.lock")) else [])
        stamp = os.path.join(TARGET, ".tree-" + eng)
        want = tree_hash()
        have = open(stamp).read() if os.path.exists(stamp) else ""
        if have != want:
            if os.path.exists(stamp):
                os.unlink(stamp)
            for pkg in (["gaoya"] if eng == "gsim" else ["gaoya", "pygaoya-sim"]):
                subprocess.run(["cargo", "clean", "--offline", "-p", pkg], cwd=d, env=ev, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        r = subprocess.run(cmd, cwd=d, env=ev, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise CheckError("the build failed:\n" + r.stdout[-6000:])
        if tree_hash() != want:
            raise CheckError("/repo changed while it was being built")
        with open(stamp, "w") as f:
            f.write(want)


def command(prop):
    if engine_of(prop) == "gsim":
        return [os.path.join(TARGET, "debug", "gsim")]
    return ["/usr/bin/python3", "-B", os.path.join(V, "sim", "pyext", "pysim.py")]


def call(prop, args, timeout, tmp):
    """Runs the simulator; returns (return code or None on timeout, stdout)."""
    e = env()
    e["TMPDIR"] = tmp
    try:
        r = subprocess.run(command(prop) + args, cwd=tmp, env=e, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=timeout)
        return r.returncode, r.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired as x:
        return None, (x.stdout or b"").decode("utf-8", "replace")


class Result:
    """What one simulator process printed."""

    def __init__(self, rc, out):
        self.rc, self.runs, self.viol, self.fatal, self.ended, self.last = rc, [], None, None, False, None
        self.rlines = []
        for l in out.split("\n"):
            if l.startswith("B "):
                self.last = int(l[2:])
            elif l.startswith("R "):
                self.rlines.append(l)
                p = l.split()
                self.runs.append((int(p[1]), p[2], [int(x) for x in p[3:10]], [int(x) for x in p[10].split(",")]))
            elif l.startswith("V "):
                self.viol = json.loads(l[2:])
            elif l.startswith("FATAL "):
                try:
                    self.fatal = json.loads(l[6:])
                except ValueError:
                    pass
            elif l == "E":
                self.ended = True

    def failed(self):
        return self.viol is not None or self.fatal is not None

    def clean(self):
        return self.ended and self.rc == 0

    def what(self):
        if self.viol:
            return self.viol["class"], self.viol["msg"]
        if self.fatal:
            return self.fatal["class"], self.fatal["msg"]
        return None


def batch(prop, seed, tier, start, count, tmp, timeout):
    rc, out = call(prop, ["run", "--prop", prop, "--seed", str(seed), "--start", str(start), "--count", str(count), "--tier", str(tier)], timeout, tmp)
    return Result(rc, out)


def as_replay(prop, seed, tier, res, tmp):
    """Replay record (scenario + decisions) of a failed batch."""
    if res.viol:
        return res.viol
    f = res.fatal
    run, rep = f["run"] // 10, f["run"] % 10
    rc, out = call(prop, ["gen", "--prop", prop, "--seed", str(seed), "--run", str(run), "--replica", str(rep), "--tier", str(tier)], 60, tmp)
    return {"property": prop, "seed": seed, "run": run, "tier": tier, "class": f["class"], "msg": f["msg"],
            "scenario": json.loads(out), "decisions": f["decisions"]}


def play(prop, rp, tmp, timeout=200):
    fd, p = tempfile.mkstemp(suffix=".json", dir=tmp)
    with os.fdopen(fd, "w") as f:
        json.dump(rp, f)
    rc, out = call(prop, ["replay", p], timeout, tmp)
    os.unlink(p)
    return Result(rc, out)


# ------------------------------------------------------------------ minimisation
def paths(sc):
    """Lists of the scenario from which elements can be dropped without making it malformed."""
    fam = sc.get("family")
    out = []

    def ops(o, at):
        if isinstance(o, dict):
            for k, v in o.items():
                if k in ("Bulk",) and isinstance(v, dict):
                    out.append(at + [k, "items"])
                elif k in ("BulkRem", "Centroid"):
                    out.append(at + [k])
                elif k == "BulkQ":
                    out.append(at + [k, 0])
                elif k in ("Reader", "File"):
                    out.append(at + [k, "src"])
                elif k in ("bulk", "docs", "queries") and isinstance(v, list):
                    out.append(at + [k])

    if fam in ("Mh", "Sh"):
        for i in range(len(sc["clients"])):
            out.append(["clients", i])
        out.append(["setup"])
        for i, c in enumerate(sc["clients"]):
            for j, o in enumerate(c):
                ops(o, ["clients", i, j])
        for j, o in enumerate(sc["setup"]):
            ops(o, ["setup", j])
    elif fam == "Sig":
        out.append(["batches"])
        out += [["batches", i] for i in range(len(sc["batches"]))]
    elif fam == "Cl":
        out.append(["calls"])
        out += [["calls", i] for i in range(len(sc["calls"]))]
    elif fam == "Nest":
        out.append(["jobs"])
    elif fam == "Load":
        out.append(["ops"])
        for j, o in enumerate(sc["ops"]):
            ops(o, ["ops", j])
    elif fam == "Py":
        out.append(["ops"])
        for j, o in enumerate(sc["ops"]):
            ops(o, ["ops", j])
    return out


def get(sc, path):
    for p in path:
        sc = sc[p]
    return sc


def drop_points(sc, gone):
    """Cl: removes points, renumbering the others."""
    s = json.loads(json.dumps(sc))
    n = max(len(s["sigs"]), len(s["adj"]))
    keep = [i for i in range(n) if i not in gone]
    new = {o: k for k, o in enumerate(keep)}
    s["sigs"] = [s["sigs"][i] for i in keep] if s["sigs"] else []
    s["adj"] = [[new[j] for j in s["adj"][i] if j in new] for i in keep] if s["adj"] else []
    s["calls"] = [[new[j] for j in c if j in new] for c in s["calls"]]
    s["out"] = [new[j] for j in s.get("out", []) if j in new]
    return s


class Minimiser:
    def __init__(self, prop, rp, tmp, seconds):
        self.prop, self.best, self.tmp = prop, rp, tmp
        self.end = time.time() + seconds
        self.tries = self.kept = 0
        self.cls = rp["class"]
        self.slow = 200

    def ok(self, sc, dec):
        if time.time() > self.end:
            return False
        self.tries += 1
        rp = dict(self.best, scenario=sc, decisions=dec)
        r = play(self.prop, rp, self.tmp, self.slow)
        w = r.what()
        if w and w[0] == self.cls:
            self.kept += 1
            self.best = dict(rp, msg=w[1])
            return True
        return False

    def ddmin(self, items, test):
        """Drops chunks of `items` while test(remaining) holds; returns what is left."""
        n = 2
        if items and test([]):
            return []
        while len(items) >= 2 and time.time() < self.end:
            size = max(1, len(items) // n)
            done = False
            for a in range(0, len(items), size):
                c = items[:a] + items[a + size:]
                if c and test(c):
                    items, done = c, True
                    n = max(n - 1, 2)
                    break
            if not done:
                if size == 1:
                    break
                n = min(len(items), n * 2)
        return items

    def decisions(self):
        sc = self.best["scenario"]
        self.ddmin(list(self.best["decisions"]), lambda d: self.ok(sc, d))

    def scenario(self):
        before = None
        while before != self.kept and time.time() < self.end:
            before = self.kept
            sc = self.best["scenario"]
            if sc.get("family") == "Cl":
                n = max(len(sc["sigs"]), len(sc["adj"]))
                base = sc

                def pts(keep):
                    return self.ok(drop_points(base, set(range(n)) - set(keep)), self.best["decisions"])
                self.ddmin(list(range(n)), pts)
            for p in paths(self.best["scenario"]):
                try:
                    items = get(self.best["scenario"], p)
                except (KeyError, IndexError, TypeError):
                    continue
                if not isinstance(items, list) or not items:
                    continue

                def t(rest):
                    s = json.loads(json.dumps(self.best["scenario"]))
                    try:
                        get(s, p[:-1])[p[-1]] = rest
                    except (KeyError, IndexError, TypeError):
                        return False
                    return self.ok(s, self.best["decisions"])
                self.ddmin(list(items), t)
            if sc.get("family") == "Nest":
                for i in range(len(self.best["scenario"]["jobs"])):
                    for n in (0, 1, 2, 5, 12, 30):
                        s = json.loads(json.dumps(self.best["scenario"]))
                        if n < s["jobs"][i]["n"]:
                            s["jobs"][i]["n"] = n
                            if self.ok(s, self.best["decisions"]):
                                break
            for k in ("replicas",):
                r = self.best["scenario"].get(k) or []
                if len(r) > 1:
                    for i in range(len(r)):
                        s = json.loads(json.dumps(self.best["scenario"]))
                        s[k] = [r[i]]
                        if self.ok(s, self.best["decisions"]):
                            break

    def run(self):
        t = time.time()
        first = play(self.prop, self.best, self.tmp)
        self.slow = max(10, 20 * (time.time() - t))
        w = first.what()
        if not w or w[0] != self.cls:
            return False
        self.best = dict(self.best, msg=w[1])
        self.decisions()
        self.scenario()
        self.decisions()
        return True


def shape(rp):
    sc = rp["scenario"]
    fam = sc.get("family")
    if fam in ("Mh", "Sh"):
        ops = len(sc["setup"]) + sum(len(c) for c in sc["clients"])
    elif fam == "Sig":
        ops = sum(len(b) for b in sc["batches"])
    elif fam == "Cl":
        ops = sum(len(c) for c in sc["calls"])
    elif fam == "Nest":
        ops = len(sc["jobs"])
    else:
        ops = len(sc["ops"])
    return ops, len(rp["decisions"])


# ------------------------------------------------------------------ known findings
def known(prop):
    out = []
    p = os.path.join(V, "known-findings.json")
    if os.path.exists(p):
        for f in json.load(open(p))["findings"]:
            if f.get("status") == "known" and f["property"] == prop:
                out.append(f)
    return out


# ------------------------------------------------------------------ the check
def check(prop, tier_name, seed):
    t0 = time.time()
    prof = PROFILES[prop]
    tier = 1 if tier_name == "thorough" else 0
    total = prof["runs"][tier]
    size = prof.get("batch", [20, 20])[tier]
    wall = 1e9 if os.environ.get("GSIM_NOWALL") else (prof.get("wall", [300, 1500])[tier])
    base = os.path.join(TARGET, "tmp")
    os.makedirs(base, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix=prop + "-", dir=base)
    try:
        return _check(prop, tier_name, tier, seed, total, size, wall, prof, tmp, t0)
    except CheckError as e:
        print("CHECK ERROR: %s" % e)
        return 3
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def _check(prop, tier_name, tier, seed, total, size, wall, prof, tmp, t0):
    build(prop)
    t1 = time.time()
    print("property %s, tier %s, VERIF_SEED=%d: %d simulated runs planned (build %.0f s)" % (prop, tier_name, seed, total, t1 - t0))
    sys.stdout.flush()
    todo = queue.Queue()
    for a in range(0, total, size):
        todo.put((a, min(size, total - a)))
    lock, stop, results, errors = threading.Lock(), threading.Event(), [], []
    fails = []

    def worker(k):
        wd = os.path.join(tmp, "w%d" % k)
        os.makedirs(wd)
        while not stop.is_set() and time.time() - t1 < wall:
            try:
                a, n = todo.get_nowait()
            except queue.Empty:
                return
            for attempt in range(3):
                r = batch(prop, seed, tier, a, n, wd, 900)
                if r.failed() or r.clean():
                    break
                # ended abnormally without a report: does that repeat for the run it was in?
                if r.last is not None:
                    again = [batch(prop, seed, tier, r.last, 1, wd, 400) for _ in range(2)]
                    if all(not x.clean() and not x.failed() and x.rc is not None and x.rc < 0 and x.rc != -9 for x in again):
                        r.fatal = {"run": r.last * 10, "class": "crash", "msg": "the process died with signal %d" % -again[0].rc, "decisions": []}
                        break
            with lock:
                results.append((a, n, r))
                if r.failed():
                    fails.append((a, r))
                    stop.set()
                elif not r.clean():
                    errors.append("batch at run %d ended with code %s in run %s" % (a, r.rc, r.last))
                    if len(errors) > 3:
                        stop.set()

    ws = [threading.Thread(target=worker, args=(k,)) for k in range(CORES)]
    [w.start() for w in ws]
    [w.join() for w in ws]
    t2 = time.time()

    viol, rc = None, 0
    if fails:
        a, r = min(fails, key=lambda x: x[0])
        viol = report(prop, seed, tier, r, tmp, tier_name)
        rc = 1
    elif errors:
        raise CheckError("the simulator ended abnormally, without a report and not repeatably: " + "; ".join(errors))
    for f in known(prop):
        print("KNOWN-FINDING: property=%s %s" % (prop, f["what"]))
    evidence(prop, tier_name, tier, seed, prof, results, t0, t1, t2, viol, tmp, planned=total)
    if rc == 0:
        n = sum(len(r.runs) for _, _, r in results)
        print("held in %d simulated executions, %.0f s" % (n, time.time() - t0))
    sys.stdout.flush()
    return rc


def report(prop, seed, tier, res, tmp, tier_name):
    os.makedirs(REPLAYS, exist_ok=True)
    rp = as_replay(prop, seed, tier, res, tmp)
    before = shape(rp)
    m = Minimiser(prop, rp, tmp, 90 if tier_name == "quick" else 240)
    exact = m.run()
    best = m.best
    a, b = play(prop, best, tmp), play(prop, best, tmp)
    same = exact and a.what() is not None and a.what() == b.what() and a.rlines == b.rlines
    if not same:
        # still a violation by its seed: `gsim run` with this seed and run index repeats it
        best = rp
        best["note"] = "the decision list alone did not repeat it; rerun by seed and run index"
        a = batch(prop, seed, tier, rp["run"], 1, tmp, 400)
        b = batch(prop, seed, tier, rp["run"], 1, tmp, 400)
        same = a.what() == b.what() and a.what() is not None
        best["by_seed"] = True
    path = os.path.join(REPLAYS, "%s-seed%d-run%d.json" % (prop, seed, rp["run"]))
    with open(path, "w") as f:
        json.dump(best, f)
        f.write("\n")
    after = shape(best)
    print("violation: [%s] %s" % (best["class"], best["msg"]))
    print("seed %d, run %d; minimised from %d operations and %d scheduling/fault decisions to %d and %d in %d replays; replay %s"
          % (seed, rp["run"], before[0], before[1], after[0], after[1], m.tries, "reproduces exactly (twice, fresh processes)" if same else "DID NOT REPRODUCE"))
    print("VIOLATION property=%s replay=%s" % (prop, path))
    sys.stdout.flush()
    return {"class": best["class"], "message": best["msg"], "replay": path, "operations": after[0], "decisions": after[1], "replay_exact": same}


def replay(path):
    rp = json.load(open(path))
    prop = rp["property"]
    build(prop)
    base = os.path.join(TARGET, "tmp")
    os.makedirs(base, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="replay-", dir=base)
    try:
        if rp.get("by_seed"):
            r = batch(prop, rp["seed"], rp["tier"], rp["run"], 1, tmp, 400)
        else:
            r = play(prop, rp, tmp, 400)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    for l in r.rlines:
        print(l)
    if r.what():
        print("[%s] %s" % r.what())
        print("VIOLATION property=%s replay=%s" % (prop, os.path.abspath(path)))
        return 1
    print("no violation")
    return 0


def cut_sample(o, depth=0):
    if isinstance(o, list):
        r = [cut_sample(x, depth + 1) for x in o[:8]]
        return r + ["... %d more" % (len(o) - 8)] if len(o) > 8 else r
    if isinstance(o, dict):
        return {k: cut_sample(v, depth + 1) for k, v in o.items()}
    return o


def evidence(prop, tier_name, tier, seed, prof, results, t0, t1, t2, viol, tmp, planned):
    runs = [x for _, _, r in sorted(results, key=lambda y: y[0]) for x in r.runs]
    steps = sum(x[2][0] for x in runs)
    need = prof.get("need")
    fk = [sum(x[3][i] for x in runs) for i in range(len(FAULTS))]
    kinds = prof.get("fault_names", FAULTS)

    def nontrivial(x):
        (_, switches, pre, blocks, tasks, checked, steals), f = x[2], x[3]
        if checked == 0:
            return False
        if need == "fault":
            return sum(f) > 0
        return switches > 0
    seen = {x[1] for x in runs if nontrivial(x)}
    samples = []
    for x in [y for y in runs if nontrivial(y)][:2]:
        rc, out = call(prop, ["gen", "--prop", prop, "--seed", str(seed), "--run", str(x[0] // 10), "--replica", str(x[0] % 10), "--tier", str(tier)], 60, tmp)
        try:
            sc = cut_sample(json.loads(out))
        except ValueError:
            sc = None
        samples.append({"run": x[0] // 10, "replica": x[0] % 10, "steps": x[2][0], "context_switches": x[2][1], "preemptions": x[2][2],
                        "schedule_hash": x[1], "answers_checked": x[2][5], "faults": {FAULTS[i]: n for i, n in enumerate(x[3]) if n}, "scenario": sc})
    hours = max(t2 - t1, 1e-6) / 3600
    cov = {
        "evaluations": len(runs),
        "distinct_nontrivial": len(seen),
        "rule": prof["rule"],
        "samples": samples,
        "planned_runs": planned,
        "seeds": len({x[0] // 10 for x in runs}),
        "runs_per_hour": round(len(runs) / hours),
        "simulated_steps": steps,
        "simulated_time": "%d simulator steps (one step = one instrumented memory access or synchronisation operation of the code under test; the code under test reads no clock)" % steps,
        "context_switches": sum(x[2][1] for x in runs),
        "preemptions": sum(x[2][2] for x in runs),
        "blocked_waits": sum(x[2][3] for x in runs),
        "simulated_threads": sum(x[2][4] for x in runs),
        "answers_checked": sum(x[2][5] for x in runs),
        "work_stealing_steals": sum(x[2][6] for x in runs),
        "distinct_interleavings": len({x[1] for x in runs}),
        "interleaving_measure": "64-bit hash over (step, from-thread, to-thread) of every context switch and over every injected fault of an execution",
        "faults_injected": {kinds[i]: n for i, n in enumerate(fk) if n},
        "runs_with_a_fault": sum(1 for x in runs if sum(x[3])),
        "real_components": prof["real"],
        "stub_components": prof["stub"],
        "build_s": round(t1 - t0, 1),
    }
    ev = {"property": prop, "tier": tier_name, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": prof.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": 1 if viol else 0}
    if viol:
        ev["violation"] = viol
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    p = os.path.join(V, "evidence", prop + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(p + ".tmp", p)
