"""Writes MANIFEST.json from the property list."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "deterministic simulation: seeded schedules%s of the real code, %s"
ORA = {
 "C01": ("", "reference-model oracle"), "C02": ("", "full-scan reference model"), "C03": ("", "reference-model oracle"),
 "C04": ("", "bulk vs single answers and reference model"), "C05": (" and injected caller panics / malformed input", "reference model with narrow post-fault relaxation"),
 "C06": ("", "reference-model oracle"), "C07": ("", "full-scan reference model"), "C08": (" and injected caller panics", "full-scan reference model"),
 "C09": (", entropy replicas and injected caller panics", "one-document-at-a-time oracle"), "C10": ("", "partition invariants"), "C11": ("", "cluster validity invariants"),
 "C12": ("", "maximality, separable-group and greedy oracles"), "C13": ("", "bounded-step progress"), "C14": ("", "shadow-heap invariant on every access"),
 "C15": (", short and interrupted reads", "line-splitting reference"), "C16": (" and injected open/read errors", "line-splitting reference up to the error"),
 "C17": (", short and interrupted reads", "sequential-load reference"), "C18": (" and entropy", "replica comparison"),
 "C19": (" under the Python binding", "one-by-one reference"), "C20": (" and injected exceptions", "unchanged-state oracle"),
 "C21": (", nestings and callers", "result-alone oracle and bounded-step progress"), "C22": (" and injected caller panics / malformed input", "live-copy accounting of the caller's ids"),
 "C23": (" and injected caller panics", "partition, validity and repeat oracles"),
}
NOTE = "Seeded sampling of schedules, inputs and faults on the real code (rebuilt from /repo), every answer compared with an independent oracle; each run is exactly repeatable. Trusts the re-implemented rayon-core scheduler, explores sequentially consistent interleavings only, and is evidence, not proof."
checks = []
for i, (f, o) in ORA.items():
    if i in ("C19", "C20") and not os.path.exists(os.path.join(V, "sim", "pyext", "pysim.py")):
        continue
    checks.append({"property": i, "quick_cmd": "bin/check %s quick" % i, "thorough_cmd": "bin/check %s thorough" % i,
                   "technique": T % (f, o), "level": "exploration", "level_note": NOTE})
have = {c["property"] for c in checks}
na = [{"property": json.loads(l)["id"], "reason": "the simulated Python binding is not built yet"} for l in open(os.path.join(V, "properties.jsonl")) if json.loads(l)["id"] not in have]
json.dump({"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the seams are the compiler's access instrumentation, the rayon-core crate patch, symbol interposition and the library's own generic parameters. Replay a violation with bin/replay FILE."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
