"""Writes MANIFEST.json from properties.jsonl and the checks present (run by hand after adding a check)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
TECH = {
    "default": "runtime monitoring: random hostile workloads on the real code, every result compared online with an event-by-event shadow model",
    "C04": "runtime monitoring: computed values of generated expressions observed through histograms and compared with Python's evaluation (error-bounded oracle)",
    "C05": "runtime monitoring: lookups of rewritten and nearly equal expressions, accepted ones compared by value on hostile events",
    "C11": "runtime monitoring: stateful pool workload; every live histogram compared with its shadow after each step; input arrays write-protected and fingerprinted",
    "C14": "runtime monitoring: round trips in workloads, restored object and original driven in lockstep and compared with the shadow model",
    "C16": "runtime monitoring: random operation sequences on books checked online against an ordered-mapping model",
    "C18": "runtime monitoring with fault injection: failing operations and fields; state fingerprinted before and after, then used further",
    "C19": "runtime monitoring: emitted Vega-Lite documents parsed and compared row by row with the shadow model's contents",
    "C21": "runtime monitoring: pools of histograms, axes and books that are built alike or differ in one respect, compared pairwise in both directions",
    "C24": "runtime monitoring: axes declared in equivalent ways and meaningless ones; attributes, conversions and attachments compared online with the declaration and a dict model",
    "C23": "runtime monitoring with delays and fault injection: real fills driven through a stand-in PySpark that evaluates its columns with Spark SQL's semantics; contents compared with the shadow model",
    "C22": "runtime monitoring: exports recorded by stand-in pandas/ROOT modules and compared with the shadow model's contents",
}


def main():
    props = [json.loads(x) for x in open(os.path.join(ROOT, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        pid = p["id"]
        if os.path.exists(os.path.join(ROOT, "hbv", "checks", pid.lower() + ".py")):
            checks.append({
                "property": pid,
                "quick_cmd": "./run.sh " + pid,
                "thorough_cmd": "VERIF_TIER=thorough ./run.sh " + pid,
                "evidence_file": "evidence/" + pid + ".json",
                "technique": TECH.get(pid, TECH["default"]),
                "level": "exploration",
                "level_note": "Holds on every execution observed (seeded random and hostile workloads, counts in the evidence file); trusts the plain-Python reference model in hbv/, the Python interpreter and numpy. Judged through the public interface only.",
            })
        else:
            na.append({"property": pid, "reason": NA.get(pid, "no check yet: the technique applies, the monitor is still to be built")})
    out = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
           "notes": "Nothing to build: histbook is pure Python and is imported from /repo. No hooks in /repo."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(out, f, indent=1)
        f.write("\n")


main()
