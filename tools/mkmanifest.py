#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the harnesses present in props/."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
PURE = "A pure function of its arguments: no concurrency, time, I/O, randomness or failing resource decides its result, so a simulated schedule or fault adds nothing to calling it with an input; this needs property-based testing or proof, not simulation."
checks, na = [], []
TSAN = " Interleavings: preemption at every memory access of the library compiled with thread instrumentation, decided by the seed; a happens-before race detector runs on each."
for p in props:
    i = p["id"]
    f = os.path.join(V, "props", i + ".cpp")
    if not os.path.exists(f):
        na.append({"property": i, "reason": PURE})
        continue
    s = open(f).read()
    lvl = re.search(r'simHarness = \{\s*"C\d+",\s*"(\w+)"', s).group(1)
    tsan = "tsan" in (re.search(r"//\s*BUILD:(.*)", s) or [None, ""])[1].split()
    checks.append({"property": i, "quick_cmd": "./check %s quick" % i, "thorough_cmd": "./check %s thorough" % i,
        "technique": "deterministic simulation with fault injection: seeded search over " + (
            "thread schedules" if tsan else "histories, deliveries and fault sequences") + ", checked against an executable reference model",
        "level": lvl,
        "level_note": "Seeded search, not exhaustive: holds on every simulated run explored; a violation comes with a seed and a minimised replay file reproduced before it is reported. Trusts the simulator (sim/), the reference model and the compiler." + (TSAN if tsan else "")})
json.dump({"version": 1, "setup_cmd": "./setup", "hooks": {"guard": "none", "enable": "The library has its own seams (streams, system calls, allocation, threads); no hook was added to /repo.", "source_commits": []},
    "checks": checks, "not_applicable": na,
    "notes": "Replay: ./check <id> prints the replay file; ./replay <id> <file> runs it again. See DESIGN.md."}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", [n["property"] for n in na])
