#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the scenarios compiled into build/bhsim."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
have = {}
for l in subprocess.run([V + "/build/bhsim", "list"], capture_output=True, text=True).stdout.splitlines():
    n, rest = l.split(":", 1)
    for w in rest.split():
        if "*" in w and w[0] == "C" and w[1:3].isdigit(): have.setdefault(w.split("*")[0], []).append(n)
NA = {"C24": "The property is a pure function of its input (pattern text, record, configuration value): no thread, clock, I/O, fault or schedule takes part, so a simulator has nothing to schedule or inject; deciding it would need input-domain techniques (fuzzing, enumeration, proof), which are outside this family. The parts of formatting that do depend on concurrency and the clock are C20 and C25."}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NA: na.append({"property": i, "reason": NA[i]}); continue
    if i not in have: na.append({"property": i, "reason": "no check has been built for it yet"}); continue
    checks.append({"property": i, "quick_cmd": "./check.sh " + i, "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + i,
        "evidence_file": "evidence/%s.json" % i, "level": "exploration",
        "technique": "deterministic simulation with fault injection: seeded search over schedules and faults (scenarios: %s)" % ", ".join(have[i]),
        "level_note": "Seeded pseudo-random search, no exhaustiveness: a clean batch is evidence, not proof. The library runs for real (recompiled from the working tree with access instrumentation); threads, clocks, heap, files, sockets, console and syslog are the simulator's. Trusts the simulated operating system's model and sequential consistency (weak-memory effects are visible only as data races)."})
m = {"version": 1, "setup_cmd": "python3 build.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the seams are the libc/pthread symbols and the compiler's instrumentation callbacks, interposed at link time in build/bhsim. Known findings: known_findings.txt. Replay a violation with: build/bhsim replay FILE."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1); open(V + "/MANIFEST.json", "a").write("\n")
