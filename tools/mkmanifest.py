#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl (claimed = registered in the simulator)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = "".join(open(os.path.join(V, "sim/kit", f)).read() for f in sorted(os.listdir(os.path.join(V, "sim/kit"))))
claimed = set(re.findall(r'register\(&property\{id: "(C\d+)"', src))
NA = {
 "C25": "Which category names, codes and field kinds exist is a fixed table and a pure function of one string; nothing in it depends on schedule, time, I/O or another party, so a simulated fault or interleaving cannot change the outcome and a seeded search adds nothing to reading the table. (The listing checks C01/C21 use the table with every code, but do not claim to decide it.)",
 "C26": "Whether key material is still present in freed process memory is not observable at any seam (disk, network, terminal, process table) the simulator controls; Go gives no guarantee about copies left by the garbage collector. What is observable about locking is decided by C09.",
}
NOTE = "Seeded search over simulated executions of the real program (all of main() down to the system-call layer): evidence, not proof. Trusts the simulator's models of disk, terminal, network and clock, and Go 1.27's runtime with one goroutine running at a time."
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line); i = p["id"]
    if i in claimed:
        checks.append({"property": i, "quick_cmd": "bash check.sh " + i, "thorough_cmd": "VERIF_TIER=thorough bash check.sh " + i,
                       "evidence_file": "evidence/%s.json" % i, "technique": "deterministic simulation with fault injection", "level": "exploration", "level_note": NOTE})
    else:
        na.append({"property": i, "reason": NA.get(i, "simulation scenarios for it are not built yet")})
m = {"version": 1, "setup_cmd": "python3 tools/build.py .build && test -x .build/sim",
     "hooks": {"guard": "none: /repo carries no hooks", "enable": "the checks build /repo's unmodified sources with 'go build -overlay' and '-modfile' (tools/build.py); system calls, time, randomness, TCP and the terminal are intercepted below /repo, in an overlaid standard library and stubbed terminal modules", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "quick: fixed number of seeded runs (same VERIF_SEED = same runs); thorough: as many runs as fit in 780 s on 8 workers. Replay a violation with 'bash replay.sh FILE'."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1); open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
