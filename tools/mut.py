#!/usr/bin/env python3
"""Development helper: runs the quick check against many small changes (files given as arguments, each
defining M = [(name, property, [(file, old, new), ...]), ...]) in copies of /repo. Never used by a check.
FILTER=regex selects by name; TESTS=0 skips the repository's tests."""
import os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import seed
flt = re.compile(os.environ.get("FILTER", ""))
base = None
for path in sys.argv[1:]:
    ns = {}; exec(open(path).read(), ns)
    for name, prop, edits in ns["M"]:
        if not flt.search(name): continue
        d, r = seed.copy()
        try:
            bad = ""
            for f, o, n in edits:
                p = os.path.join(r, f); s = open(p).read()
                if s.count(o) < 1: bad = "NOMATCH %s %r" % (f, o[:60]); break
                if s.count(o) > 1 and not n.startswith("\0"): bad = "AMBIGUOUS %s %r" % (f, o[:60]); break
                open(p, "w").write(s.replace(o, n.lstrip("\0")))
            if not bad:
                b = seed.build(r)
                if b: bad = "NOBUILD " + b[-300:]
            if not bad and os.environ.get("TESTS") != "0":
                if base is None:
                    d2, r2 = seed.copy(); base = seed.tests(r2); shutil.rmtree(d2)
                t = seed.tests(r)
                if base - t: bad = "KILLED-BY-TESTS %s" % [x.split(".")[-1] for x in sorted(base - t)][:4]
            if bad: print(name, prop, bad, flush=True); continue
            for pr in prop.split(","):
                e = dict(os.environ, VERIF_REPO=r, VERIF_SEED=os.environ.get("SEED", "1"))
                x = subprocess.run(["bash", os.path.join(V, "check.sh"), pr], cwd=V, env=e, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                lines = [l for l in x.stdout.strip().splitlines() if l]
                m = [l for l in lines if not l.startswith(("VIOLATION", pr + ":"))]
                print(name, pr, {0: "MISSED", 1: "caught"}.get(x.returncode, "ERROR rc=%d" % x.returncode), (m[-1] if m else "")[:170], "|", (lines[-1] if lines else "")[:30], flush=True)
        finally: shutil.rmtree(d)
