#!/usr/bin/env python3
"""Development helper for planted bugs (never used by a check).

seed.py verify ID...   patch applies, builds, keeps the tests passing; demo passes without, fails with it
seed.py catch  ID...   run the property's quick check against a patched copy (PROP=Cxx to override, SEED=n)
Works on copies of /repo under /tmp.
"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
env = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build", HOME="/root")
MODS = ["1pass-core", "1pass-parse", "1pass-up", "1pass-term", "1pass-app"]
def sh(cmd, cwd, **k): return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), env=k.get("env", env), text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
def copy():
    d = tempfile.mkdtemp(prefix="seed-", dir="/tmp"); r = os.path.join(d, "repo"); sh(["cp", "-a", "/repo", r], "/"); return d, r
def build(r):
    for m in MODS:
        x = sh("go build ./...", os.path.join(r, m))
        if x.returncode: return x.stdout
    x = sh("go build -o ../bin/1pass .", os.path.join(r, "1pass-app"))
    return x.stdout if x.returncode else ""
def tests(r):
    ok = set()
    for m in MODS:
        sh("git checkout -q -- assets; rm -f assets/lastcheck", r)
        x = sh("go test -json -vet=off -count=1 -p 1 -timeout 2m ./...", os.path.join(r, m))
        for l in x.stdout.splitlines():
            try: e = json.loads(l)
            except ValueError: continue
            if e.get("Action") == "pass" and e.get("Test"): ok.add(e["Package"] + "." + e["Test"])
    sh("git checkout -q -- assets; rm -f assets/lastcheck", r)
    return ok
def verify(i, base):
    s = os.path.join(V, "seeded", i); d, r = copy()
    try:
        lay = os.path.join(d, "lay"); shutil.copytree(s, lay)
        for f in os.listdir(lay):
            if f.endswith((".diff", ".patch")) or f == "meta.json": os.remove(os.path.join(lay, f))
        b = build(r)
        if b: return "base does not build\n" + b
        x = sh(["bash", os.path.join(lay, "demo.sh")], r)
        if x.returncode: return "demo fails on the unchanged tree\n" + x.stdout[-3000:]
        a = sh(["git", "apply", os.path.join(s, "patch.diff")], r)
        if a.returncode: return "patch does not apply\n" + a.stdout
        b = build(r)
        if b: return "patched tree does not build\n" + b
        t = tests(r)
        if base[0] is None:
            sh(["git", "apply", "-R", os.path.join(s, "patch.diff")], r); base[0] = tests(r); sh(["git", "apply", os.path.join(s, "patch.diff")], r); build(r)
        if base[0] - t: return "tests fail: %s" % sorted(base[0] - t)
        x = sh(["bash", os.path.join(lay, "demo.sh")], r)
        if x.returncode == 0: return "demo passes with the patch\n" + x.stdout[-3000:]
        return "ok (" + str(len(t)) + " tests) " + x.stdout.strip()[-300:].replace("\n", " | ")
    finally: shutil.rmtree(d)
def catch(i):
    s = os.path.join(V, "seeded", i); d, r = copy()
    try:
        a = sh(["git", "apply", os.path.join(s, "patch.diff")], r)
        if a.returncode: return "patch does not apply\n" + a.stdout
        p = os.environ.get("PROP") or json.load(open(os.path.join(s, "meta.json")))["property"]
        e = dict(os.environ, VERIF_REPO=r, VERIF_SEED=os.environ.get("SEED", "1"))
        x = sh(["bash", os.path.join(V, "check.sh"), p], V, env=e)
        return "%s rc=%d %s" % (p, x.returncode, " | ".join(x.stdout.strip().splitlines()[-8:])[-900:])
    finally: shutil.rmtree(d)
if __name__ == "__main__":
    base = [None]
    for i in sys.argv[2:]:
        print(i, verify(i, base) if sys.argv[1] == "verify" else catch(i), flush=True)
