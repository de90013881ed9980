#!/usr/bin/env python3
"""Builds the simulator: /repo's real application plus the simulation kit.

usage: build.py OUTDIR      -> OUTDIR/sim

/repo is only read: the extra init file, the patched standard library and the
stubbed terminal modules come in through 'go build -overlay' and '-modfile'.
Exit status 3: the build could not be made (an error of the check).
"""
import json, os, re, shutil, subprocess, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.path.abspath(sys.argv[1])
env = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOMODCACHE="/root/go/pkg/mod",
           GOCACHE=os.environ.get("VERIF_GOCACHE", "/root/.cache/go-build"), CGO_ENABLED="0", GOWORK="off", GOOS="linux", GOARCH="amd64")
env["PATH"] = "/usr/local/bin:/usr/local/go/bin:" + env.get("PATH", "")
env.setdefault("HOME", "/root")

def die(msg):
    sys.stderr.write("build: " + msg + "\n"); sys.exit(3)

def run(cmd, cwd=None, quiet=False):
    r = subprocess.run(cmd, cwd=cwd, env=env, text=True, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if r.returncode != 0:
        die("%s\n%s%s" % (" ".join(cmd), r.stdout[-4000:], r.stderr[-4000:]))
    return r.stdout

os.makedirs(OUT, exist_ok=True)
run([sys.executable, os.path.join(VERIF, "tools/mkoverlay.py"), OUT])
with open(os.path.join(OUT, "std.json")) as f: replace = json.load(f)

app = os.path.join(REPO, "1pass-app")
def writable_copy(src, dst):
    if os.path.exists(dst): shutil.rmtree(dst)
    shutil.copytree(src, dst)
    for d, _, fs in os.walk(dst):
        os.chmod(d, 0o755)
        for f in fs: os.chmod(os.path.join(d, f), 0o644)

# go.mod with absolute replace paths
with open(os.path.join(app, "go.mod")) as f: mod = f.read()
mod = re.sub(r"=>\s*(\.\.?/[^\s]*)", lambda m: "=> " + os.path.normpath(os.path.join(app, m.group(1))), mod)
shutil.copy(os.path.join(app, "go.sum"), os.path.join(OUT, "go.sum"))
shutil.copy(os.path.join(app, "go.sum"), os.path.join(OUT, "app.sum"))
modfile = os.path.join(OUT, "app.mod")
with open(modfile, "w") as f: f.write(mod)
deps = run(["go", "list", "-modfile", modfile, "-deps", "-f", "{{with .Module}}{{.Path}} {{.Version}} {{.Dir}}{{end}}", "."], cwd=app)
info = {}
for line in deps.splitlines():
    p = line.split(" ")
    if len(p) == 3: info[p[0]] = (p[1], p[2])
extra = ""
if "golang.org/x/term" in info:
    ver, d = info["golang.org/x/term"]
    dst = os.path.join(OUT, "x_term"); writable_copy(d, dst)
    for f in os.listdir(dst):
        if f.startswith("term_") or f.endswith("_test.go"): os.remove(os.path.join(dst, f))
    shutil.copy(os.path.join(VERIF, "sim/stub/term_unix.go"), os.path.join(dst, "term_unix.go"))
    with open(os.path.join(dst, "go.mod"), "a") as f: f.write("\nrequire verif.local/seam v0.0.0\n")
    extra += "replace golang.org/x/term => %s\n" % dst
if "github.com/nsf/termbox-go" in info:
    ver, d = info["github.com/nsf/termbox-go"]
    dst = os.path.join(OUT, "termbox"); writable_copy(d, dst)
    for f in os.listdir(dst):
        if f.endswith(".go") and f not in ("api_common.go", "termbox_common.go"): os.remove(os.path.join(dst, f))
    shutil.copy(os.path.join(VERIF, "sim/stub/termbox_api.go"), os.path.join(dst, "api.go"))
    with open(os.path.join(dst, "go.mod"), "a") as f: f.write("\nrequire verif.local/seam v0.0.0\n")
    extra += "replace github.com/nsf/termbox-go => %s\n" % dst
mod += "\nrequire verif.local/kit v0.0.0\nrequire verif.local/seam v0.0.0\n"
mod += "replace verif.local/kit => %s\nreplace verif.local/seam => %s\n" % (os.path.join(VERIF, "sim/kit"), os.path.join(VERIF, "sim/seam"))
mod += extra
with open(modfile, "w") as f: f.write(mod)
initf = os.path.join(OUT, "zz_verif_init.go")
with open(initf, "w") as f:
    f.write('package main\n\nimport "verif.local/kit"\n\nfunc init() { kit.Main(main) }\n')
replace[os.path.join(app, "zz_verif_init.go")] = initf
ov = os.path.join(OUT, "overlay.json")
with open(ov, "w") as f: json.dump({"Replace": replace}, f)
run(["go", "build", "-trimpath=false", "-buildvcs=false", "-overlay", ov, "-modfile", modfile, "-o", os.path.join(OUT, "sim"), "."], cwd=app)
