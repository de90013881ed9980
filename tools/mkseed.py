"""mk(id, prop, needs, what, edits=[(file,old,new)], files={name:content}, demo=...)"""
import os, json, subprocess, tempfile, shutil
V='/verif/seeded'
DEMO='''#!/bin/bash
# exit 0: the property holds in this tree; nonzero: it does not
here="$(cd "$(dirname "$0")" && pwd)"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOMODCACHE=/root/go/pkg/mod
repo="$PWD"
tmp="$(mktemp -d)" || exit 3
trap 'rm -rf "$tmp"' EXIT
export DEMO_SCRATCH="$tmp" DEMO_REPO="$repo"
printf '{"Replace":{"%%s":"%%s"}}' "$repo/%(dir)s/zz_demo_test.go" "$here/demo_test.go" > "$tmp/overlay.json"
cd "$repo/%(mod)s" && go test -vet=off -overlay "$tmp/overlay.json" -run TestDemo -count=1 -timeout 120s ./%(pkg)s
'''
def mk(id, prop, needs, what, edits, test=None, dir='1pass-app/test/core/service', files={}, demo=None):
    d=tempfile.mkdtemp(prefix='mk-',dir='/tmp'); r=d+'/repo'; subprocess.run(['cp','-a','/repo',r],check=True)
    for f,o,n in edits:
        p=r+'/'+f; s=open(p).read(); assert s.count(o)==1,(id,f,s.count(o),o); open(p,'w').write(s.replace(o,n))
    x=subprocess.run(['git','diff'],cwd=r,capture_output=True,text=True).stdout; assert x
    shutil.rmtree(d)
    t=V+'/'+id; os.makedirs(t,exist_ok=True); open(t+'/patch.diff','w').write(x)
    if demo is None:
        mod,_,pkg=dir.partition('/'); demo=DEMO%dict(dir=dir,mod=mod,pkg=pkg)
    open(t+'/demo.sh','w').write(demo); os.chmod(t+'/demo.sh',0o755)
    if test: open(t+'/demo_test.go','w').write(test)
    for k,v in files.items(): open(t+'/'+k,'w').write(v)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":what},open(t+'/meta.json','w'),indent=1)
