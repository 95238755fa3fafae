#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from a description file: mkbugs.py FILE.py  (defines BUGS).
Each bug: id, property, file(s) edits [(file, old, new)], needs, breaks, demo (Go main)."""
import json, os, subprocess, sys, shutil, tempfile
V="/verif/seeded"
DEMO='''#!/bin/bash
# exits 0 when the property holds on the example of main.go, 1 otherwise
here="$(cd "$(dirname "$0")" && pwd)"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod HOME="${HOME:-/root}"
t="$(mktemp -d)" || exit 2
trap 'rm -rf "$t"' EXIT
printf '{"Replace":{"%s/zz_demo/main.go":"%s/main.go"}}' "$PWD" "$here" > "$t/overlay.json"
go build -overlay "$t/overlay.json" -o "$t/demo" ./zz_demo || exit 2
timeout 60 "$t/demo"
'''
ns={}
exec(open(sys.argv[1]).read(), ns)
only=set(sys.argv[2:])
for b in ns["BUGS"]:
    if only and b["id"] not in only: continue
    d=os.path.join(V,b["id"]); os.makedirs(d,exist_ok=True)
    t="/tmp/mkbug"; shutil.rmtree(t,ignore_errors=True); os.makedirs(t)
    diff=""
    for f in dict.fromkeys(e[0] for e in b["edits"]):
        src=open("/repo/"+f).read(); new=src
        for (ff,old,nw) in b["edits"]:
            if ff!=f: continue
            assert new.count(old)==1,(b["id"],f,old,new.count(old))
            new=new.replace(old,nw)
        for x,c in (("a",src),("b",new)):
            p=os.path.join(t,x,f); os.makedirs(os.path.dirname(p),exist_ok=True); open(p,"w").write(c)
        diff+=subprocess.run(["diff","-u","a/"+f,"b/"+f],cwd=t,capture_output=True,text=True).stdout
    import re
    diff=re.sub(r"^(---|\+\+\+) (\S+)\t.*$",r"\1 \2",diff,flags=re.M)
    open(d+"/patch.diff","w").write(diff)
    open(d+"/main.go","w").write(b["demo"])
    open(d+"/demo.sh","w").write(DEMO.replace("go build -overlay","go build "+b["flags"]+" -overlay") if "flags" in b else DEMO); os.chmod(d+"/demo.sh",0o755)
    json.dump({"property":b["property"],"needs":b["needs"],"what_it_breaks":b["breaks"]},open(d+"/meta.json","w"),indent=1)
    subprocess.run(["gofmt","-w",d+"/main.go"])
shutil.rmtree("/tmp/mkbug",ignore_errors=True)
