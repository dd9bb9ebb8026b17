#!/usr/bin/env python3
"""mkbug.py SPEC.py: SPEC defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], FILES={name: text}; writes /verif/seeded/ID. 'DEMO' is the body of demo.sh."""
import json,os,subprocess,sys
for p in sys.argv[1:]:
    n={}; exec(open(p).read(),n)
    for b in n["BUGS"]:
        d=f"/verif/seeded/{b['id']}"; os.makedirs(d,exist_ok=True)
        import tempfile,shutil
        t=tempfile.mkdtemp()
        pa=""
        files={}
        for f,o,w in b["edits"]:
            s=files.get(f) or open(f"/repo/{f}").read()
            assert s.count(o)==1,(b['id'],f,o,s.count(o))
            files[f]=s.replace(o,w)
        for f,s in files.items():
            open(t+"/x","w").write(s)
            r=subprocess.run(["git","diff","--no-index","--",f"/repo/{f}",t+"/x"],capture_output=True,text=True).stdout
            r=r.replace(f"a/repo/{f}",f"a/{f}").replace(f"b{t}/x",f"b/{f}")
            pa+=r
        shutil.rmtree(t)
        open(d+"/patch.diff","w").write(pa)
        for k,v in b.get("files",{}).items(): open(f"{d}/{k}","w").write(v)
        demo=b.get("demo") or '''D=$(cd "$(dirname "$0")"; pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
C=$PWD/_build/c3c; cd "$T"
"$C" compile %s "$D/demo.c3" -o "$T/demo" >"$T/log" 2>&1 || { cat "$T/log"; exit 3; }
"$T/demo"
''' % b.get("flags","-O1")
        open(d+"/demo.sh","w").write("#!/bin/bash\n"+demo)
        json.dump({"property":b["property"],"needs":b["needs"],"what_it_breaks":b["breaks"]},open(d+"/meta.json","w"),indent=1)
