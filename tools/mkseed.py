#!/usr/bin/env python3
"""mkseed.py: helper that writes seeded/<id> from a spec module: id, property, pkg, edits, test body, needs, breaks."""
import os,subprocess,json
DEMO='''#!/bin/bash
# Runs demo_test.go inside package %(pkg)s of the repository in the current directory.
D=$(cd "$(dirname "$0")" && pwd)
O=$(mktemp)
printf '{"Replace":{"%%s/%(pkg)s/zz_demo_test.go":"%%s/demo_test.go"}}' "$PWD" "$D" > "$O"
go test -vet=off -count=1 -timeout 120s -overlay "$O" -run ZZDemo ./%(pkg)s
r=$?
rm -f "$O"
exit $r
'''
def seed(id,prop,pkg,edits,test,needs,breaks):
    d=f"/verif/seeded/{id}"; os.makedirs(d,exist_ok=True)
    W="/tmp/seedwork"
    if not os.path.exists(W): subprocess.check_call(["cp","-a","/repo",W])
    subprocess.check_call("git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD",shell=True,cwd=W)
    for f,subs in edits.items():
        p=W+"/"+f; s=open(p).read()
        for a,b in subs:
            assert s.count(a)==1,(id,f,a,s.count(a)); s=s.replace(a,b)
        open(p,"w").write(s)
    diff=subprocess.run(["git","-C",W,"diff"],capture_output=True,text=True).stdout
    subprocess.run(["git","-C",W,"checkout","--","."])
    open(d+"/patch.diff","w").write(diff)
    open(d+"/demo.sh","w").write(DEMO%dict(pkg=pkg)); os.chmod(d+"/demo.sh",0o755)
    open(d+"/demo_test.go","w").write(test)
    subprocess.run(["gofmt","-w",d+"/demo_test.go"])
    json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(d+"/meta.json","w"),indent=1)
