#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.json and properties.jsonl (run from /verif)."""
import json
checks=json.load(open("checks.json"))["checks"]
props=[json.loads(l) for l in open("properties.jsonl")]
NA=json.load(open("tools/not_applicable.json"))
out=dict(version=1,setup_cmd="./gosym.sh build",checks=[],not_applicable=[])
for p in props:
    i=p["id"]
    if i in checks:
        bounds="; ".join(h["fn"]+": "+h["bound"] for h in checks[i]["harnesses"] if h.get("bound"))
        note=("Within the stated bounds the solver decides the property for every value of the symbolic inputs, on the Go SSA built from /repo's current source. "
          +("Bounds: "+bounds+". " if bounds else "")
          +"Trusts: the Go SSA translation of x/tools, this engine's SSA semantics (validated on every run by replaying sampled paths natively), Z3, and the harness oracle. "
          +" ".join(checks[i].get("assumptions",[])))
        out["checks"].append(dict(property=i,quick_cmd=f"./gosym.sh check {i}",thorough_cmd=f"./gosym.sh -tier thorough check {i}",
          technique="bounded symbolic execution of the Go SSA with Z3",level="model_checking",level_note=note.strip()))
    else:
        out["not_applicable"].append(dict(property=i,reason=NA.get(i,"Check not built yet.")))
json.dump(out,open("MANIFEST.json","w"),indent=1); open("MANIFEST.json","a").write("\n")
