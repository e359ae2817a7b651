#!/bin/bash
# catch.sh ID...: runs each planted bug's quick check against a patched copy of /repo and notes the result in caught.json.
for id in "$@"; do
 p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
 S=/tmp/catch.$id; mkdir -p $S && cp -a /repo $S/ && git -C $S/repo checkout -q -- . && git -C $S/repo apply /verif/seeded/$id/patch.diff || { echo "$id does not apply"; rm -rf "/tmp/catch.$id"; continue; }
 s=$(date +%s); out=$(cd /verif && GOSYM_REPO=$S/repo GOSYM_OUT=$S timeout 900 ./gosym.sh check $p 2>&1); rc=$?; e=$(( $(date +%s)-s ))
 if [ $rc = 1 ] && grep -q "^VIOLATION property=$p" <<<"$out"; then r="$p"; echo "$id: caught by $p (${e}s)"; else r="missed by $p"; echo "$id: MISSED by $p rc=$rc (${e}s)"; grep -i "incompl\|mismatch\|unrepro" <<<"$out" | cut -c1-250 | head -3; fi
 python3 - "$id" "$r" <<'P'
import json,sys,os
f='/verif/tools/caught.json'
d=json.load(open(f)) if os.path.exists(f) else {}
d[sys.argv[1]]=sys.argv[2]; json.dump(dict(sorted(d.items())),open(f,'w'),indent=1)
P
 rm -rf "/tmp/catch.$id"
done
