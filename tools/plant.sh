#!/bin/bash
# plant.sh ID: checks a planted bug (seeded/ID) in a scratch copy: applies, builds, tests pass, demo 0 before / non-zero after.
id=$1; S=/tmp/plant.$id; mkdir -p $S; cp -a /repo $S/; cd $S/repo || exit 2
D=$S/demo; mkdir -p $D; cp /verif/seeded/$id/* $D/; mv $D/patch.diff $S/; 
. /opt/vp/env.sh; cd $S/repo || exit 2
bash $D/demo.sh >$S/demo0.log 2>&1; r0=$?
git apply $S/patch.diff || { echo "$id: does not apply"; rm -rf "/tmp/plant.$id"; exit 1; }
go build ./... || { echo "$id: does not build"; rm -rf "/tmp/plant.$id"; exit 1; }
go test -vet=off -count=1 ./... >$S/test.log 2>&1; rt=$?
bash $D/demo.sh >$S/demo1.log 2>&1; r1=$?
if [ $r0 = 0 ] && [ $rt = 0 ] && [ $r1 != 0 ]; then echo "$id: ok"; else echo "$id: demo0=$r0 tests=$rt demo1=$r1"; tail -5 $S/demo0.log; grep -v '^ok\|no test files' $S/test.log|tail; tail -5 $S/demo1.log; fi
rm -rf "/tmp/plant.$id"
