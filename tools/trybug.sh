#!/bin/bash
# trybug.sh ID... : in a scratch copy of /repo and /verif, applies each seeded change, rebuilds, runs the stable tests,
# the demonstration and the check of its property (unless NOCHECK), and undoes it. CLEAN=1: demonstrations on the unchanged tree only.
S=/tmp/trybug; mkdir -p $S
if [ ! -d $S/repo ]; then cp -a /repo $S/repo; rm -rf "${S:?}/repo/_build"; fi
(cd $S/repo && git checkout -q -- . && git fetch -q /repo HEAD && git checkout -q FETCH_HEAD)
mkdir -p $S/verif && cp -a /verif/check.py /verif/jobs.py /verif/bounds.py /verif/harness /verif/config /verif/engine /verif/known_findings.json /verif/properties.jsonl $S/verif/ 2>/dev/null
[ -d $S/verif/build ] || mkdir -p $S/verif/build; cp -a /verif/build/symx $S/verif/build/ 2>/dev/null
for f in build test; do sed "s#/repo#$S/repo#g; s#/opt/vp/build.sh#$S/build.sh#" /opt/vp/$f.sh > $S/$f.sh; done
if [ -n "$CLEAN" ]; then
  bash $S/build.sh > $S/log 2>&1 || echo BUILD FAILS
  for id in "$@"; do (cd $S/repo && bash /verif/seeded/$id/demo.sh) > $S/out 2>&1; echo "$id clean demo rc=$? $(tail -1 $S/out | cut -c1-80)"; done; exit
fi
for id in "$@"; do
  D=/verif/seeded/$id; P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
  git -C $S/repo apply $D/patch.diff || { echo "$id: PATCH FAILS"; continue; }
  bash $S/test.sh $S/t.json > $S/log 2>&1; t=$?
  n=$(python3 -c "
import json;o=json.load(open('$S/t.json'));b=json.load(open('/opt/vp/BASELINE.json'))['stable']
print('missing',sorted(set(b)-set(o['passed']))[:3])")
  (cd $S/repo && bash $D/demo.sh) > $S/demo.out 2>&1; d=$?
  [ -n "$NOCHECK" ] || { (cd $S/verif && VERIF_REPO=$S/repo timeout 900 python3 check.py $P) > $S/chk 2>&1; c=$?; }
  git -C $S/repo checkout -q -- .
  echo "$id [$P] tests rc=$t $n; demo rc=$d ($(tail -1 $S/demo.out | cut -c1-80)); check rc=$c $(grep -m1 VIOLATION $S/chk | cut -c1-150)"
done
