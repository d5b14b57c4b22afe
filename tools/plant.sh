#!/bin/bash
# plant.sh take NAME        store the diff of the scratch copy $P/repo as seeded/NAME/patch.diff and undo it
# plant.sh confirm NAME     scratch copy: compiles, stable tests pass, demo 0 without / nonzero with the patch
# plant.sh check NAME [IDS] apply to /repo, run quick checks (default: property of meta.json), undo
export PATH=/root/.cargo/bin:$PATH
P=${PLANT:-/tmp/plant4}; S=/verif/seeded/$2; R=$P/repo
case $1 in
take)
  mkdir -p $S; git -C $R diff > $S/patch.diff; git -C $R checkout -q -- .; wc -l $S/patch.diff ;;
confirm)
  git -C $R fetch -q /repo HEAD && git -C $R checkout -q --detach FETCH_HEAD && git -C $R checkout -q -- .
  sed "s#/repo#$R#g" /opt/vp/build.sh > $P/build.sh; sed "s#/repo#$R#g" /opt/vp/test.sh > $P/test.sh
  (cd $R; bash $S/demo.sh > $P/demo0.log 2>&1); echo "demo clean: $?"
  git -C $R apply $S/patch.diff || { echo "patch does not apply"; exit 1; }
  bash $P/build.sh > $P/build.log 2>&1 || { echo "does not build"; tail -30 $P/build.log; git -C $R checkout -q -- .; exit 1; }
  bash $P/test.sh $P/out.json > $P/test.log 2>&1
  python3 - <<PY
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=json.load(open('$P/out.json'))
ok=set(o['passed'])
print('stable tests failing:', sorted(b-ok))
PY
  (cd $R; bash $S/demo.sh > $P/demo1.log 2>&1); echo "demo patched: $?"; tail -5 $P/demo1.log
  git -C $R checkout -q -- . ;;
check)
  n=$2; shift 2; ids=$*; [ -z "$ids" ] && ids=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  git -C /repo diff --quiet || { echo "/repo is dirty"; exit 2; }
  git -C /repo apply $S/patch.diff || exit 2
  for i in $ids; do (cd /verif; VERIF_SEED=1 VERIF_TIER=quick ./run.sh $i quick > $P/check.log 2>&1; r=$?; echo "$n $i exit $r: $(grep -m1 VIOLATION $P/check.log)"); done
  git -C /repo checkout -q -- . ;;
esac
