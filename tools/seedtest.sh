#!/bin/bash
# usage: seedtest.sh [-t] [-c "P14 P01"] DIR...
# For each seeded change: in a private copy of /repo and /verif (bind mounts in
# a user namespace), check that the demonstration passes, apply the patch,
# build, check that the demonstration fails, run the stable tests (-t) and the
# checks of its property (or those named with -c).
TESTS=0; CHECKS=
while getopts tc: o; do case $o in t) TESTS=1;; c) CHECKS="$OPTARG";; esac; done
shift $((OPTIND-1))
for d in "$@"; do
  d=$(realpath "$d"); id=$(basename "$d"); S=$(mktemp -d /tmp/st.XXXXXX)
  cp -a /repo "$S/repo"; cp -a /verif "$S/verif"; cp -a "$d" "$S/demo"
  export S id TESTS CHECKS
  unshare -Urm bash -c '
    mount --bind $S/repo /repo; mount --bind $S/verif /verif; cd /repo
    P=$(python3 -c "import json;print(json.load(open(\"$S/demo/meta.json\"))[\"property\"])")
    bash /opt/vp/build.sh >$S/log 2>&1 || { echo "$id: base build failed"; exit; }
    timeout 300 bash $S/demo/demo.sh >$S/demo0 2>&1 || { echo "$id: DEMO FAILS ON BASE"; tail -5 $S/demo0; }
    git apply $S/demo/patch.diff || { echo "$id: patch does not apply"; exit; }
    bash /opt/vp/build.sh >$S/log 2>&1 || { echo "$id: BUILD FAILED"; tail $S/log; exit; }
    timeout 300 bash $S/demo/demo.sh >$S/demo1 2>&1 && echo "$id: DEMO PASSES WITH PATCH"
    if [ $TESTS = 1 ]; then
      bash /opt/vp/test.sh $S/t.json >$S/tlog 2>&1
      python3 - <<P || tail -5 $S/tlog
import json,sys
b=set(json.load(open("/opt/vp/BASELINE.json"))["stable"]); r=json.load(open("$S/t.json"))
miss=b-set(r["passed"]); print("$id: stable tests", "OK" if not miss else "FAIL %s"%sorted(miss)[:4])
P
    fi
    cd /verif
    for p in ${CHECKS:-$P}; do
      VERIF_SEED=1 VERIF_TIER=quick timeout 900 bin/check $p quick >$S/c.$p 2>&1; rc=$?
      echo "$id: $p exit $rc $(grep -c ^VIOLATION $S/c.$p) $(grep ^VIOLATION $S/c.$p | head -1) $(grep -m1 -i "^fail\|label" $S/c.$p | cut -c1-160)"
    done
  '
  rm -rf "$S"
done
