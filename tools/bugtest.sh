#!/bin/bash
# bugtest.sh ID...: full validation of planted changes in a scratch copy (tests pass, demo discriminates), then the check
for id in "$@"; do
  d=${SEED_DIR:-/verif/seeded}/$id; w=/tmp/bt_$id; rm -rf $w; cp -a /repo $w
  (cd $w && bash $d/demo.sh >/dev/null 2>&1); a=$?
  git -C $w apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  (cd $w && timeout 300 bash $d/demo.sh > /tmp/bt_$id.demo 2>&1); b=$?
  if [ -z "$NOTESTS" ]; then
    t=ok; for c in dev-debug dev-debug-simd notones-debug; do
      case $c in dev-debug) o=;; dev-debug-simd) o=-DMBELIB_ENABLE_SIMD=ON;; *) o=;; esac
      p=dev-debug; [ $c = notones-debug ] && p=notones-debug
      (cd $w && cmake --preset $p -S . -B /tmp/bt_$id.b -G Ninja $o && ninja -C /tmp/bt_$id.b && ctest --test-dir /tmp/bt_$id.b -j8) > /tmp/bt_$id.log 2>&1 || t=FAIL_$c
      rm -rf /tmp/bt_$id.b
    done
  fi
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  s=$(date +%s); VF_REPO=$w python3 ${VF_RUN:-/verif}/run.py $p > /tmp/bt_$id.chk 2>&1; c=$?; e=$(date +%s)
  echo "$id prop=$p demo: clean=$a patched=$b tests=$t check=$c ($((e-s))s) $(grep VIOLATION /tmp/bt_$id.chk | head -1)"
  rm -rf $w
done
