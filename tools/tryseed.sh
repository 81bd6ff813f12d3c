#!/bin/bash
# tryseed.sh ID...: confirm a seeded change in a scratch copy: demo passes without, tests pass with, demo fails with.
# With CHECK=1 also run the property's quick check against the patched copy.
for id in "$@"; do
  S=/verif/seeded/$id; W=$(mktemp -d /tmp/seedXXXX); cp -a /repo "$W/repo"; rm -rf "$W/repo/_build"
  cd "$W/repo" || exit 1
  bld() { if [ ! -f _build/build.ninja ]; then CC=gcc CXX=g++ cmake -S . -B _build -G Ninja -DCMAKE_BUILD_TYPE=Debug -DCMAKE_CXX_FLAGS=-Wno-error -DCMAKE_C_FLAGS=-Wno-error >/dev/null 2>&1; fi; ninja -C _build >"$W/build.log" 2>&1; }
  D=$(mktemp -d /tmp/demoXXXX); cp -a "$S"/. "$D"/; rm -f "$D"/*.diff "$D"/meta.json
  bld; timeout 300 bash "$D/demo.sh" >"$W/d0.log" 2>&1; r0=$?
  git apply "$S/patch.diff" || echo "$id: PATCH DOES NOT APPLY"
  bld || echo "$id: BUILD FAILS"; 
  ctest --test-dir _build -j8 --timeout 120 >"$W/t.log" 2>&1; rt=$?
  timeout 300 bash "$D/demo.sh" >"$W/d1.log" 2>&1; r1=$?
  echo "$id: demo clean=$r0 tests=$rt demo patched=$r1 $( [ $r0 = 0 -a $rt = 0 -a $r1 != 0 ] && echo OK || { echo BAD; tail -5 $W/d0.log; tail -4 $W/t.log; tail -3 $W/d1.log; } )"
  if [ -n "$CHECK" ]; then p=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])"); (cd /verif && SX_REPO=$W/repo python3 check.py $p > $W/c.log 2>&1; echo "   check $p exit $?"; grep -E "VIOLATION|assert\]|NOTE|UNREP" $W/c.log | cut -c1-200 | head -4); fi
  rm -rf "$W" "$D"
done
