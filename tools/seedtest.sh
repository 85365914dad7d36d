#!/bin/bash
# seedtest.sh ID...: confirm planted bugs in a scratch copy and run their property's check on it
n=0
one() {
  id=$1; s=/verif/seeded/$id; w=$(mktemp -d /tmp/seedXXXXXX); r=$w/repo
  mkdir $r; git -C /repo archive HEAD | tar -x -C $r
  pid=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
  if [ -z "$SKIPTEST" ]; then
  (cd $r && bash $s/demo.sh >$w/d0 2>&1); d0=$?
  (cd $r && git init -q . && git apply $s/patch.diff) || echo "$id: PATCH DOES NOT APPLY"
  (cmake -S $r -B $r/_build -G Ninja -DCMAKE_BUILD_TYPE=Debug -DCMAKE_C_COMPILER=/usr/bin/gcc -DCMAKE_CXX_COMPILER=/usr/bin/g++ -DCMAKE_PROJECT_rst_INCLUDE=/opt/vp/cmake/local_googletest.cmake && ninja -j6 -C $r/_build rst rst_tests) >$w/build.log 2>&1; b=$?
  (cd $r/_build && timeout 200 ./rst_tests >$w/test.log 2>&1); t=$?
  (cd $r && bash $s/demo.sh >$w/d1 2>&1); d1=$?
  else (cd $r && git init -q . && git apply $s/patch.diff); fi
  (cd ${VDIR:-/verif} && VERIF_REPO=$r VERIF_OUT=$w/out timeout 900 python3-vt check.py $pid >$w/check.log 2>&1); c=$?
  echo "$id [$pid] demo-clean=$d0 build=$b tests=$t demo-patched=$d1 check=$c  $(grep -m1 VIOLATION $w/check.log)"
  if [ -n "$SHOW" ]; then cat $w/d1 $w/check.log; [ "$b" = 0 ] || tail -20 $w/build.log;  [ "$t" = 0 ] || grep FAILED $w/test.log; fi
  rm -rf "$w"
}
export -f one
printf '%s\n' "$@" | xargs -P ${P:-2} -I{} bash -c 'one {}'
