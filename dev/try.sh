#!/bin/bash
# try.sh <seeded id>...: does the planted bug count (tests pass, demo tells), and is it caught?
V=/verif
for id in "$@"; do
  d=$V/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  [ -z "$(git -C /repo status --short)" ] || { echo "repo dirty"; exit 2; }
  (cd /repo && bash $d/demo.sh) >/tmp/demo.clean 2>&1; a=$?
  git -C /repo apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  t=$(bash /tmp/rt.sh 2>&1 | tail -1)
  (cd /repo && timeout 300 bash $d/demo.sh) >/tmp/demo.bug 2>&1; b=$?
  o=$(cd $V && ./check.sh $prop 2>&1); c=$?
  git -C /repo checkout -q -- .
  echo "$id ($prop): tests: $t; demo clean=$a bug=$b ($(tail -1 /tmp/demo.bug)); check=$c $(echo "$o" | grep -m1 "violation in run" | cut -c1-160) $(echo "$o" | grep -c ^VIOLATION)"
done
