#!/bin/bash
# trybugs.sh ID...: runs the check of each planted bug's property against it, and prints whether it is caught.
for i in "$@"; do
  D=/verif/seeded/$i; p=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
  git -C /repo apply $D/patch.diff || { echo "$i does not apply"; continue; }
  (cd /verif && python3 checks/$p.py > /tmp/try.$i 2>&1); r=$?
  git -C /repo checkout -q -- .
  echo "$i $p rc=$r $(grep -c ^VIOLATION /tmp/try.$i) violations: $(grep -m3 '  key=' /tmp/try.$i | cut -c1-160 | tr '\n' '|')"
done
