#!/bin/bash
# Runs the named checks (all without names) one after another and prints a line for each.
cd "$(dirname "$0")/.."
[ $# = 0 ] && set -- $(cd checks; ls P*.py | sed 's/\.py//')
for p in "$@"; do
  o=$(python3 checks/$p.py 2>&1); r=$?
  echo "$p rc=$r $(echo "$o" | tail -1 | cut -c1-200)"; [ $r = 0 ] || echo "$o" | head -40 | cut -c1-600
done
