#!/bin/bash
# Prebuilds the harness; a check builds again what it needs from /repo's current tree.
cd "$(dirname "$0")" && exec python3 lib/build.py asan:pub asan:int
