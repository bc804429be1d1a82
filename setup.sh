#!/bin/bash
# Warm the Go build cache for the harnesses; every check builds again from /repo.
cd "$(dirname "$0")" || exit 1
python3 - <<'E'
import sys, os; sys.path.insert(0, 'lib')
import vlib, registry, shutil
s = vlib.scratch_root()
try:
    for c, race in sorted({(r["cmd"], r.get("race", False)) for k in registry.CHECKS.values() for r in k["replays"]}):
        vlib.build(s, c, race)
        print("built", c, "race" if race else "")
finally:
    shutil.rmtree(s, ignore_errors=True)
E
