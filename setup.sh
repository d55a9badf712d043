#!/bin/bash
# Builds the drivers once, so that the checks only rebuild what changed.
cd "$(dirname "$0")" && exec python3 -c '
import sys; sys.path.insert(0, "lib")
import os, vlib
for crate in sorted(os.listdir("harness")):
    if os.path.exists("harness/%s/src/main.rs" % crate):
        rc, out = vlib.cargo_build(os.path.join(vlib.VERIF, "harness", crate))
        if rc: print(out); sys.exit(rc)
'
