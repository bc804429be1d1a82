#!/bin/bash
# build.sh CMD OUT : build one harness binary from /repo's working tree
cd "$(dirname "$0")/.." && python3 - "$1" "$2" <<'P'
import sys; sys.path.insert(0,'lib')
import vlib, tempfile, shutil
s=vlib.scratch_root(); b=vlib.build(s,sys.argv[1]); shutil.move(b,sys.argv[2]); shutil.rmtree(s)
P
