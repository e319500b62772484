#!/bin/bash
# Warm the build caches (every check also builds what it needs by itself).
cd "$(dirname "$0")" && python3 - <<'PY'
import sys, os
sys.path.insert(0, "mc")
import mclib
so, schema, sched = mclib.build_extension()
os.unlink(so); os.unlink(sched)
os.unlink(mclib.build_crates())
mclib.sh(["cargo", "build", "--offline"], cwd=mclib.REPO + "/tools/post-install", env=mclib.cargo_env())
import tempfile, shutil
sys.path.insert(0, "checks")
import c49
w = tempfile.mkdtemp(prefix="mcdt.", dir="/tmp")
c49.build(w)
shutil.rmtree(w)
PY
