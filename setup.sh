#!/bin/bash
# Checks the tools that the checks need and warms the object cache (checks rebuild what has changed).
cd "$(dirname "$0")" || exit 1
for t in gcc clang python3; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
python3 - <<'PY'
import sys
sys.path.insert(0, "lib")
import vlib, tempfile, os
d = tempfile.mkdtemp(dir=vlib._workroot())
vlib.build(os.path.join(d, "a"), "asan", ["h_queue.c"], ldflags=["-Wl,--wrap=pthread_mutex_lock", "-Wl,--wrap=pthread_mutex_unlock", "-Wl,--wrap=pthread_cond_wait"])
vlib.build(os.path.join(d, "t"), "tsan", ["h_queue.c"], ldflags=["-Wl,--wrap=pthread_mutex_lock", "-Wl,--wrap=pthread_mutex_unlock", "-Wl,--wrap=pthread_cond_wait"])
import shutil; shutil.rmtree(d)
PY
