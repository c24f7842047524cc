#!/bin/bash
# Warms the build cache; every check rebuilds what is missing or changed by itself.
cd "$(dirname "$0")" || exit 1
mkdir -p .build evidence replay
command -v g++ >/dev/null || { echo "g++ missing"; exit 1; }
python3 - <<'P'
import sys
sys.path.insert(0, 'lib'); sys.dont_write_bytecode = True
import core
core.compile_many([(s, core.ASAN + core.INC) for s in core.lib_sources()])
P
