#!/bin/bash
# Nothing is installed: every check builds what it needs from /repo's working tree. This only verifies that the tools are there.
set -e
cd "$(dirname "$0")"
for t in python3 cmake ninja g++ clang++; do command -v "$t" >/dev/null || { echo "missing: $t" >&2; exit 1; }; done
python3 -c 'import sys; sys.dont_write_bytecode = True; sys.path.insert(0, "."); from pbt.props import REGISTRY; print(len(REGISTRY), "checks")'
mkdir -p evidence replays
