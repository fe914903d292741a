#!/bin/bash
# Nothing is prebuilt: each check compiles its driver from /repo's working tree.
# This only makes sure that the tools are there.
set -e
for t in g++ clang++ python3 java tlc; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
cd "$(dirname "$0")"
python3 -B -c 'import sys; sys.path.insert(0, "."); from vlib import registry; print(len(registry.CHECKS), "checks")'
