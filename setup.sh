#!/bin/bash
# Everything a check needs is built inside the check from /repo's working tree; only the presence of the tools is verified here.
set -e
cd "$(dirname "$0")"
for t in clang++-18 opt-18 llvm-config-18 g++ gcc python3-vt; do command -v $t > /dev/null || { echo "missing $t"; exit 1; }; done
python3-vt -c 'import z3'
mkdir -p evidence/replay
