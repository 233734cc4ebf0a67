#!/bin/bash
# nothing is compiled ahead of time: every check rebuilds its harness from /repo. This only verifies that the tools exist.
set -e
cd "$(dirname "$0")/.."
command -v clang++-18 >/dev/null || command -v clang++ >/dev/null
python3-vt -c 'import z3'
mkdir -p evidence
