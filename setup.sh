#!/bin/sh
# builds nothing that a check does not rebuild from /repo itself; verifies that the tools are there
set -e
cd "$(dirname "$0")"
mkdir -p evidence build
command -v clang >/dev/null
python3-vt -c 'import z3, sys; sys.path.insert(0, "."); import symx.checks'
