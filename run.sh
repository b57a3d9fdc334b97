#!/bin/sh
# dev helper: run several checks, short output
for p in "$@"; do timeout 900 python3-vt /verif/run_check.py $p --total 120 -v 2>&1 | cut -c1-420 | head -60; done
