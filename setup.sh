#!/bin/bash
# nothing to build: the verifier is Python, the harnesses are compiled by each check
set -e
for t in clang++ x86_64-w64-mingw32-g++-posix wine python3-vt; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
python3-vt -c 'import z3; print("z3", z3.get_version_string())'
mkdir -p /verif/evidence
