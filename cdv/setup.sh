#!/bin/bash
# nothing to build: the verifier is Python (python3-vt with z3) and clang; check that they answer
set -e
python3-vt -c 'import z3; print("z3", z3.get_version_string())'
clang --version | head -1
gcc --version | head -1
mkdir -p "$(dirname "$0")/../evidence"
