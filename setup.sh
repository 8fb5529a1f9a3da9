#!/bin/bash
# Nothing to build ahead: every check rebuilds /repo's crate and regenerates its verification conditions.
# Verifies that the tools the checks need are there.
set -e
cd "$(dirname "$0")"
mkdir -p evidence/replay
python3-vt -c 'import z3; import dbcv.registry; print("units:", len(dbcv.registry.UNITS), "z3", z3.get_version_string())'
for t in z3 z3-new cvc5 cargo; do command -v $t >/dev/null || { [ -x /root/.cargo/bin/$t ] || echo "missing $t"; }; done
