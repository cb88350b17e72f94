#!/bin/bash
# Builds the instrumented library and the monitors once (checks rebuild incrementally from /repo's working tree).
cd "$(dirname "$0")" || exit 1
exec python3 - <<'PY'
import sys
sys.path.insert(0, ".")
import check
for san in ("asan", "tsan", "plain"):
    check.build(san)
PY
