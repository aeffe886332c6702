#!/bin/bash
# builds the conformance driver once (fills the Go build cache) and parses the specifications
cd "$(dirname "$0")" || exit 1
python3 - <<'PY'
import sys; sys.path.insert(0, "bin")
import vcommon as v
w = v.Work("setup"); w.prop = "setup"
try:
    v.build(w)
finally:
    w.close()
PY
