#!/bin/bash
# Builds the SSA exporter and warms the Go build cache. The checks build what is missing themselves.
cd "$(dirname "$0")" || exit 1
python3-vt - <<'P'
import sys, tempfile, shutil
sys.argv = ["setup"]
sys.path.insert(0, ".")
import check
w = tempfile.mkdtemp(prefix="vc-setup-")
try:
    exe, log = check.exporter(w)
    print(exe or log)
    sys.exit(0 if exe else 1)
finally:
    shutil.rmtree(w, ignore_errors=True)
P
