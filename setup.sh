#!/bin/bash
# Builds the extraction tool and the harness (offline).
cd "$(dirname "$0")" || exit 1
python3 - <<'P'
import sys, tempfile, shutil
sys.path.insert(0, '.')
import check
check.SCRATCH = tempfile.mkdtemp(prefix='conch-setup-')
try:
    check.build_vx()
    b, hooks, e = check.build_harness()
    if b is None: print(e); sys.exit(1)
finally:
    shutil.rmtree(check.SCRATCH, ignore_errors=True)
P
