#!/usr/bin/env bash
# Everything is built by the checks themselves, from /repo's current tree; this only warms the caches.
set -e
cd "$(dirname "$0")"
python3 -c '
import sys; sys.path.insert(0, "lib")
import hv
print(hv.build_hush())
'
for f in spec/*Trace.tla; do (cd spec && tla-sany "$(basename "$f")" >/dev/null); done
