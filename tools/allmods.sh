#!/bin/bash
# Every Verus module on /repo's current tree: run before a commit (a module that is not accepted only makes its layer undecided in a check).
cd "$(dirname "$0")/.." || exit 1
o=$(mktemp -d)
for m in verus/*.rs; do n=$(basename "$m" .rs); (VERIF_REPO=/repo timeout 900 python3 lib/vextract.py "$m" > "$o/$n" 2>&1) & while [ "$(jobs -r | wc -l)" -ge 3 ]; do sleep 0.3; done; done; wait
bad=0
for m in verus/*.rs; do n=$(basename "$m" .rs); l=$(grep -E '^(error|stubs|verified|errors)' "$o/$n" | tr '\n' ' '); echo "$n: $l"; case "$l" in *"error None stubs {} "*" errors 0 "*) ;; *) bad=1; echo "  ^^^ NOT CLEAN";; esac; done
rm -rf "$o"; exit $bad
