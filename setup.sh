#!/bin/bash
# Nothing to install: every check builds what it needs from /repo's current tree into .build (git-ignored).
cd "$(dirname "$0")" && mkdir -p .build evidence && for t in cargo python3 verus; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
cargo kani --version
