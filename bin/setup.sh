#!/bin/bash
# Build the framework and every scenario program from /repo's current tree.
cd "$(dirname "$0")/.." || exit 1
python3 bin/build.py all_checks
