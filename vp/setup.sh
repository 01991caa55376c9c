#!/bin/sh
# nothing to build: the tools are part of the sandbox; fail early if one is missing
set -e
for t in goto-cc goto-instrument cbmc clang python3; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
mkdir -p "$(dirname "$0")/../evidence"
