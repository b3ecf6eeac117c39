#!/bin/sh
# nothing to build ahead of time: every check lowers /repo's current tree itself
set -e
cd "$(dirname "$0")"
for t in clang-18 opt-18 gcc; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
mkdir -p evidence
