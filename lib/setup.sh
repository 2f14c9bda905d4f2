#!/bin/bash
# Nothing to install: makes sure that the tools the checks use are there and
# that the library builds with instrumentation.
set -e
cd "$(dirname "$0")/.."
for t in cmake ninja g++ clang++ valgrind python3; do command -v $t >/dev/null || { echo "missing $t" >&2; exit 1; }; done
python3 -c 'import sys; sys.path.insert(0, "."); import check; check.build_libs("asan")'
echo setup ok
