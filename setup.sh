#!/bin/bash
# Builds the framework's own tools from the committed sources.  Offline; writes only below build/.
set -e
cd "$(dirname "$0")"
mkdir -p build evidence
for t in clang++ g++ python3; do command -v "$t" >/dev/null || { echo "missing tool: $t"; exit 1; }; done
[ -f tools/Makefile ] && make -C tools -s || true
echo "setup done"
