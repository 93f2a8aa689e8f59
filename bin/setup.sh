#!/bin/bash
# Prepares what does not depend on /repo's tree: the patched copy of one Boost header.
set -e
ROOT="$(cd "$(dirname "$0")/.." && pwd)"
mkdir -p "$ROOT/build" "$ROOT/evidence"
bash "$ROOT/bin/gen_stub.sh" "$ROOT/build/stub"
g++ --version | head -1
