#!/bin/bash
# verify_seed.sh <id>...: confirms a planted bug in a scratch copy of /repo: applies, builds, tests pass, demo tells it apart.
# Needs paths named in build.sh to point at the copy, so the copy is used by bind-free substitution: demos run with cwd = copy.
ROOT="$(cd "$(dirname "$0")/.." && pwd)"
W=/tmp/seedwork
for ID in "$@"; do
    rm -rf /tmp/seedwork
    mkdir -p $W
    cp -a /repo $W/repo
    mkdir -p $W/demo && cp -a "$ROOT/seeded/$ID/." $W/demo/ && rm -f $W/demo/patch.diff $W/demo/meta.json
    ( cd $W/repo && timeout 300 bash $W/demo/demo.sh >$W/clean.log 2>&1 ); a=$?
    ( cd $W/repo && git apply "$ROOT/seeded/$ID/patch.diff" ) || { echo "$ID: patch does not apply"; continue; }
    ( cd $W/repo && timeout 300 bash $W/demo/demo.sh >$W/bug.log 2>&1 ); b=$?
    # the two test programs and the crypto3-free headers still build and pass
    t=0
    for f in test/manifest.cpp test/detail/huang_lu.cpp; do
        o=$W/$(basename $f .cpp)
        ( cd $W/repo && g++ -std=c++17 -O1 -w -DBOOST_TEST_DYN_LINK -Iinclude $f -o $o -lboost_unit_test_framework >/dev/null 2>&1 && $o >/dev/null 2>&1 ) || t=1
    done
    for h in detail/lookup_table_loaders.hpp components/hashes/sha2/plonk/detail/split_functions.hpp zkevm/zkevm_opcodes.hpp; do
        ( cd $W/repo && printf '#include <set>\n#include <nil/blueprint/%s>\n' $h | g++ -std=c++17 -w -Iinclude -x c++ -fsyntax-only - >/dev/null 2>&1 ) || t=2
    done
    echo "$ID: clean=$a bug=$b tests=$t $([ $a = 0 ] && [ $b != 0 ] && [ $t = 0 ] && echo OK || echo NOT-OK)"
    [ -n "$VERBOSE" ] && { tail -5 $W/clean.log; tail -8 $W/bug.log; }
done
rm -rf /tmp/seedwork
