#!/bin/bash
# The crypto3 fork of Boost.Multiprecision gives its integer backends a base_data() accessor.  Boost itself has
# none, so the stand-in uses a copy of the installed header with that one accessor added.
set -e
out=$1
src=$(echo '#include <boost/multiprecision/cpp_int.hpp>' | ${CXX:-g++} -x c++ -M - | tr ' \\' '\n\n' | grep 'boost/multiprecision/cpp_int\.hpp$' | head -1)
mkdir -p "$out/boost/multiprecision"
awk '
  /^struct cpp_int_backend$/ { inside = 1 }
  { print }
  inside && /^ public:$/ { print "   const cpp_int_backend& base_data() const { return *this; }"; inside = 0; done = 1 }
  END { exit done ? 0 : 1 }' "$src" > "$out/boost/multiprecision/cpp_int.hpp.tmp"
mv "$out/boost/multiprecision/cpp_int.hpp.tmp" "$out/boost/multiprecision/cpp_int.hpp"
