#!/bin/bash
# Development aid: build the repository's own gtests against shim/absl and run them.
R=${1:-/repo}; T=$(mktemp -d /tmp/gt.XXXXXX)
cd $R
for f in nsasm/*.cc test/*.cc; do
  echo "g++ -std=c++20 -g1 -O1 -fsanitize=address,undefined -iquote . -I /verif/shim -Wno-attributes -c $f -o $T/$(echo $f|tr / _).o"
done | xargs -P8 -I{} sh -c '{}' 2>&1 | grep -E 'error' | head
g++ -fsanitize=address,undefined $T/*.o -lgmock -lgtest -lgtest_main -lpthread -o $T/all && ASAN_OPTIONS=detect_leaks=0 $T/all 2>&1 | tail -4
rm -rf "$T"
