#!/bin/bash
# Nothing to build: Python only.  Checks that the simulator can start and that
# one run of each scenario module works and is repeatable.
cd "$(dirname "$0")" || exit 1
for c in C01 C13 C15 C20 C21 C27; do
  ./check $c --runs 4 --workers 2 --no-evidence || exit 1
done
