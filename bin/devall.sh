#!/bin/sh
# development: run harnesses matching PATTERN in parallel with a time limit
cd /verif
b=$(python3 -c "
import sys; sys.path.insert(0,'bin'); import check
print(*check.prepare())" | tail -1)
grep -oE '^ +[a-z0-9_]+ = h_' harness/src/lib.rs | awk '{print $1}' | grep -E "$1" | xargs -P 7 -I{} bin/dev.sh '^{}$' --timeout ${2:-120}
