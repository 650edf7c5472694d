#!/bin/sh
# development: run single harnesses straight from the current build
# usage: dev.sh PATTERN [engine options]
cd /verif
pat=$1; shift
b=$(python3 -c "
import sys; sys.path.insert(0,'bin'); import check
print(*check.prepare())" | tail -1)
exe=${b% *}; d=${b#* }
for h in $(grep -oE '^ +[a-z0-9_]+ = h_' harness/src/lib.rs | awk '{print $1}' | grep -E "$pat"); do
  timeout 1000 "$exe" --ir "$d/harness.ll" --entry "$h" --out /tmp/o_$h.json "$@"
  python3 - "$h" <<'P'
import json,sys
h=sys.argv[1]; d=json.load(open('/tmp/o_%s.json'%h))
print(h,'paths',d['paths'],'instr',d['instructions'],d['ends'],'q',d['solver_queries'],'%.1fs'%d['solver_seconds'],'props',d['props'],'fold',d['props_folded'],'unsat',d['props_unsat'],'sat',d['props_sat'],d['incomplete'],'%.2fs'%d['wall_seconds'],d['reach'])
seen={}
for v in d['violations']:
    k=v['msg']; seen[k]=seen.get(k,0)+1
    if seen[k]<=2: print('   ',v)
P
done
