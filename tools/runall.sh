#!/bin/sh
# usage: tools/runall.sh TIER [IDS...]: run checks one after the other
cd "$(dirname "$0")/.." || exit 2
t=$1; shift
[ $# -eq 0 ] && set -- $(python3 -c "import json; print(*[json.loads(l)['id'] for l in open('properties.jsonl')])")
for c in "$@"; do
  s=$(date +%s.%N)
  bin/check $c --tier $t > /tmp/runall.$c.log 2>&1; r=$?
  python3 - $c $r $s <<'P'
import sys,json,time
c,r,s=sys.argv[1:]
try:
  e=json.load(open(f'evidence/{c}.json'))['coverage']
  print(c,'exit',r,'wall %.0f'%(time.time()-float(s)),'queries',e['queries'],'solver',e['solver_s'],'paths',e['states'],'zero-query jobs',[j['harness'] for j in e['jobs'] if not j['solver_queries']],'eager',[j['harness'] for j in e['jobs'] if j['eager_inputs']],flush=True)
except Exception as x: print(c,'exit',r,x,flush=True)
P
done
