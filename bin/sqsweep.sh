#!/bin/bash
# sqsweep.sh BIN BUDGET [scenarios]: development aid
cd "$(dirname "$0")/.."; B=${VP_BUILD:-build}; X=$1 L=$2; shift 2
[ $# = 0 ] && set -- $($B/$X --list | cut -f1)
for s in "$@"; do timeout $((L+60)) $B/$X $s -b $L $SQARGS --replay-out /tmp/sq_$s.txt --out /tmp/sqo.json >/dev/null 2>/tmp/sq_$s.err; python3 -c "
import json; d=json.load(open('/tmp/sqo.json')); print('%-18s %s ex=%d st=%d %.1fs %s'%(d['scenario'],'VIOL' if d['violation'] else 'ok ' if d['complete'] else 'INC',d['executions'],d['states'],d['wall_s'],d.get('message','')[:400]))" || echo "$s: no output"; done
