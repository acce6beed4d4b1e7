#!/bin/bash
# mcsweep.sh BIN P T BUDGET [extra args --] [scenarios]: development aid, one line per scenario
cd "$(dirname "$0")/.."; B=${VP_BUILD:-build}; X=$1 P=$2 T=$3 L=$4; shift 4; E=()
while [ $# -gt 0 ] && [ "$1" != "--" ]; do E+=("$1"); shift; done; shift
[ $# = 0 ] && set -- $($B/$X --list | cut -f1)
for s in "$@"; do timeout $((L+60)) $B/$X $s -p $P -t $T -b $L "${E[@]}" --replay-out /tmp/mcs_$s.txt | python3 -c "
import json,sys; d=json.loads(sys.stdin.read()); print('%-18s %s ex=%d st=%d %.1fs %s'%(d['scenario'],'VIOL' if d['violation'] else 'ok ' if d['complete'] else 'INC',d['executions'],d['states'],d['wall_s'],d.get('message','')[:260]))" 2>/dev/null || echo "$s: no output"; done
