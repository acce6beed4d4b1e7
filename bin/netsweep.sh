#!/bin/bash
# netsweep.sh P T BUDGET [scenarios]
cd "$(dirname "$0")/.."; P=$1 T=$2 B=$3; shift 3
[ $# = 0 ] && set -- $(build/mc_net --list | cut -f1)
for s in "$@"; do build/mc_net $s -p $P -t $T -b $B --no-races --replay-out /tmp/net_$s.txt | python3 -c "
import json,sys; d=json.loads(sys.stdin.read()); print('%-16s %s ex=%d st=%d %.1fs %s'%(d['scenario'],'VIOL' if d['violation'] else 'ok ' if d['complete'] else 'INC',d['executions'],d['states'],d['wall_s'],d.get('message','')[:170]))"; done
