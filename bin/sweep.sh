#!/bin/bash
# sweep.sh BIN [args]: run every scenario of a binary and print one line each (development aid)
b=$1; shift
for s in ${SCN:-$($b --list | awk '{print $1}')}; do timeout 900 $b $s "$@" --replay-out /tmp/rep_$s.txt --out /tmp/o.$$.json >/tmp/o.$$.txt 2>&1 || true
python3 - /tmp/o.$$.json <<'PY'
import json,sys;d=json.load(open(sys.argv[1]));print("%-28s ex=%-8d st=%-8d comp=%s w=%.1f %s"%(d['scenario'],d['executions'],d['states'],d['complete'],d['wall_s'],("VIOL "+(d.get('message') or '')[:300]) if d['violation'] else ''))
PY
rm -f /tmp/o.$$.json /tmp/o.$$.txt; done
