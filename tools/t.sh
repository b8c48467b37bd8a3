#!/bin/bash
# development aid: run a check, show the failing case compactly
cd /verif; /usr/local/bin/python3-vt check.py "$@" > /tmp/out.$1 2>&1; rc=$?
grep -v '^  File\|^    ' /tmp/out.$1 | cut -c1-1500 | tail -12
f=$(grep -o 'replay=.*' /tmp/out.$1 | cut -d= -f2)
[ -n "$f" ] && python3 -c "
import json,sys
c=json.load(open('$f'))['case']
for k,v in c.items():
    if isinstance(v,str) and '\n' in v: (print('---',k), print(v) if k!='probe' else print(v[-300:]))
    else: print('---',k,json.dumps(v)[:600])
"
exit $rc
