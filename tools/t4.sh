#!/bin/bash
# development aid: only the interesting lines of the failing case (everything that is not fixed text of the property module)
cd /verif; tools/t.sh "$@" > /tmp/o4.$1
python3 - "$1" <<'P'
import sys
p=sys.argv[1]; fixed=set(l.rstrip('\n') for l in open('/verif/props/%s.py' % p.lower()))
for l in open('/tmp/o4.'+p):
    if l.rstrip('\n') not in fixed: print(l.rstrip('\n')[:int(__import__('os').environ.get('W','700'))])
P
