#!/bin/bash
# development aid: tools/fix.sh PROP "message": commit /repo's change as a fix and record it
cd /verif; [ "$(tools/repotest.sh | tail -1)" = "stable missing: []" ] || { echo TESTS; exit 1; }
git -C /repo commit -qam "fix: $2" && h=$(git -C /repo rev-parse --short HEAD)
python3 - "$1" "$2" $h <<'P'
import json, sys
p='/verif/known_findings.json'; d=json.load(open(p))
d['fixed'].append('fixed: property=%s %s %s' % (sys.argv[1], sys.argv[3], sys.argv[2]))
open(p,'w').write(json.dumps(d, indent=1)+'\n')
P
echo fixed $h
