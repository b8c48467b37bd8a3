#!/bin/bash
# development aid: tools/mkbug.sh ID PROPERTY "needs" "breaks" < demo.py   with the change applied in /repo's working tree
# Keeps the change in seeded/ID, confirms tests and demonstration, undoes it and says which checks catch it (those named in $CHECKS)
id=$1; d=/verif/seeded/$id; mkdir -p $d
git -C /repo diff > $d/patch.diff; [ -s $d/patch.diff ] || { echo "no change"; exit 1; }
cat > $d/demo.py
printf '#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n' > $d/demo.sh; chmod +x $d/demo.sh
python3 - "$@" <<'P'
import json, sys
id, prop, needs, breaks = sys.argv[1:5]
json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open('/verif/seeded/%s/meta.json' % id, 'w'), indent=1)
P
cd /repo
bash $d/demo.sh > /tmp/demo.out 2>&1; a=$?; tail -2 /tmp/demo.out
t=$(/verif/tools/repotest.sh | tail -1)
for c in ${CHECKS:-$2}; do (cd /verif; /usr/local/bin/python3-vt check.py $c > /tmp/bug.$c 2>&1; echo "check $c exit $? $(grep -c VIOLATION /tmp/bug.$c)"; head -3 /tmp/bug.$c | cut -c1-300); done
git -C /repo checkout -q -- .
bash $d/demo.sh > /tmp/demo.out 2>&1; b=$?; [ $b = 0 ] || tail -3 /tmp/demo.out
echo "demo with: $a without: $b; tests: $t"
