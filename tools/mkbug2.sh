#!/bin/bash
# development aid: tools/mkbug2.sh DIR   with DIR/{edit.py,demo.py,meta} - like mkbug.sh, but in a scratch copy of /repo
# (so it can run while /repo is in use). meta: id|property|needs|breaks. edit.py defines EDITS = [(file, old, new), ...]
D=$1; IFS='|' read -r id prop needs breaks < $D/meta
W=/tmp/wb/$id; rm -rf "/tmp/wb/$id"; cp -a /repo $W; cd $W; git checkout -q -- .
python3 - $D/edit.py <<'P' || exit 1
import sys
ns = {}; exec(open(sys.argv[1]).read(), ns)
for f, a, b in ns['EDITS']:
    s = open('dill/' + f).read()
    if s.count(a) != 1: print('EDIT MATCHES', s.count(a), repr(a)); raise SystemExit(1)
    open('dill/' + f, 'w').write(s.replace(a, b))
P
s=/verif/seeded/$id; mkdir -p $s; git diff > $s/patch.diff; cp $D/demo.py $s/demo.py; cp $D/*.aux $s/ 2>/dev/null
printf '#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n' > $s/demo.sh; chmod +x $s/demo.sh
python3 - "$id" "$prop" "$needs" "$breaks" <<'P'
import json, sys
id, prop, needs, breaks = sys.argv[1:5]
json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open('/verif/seeded/%s/meta.json' % id, 'w'), indent=1)
P
cd $W
PYTHONPATH=$W bash $s/demo.sh > $D/demo.out 2>&1; a=$?
(cd /repo; PYTHONPATH=/repo bash $s/demo.sh > $D/demo0.out 2>&1); b=$?
sed "s#/repo#$W#g; s#^bash /opt/vp/build.sh.*##" /opt/vp/test.sh > $D/test.sh
bash $D/test.sh $D/t.json > $D/t.log 2>&1
t=$(python3 -c "
import json
d=json.load(open('$D/t.json')); b=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
print(sorted(b-set(d['passed'])))")
r=""
for c in ${CHECKS:-$prop}; do (cd /verif; VERIF_SEED=1 VERIF_REPO=$W /usr/local/bin/python3-vt check.py $c > $D/out.$c 2>&1; echo $? > $D/rc); r="$r $c=$(cat $D/rc)/$(grep -c "VIOLATION property=$c" $D/out.$c)"; done
echo "$id: demo with $a without $b; tests missing $t; checks$r"
[ $a = 0 ] && tail -3 $D/demo.out; [ $b != 0 ] && tail -3 $D/demo0.out
rm -rf "/tmp/wb/$id"
