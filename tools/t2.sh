#!/bin/bash
# shorter report
/verif/tools/t.sh "$@" > /tmp/o2.$1; rc=$?
if [ $rc = 2 ]; then grep -n "Error" /tmp/out.$1 | cut -c1-400|head -8; fi
grep -v '^import types, coll' /tmp/o2.$1 | awk '/^--- pre/{skip=1} /^--- probe/{skip=0} !skip' | cut -c1-900 | head -${LINES_MAX:-70}
exit $rc
