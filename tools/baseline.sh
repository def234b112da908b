#!/bin/bash
# baseline.sh [REPO]: rebuild /repo (or a clone of it) and compare against the stable tests
R=${1:-/repo}
T=$(mktemp -d /tmp/baseline_XXXXXX); trap 'rm -rf "$T"' EXIT
sed "s#/repo#$R#g" /opt/vp/build.sh > $T/build.sh
sed "s#/repo#$R#g; s#/opt/vp/build.sh#$T/build.sh#g" /opt/vp/test.sh > $T/test.sh
bash $T/build.sh >$T/build.log 2>&1 || { echo BUILD FAILED; tail -20 $T/build.log; exit 1; }
[ "$2" = build ] && exit 0
bash $T/test.sh $T/o.json >/dev/null 2>&1
O=$T/o.json python3 - <<'P'
import json, os
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=json.load(open(os.environ['O']))
print("missing stable:", sorted(b-set(o['passed'])), "failed:", o['failed'])
P
