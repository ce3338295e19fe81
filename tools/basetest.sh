#!/bin/bash
# Rebuild the tree $REPO (default /repo), run its tests, and compare with the baseline.
REPO="${REPO:-/repo}"; t="$(mktemp -d)"; trap 'rm -rf "$t"' EXIT
for s in build test; do sed "s#/repo#$REPO#g" /opt/vp/$s.sh >$t/$s.sh; done
bash $t/build.sh >$t/build 2>&1 || { tail -5 $t/build; exit 1; }
bash $t/test.sh $t/out.json >$t/log 2>&1
python3 - $t/out.json <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open(sys.argv[1]))
p=set(o['passed']);m=[t for t in b['stable'] if t not in p]
print('stable',len(b['stable']),'missing',len(m),m[:10])
P
