#!/bin/bash
# try.sh ID [CHECK] [opts]: run a check against a planted bug
id=$1; prop=${2:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")}; shift; shift
git -C "${REPO:-/repo}" apply /verif/seeded/$id/patch.diff || exit 9
mkdir -p /tmp/rt; t0=$(date +%s); ${VER:-/verif}/check.sh $prop --root /tmp/rt "$@" >/tmp/seed/try.log 2>&1; rc=$?
git -C "${REPO:-/repo}" checkout -q -- .
echo "$id $prop exit $rc in $(( $(date +%s)-t0 ))s: $(grep -E 'VIOLATION|ERROR' /tmp/seed/try.log | head -2 | cut -c1-200) $(grep -v VIOLATION /tmp/seed/try.log | tail -2 | cut -c1-300)"
