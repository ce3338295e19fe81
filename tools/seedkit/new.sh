#!/bin/bash
# new.sh ID: turn the uncommitted change in /repo into /verif/seeded/ID (whose main.rs and meta.json exist),
# after confirming everything a planted bug has to satisfy.
id=$1; d=/verif/seeded/$id; kit=/verif/tools/seedkit; mkdir -p /tmp/seed
git -C "${REPO:-/repo}" diff --quiet && { echo "no change"; exit 1; }
git -C "${REPO:-/repo}" diff >$d/patch.diff
cp $kit/demo.sh $kit/demo.toml $kit/demo.lock $d/
out=$(bash /verif/tools/basetest.sh 2>&1 | tail -3); echo "$out"
(cd "${REPO:-/repo}" && bash $d/demo.sh >/tmp/seed/bad.log 2>&1); bad=$?
git -C "${REPO:-/repo}" checkout -q -- .
(cd "${REPO:-/repo}" && bash $d/demo.sh >/tmp/seed/good.log 2>&1); good=$?
echo "with patch: $bad ($(grep -v '^ *$' /tmp/seed/bad.log | grep -v RUST_BACKTRACE | tail -1 | cut -c1-150)), without: $good ($(tail -1 /tmp/seed/good.log | cut -c1-150))"
if echo "$out" | grep -q "missing 0" && [ $bad != 0 ] && [ $bad != 3 ] && [ $bad != 4 ] && [ $good = 0 ]; then echo OK $id; else echo "NOT OK $id"; exit 1; fi
