#!/bin/bash
# revert.sh COMMIT ID [opts]: run a check with one fix of /repo taken back, then restore.
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "dirty"; exit 2; }
git show "$1" | git apply -R || exit 2
shift
(cd /verif/sim && bash build.sh >/tmp/rv.log 2>&1; ./target/release/sim check "$@" --root /tmp/rv 2>&1 | cut -c1-400 | tail -6)
git checkout -- .
