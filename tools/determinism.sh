#!/bin/bash
# determinism.sh [RUNS]: the event-log hash of every run of every property, computed twice, with 1 and 8 workers.
cd "$(dirname "$0")/../sim" || exit 2
n=${1:-150}; bad=0
for id in $(./target/release/sim list | grep -oE 'C[0-9]+'); do
  k=$n; [ $id = C02 ] && k=$((n/10))
  a=$(./target/release/sim logs $id --runs $k --workers 1 --root /tmp/det | md5sum); b=$(./target/release/sim logs $id --runs $k --workers 8 --root /tmp/det | md5sum)
  [ "$a" = "$b" ] && echo "$id same" || { echo "$id DIFFERS"; bad=1; }
done
exit $bad
