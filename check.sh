#!/bin/sh
# check.sh ID [sim options]: rebuilds the simulator from /repo's working tree and checks one property.
here="$(cd "$(dirname "$0")" && pwd)"
"$here/sim/build.sh" || exit 2
SIM_ROOT="$here" exec "$here/sim/target/release/sim" check "$@"
