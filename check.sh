#!/bin/bash
# check.sh Cxx [quick|thorough]: build the simulator with foca from /repo's working tree and decide one property.
# exit 0: held on everything explored; exit 1 and a VIOLATION line: broken; anything else: the check itself failed.
set -u
prop=${1:?usage: check.sh Cxx [quick|thorough]}
tier=${2:-${VERIF_TIER:-quick}}
here=$(cd "$(dirname "$0")" && pwd)
. "$here/build.sh"
want=release
if [ "$prop" = C06 ] || [ "$tier" = thorough ]; then want="release checked"; fi
build_sim "$want" || { echo "error: the simulator does not build" >&2; exit 2; }
ulimit -v 25000000
ulimit -c 0
export VERIF_ROOT=$here
exec "$here/target/release/sim" check "$prop" --tier "$tier" --seed "${VERIF_SEED:-1}"
