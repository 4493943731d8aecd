#!/bin/bash
# check.sh Cnn quick|thorough: build the simulator against /repo's working tree and run one check.
# Exit 0: held on everything explored; 1: VIOLATION line printed; anything else: the check could not run.
set -u
here=$(cd "$(dirname "$0")" && pwd)
bash "$here/build.sh" || exit 2
exec "$here/dst/target/release/dst" check --property "$1" --tier "${2:-${VERIF_TIER:-quick}}" --seed "${VERIF_SEED:-1}" --dir "$here"
