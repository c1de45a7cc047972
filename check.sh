#!/bin/bash
# check.sh C01 [quick|thorough]: rebuild from /repo's working tree, then search.
cd /verif || exit 2
./build.sh || exit 2
exec ./sim/target/release/dbc-sim check --property "$1" --tier "${2:-quick}" --seed "${VERIF_SEED:-1}" --out /verif
