#!/bin/bash
# replay.sh FILE: rebuild from /repo's working tree and execute a recorded schedule again.
cd /verif || exit 2
./build.sh || exit 2
exec ./sim/target/release/dbc-sim replay "$1"
