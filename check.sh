#!/bin/bash
# check.sh ID: builds the simulator from /repo's working tree and decides one property.
# exit 0: held on everything explored; 1: VIOLATION line printed; 3: the check itself failed.
cd "$(dirname "$0")" || exit 3
[ -n "$1" ] || { echo "usage: check.sh PROPERTY" >&2; exit 3; }
./build.sh || { echo "sim: build failed" >&2; exit 3; }
exec ./sim/target/release/sim check "$1"
