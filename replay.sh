#!/bin/bash
# replay.sh <file>: re-execute a replay file; exit 1 when the violation is reproduced.
cd "$(dirname "$0")" || exit 2
./build.sh || exit 2
exec ./sim/target/release/dst replay "$1"
