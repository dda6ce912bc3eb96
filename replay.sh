#!/bin/bash
# replay.sh FILE: runs a replay file against /repo's current working tree. Exit 1: it still fails.
f=$(realpath "$1") || exit 2
cd "$(dirname "$0")" || exit 2
bin=target/sim/release/jdsim need="sim twin cli"
grep -q '^property C19$' "$f" && bin=target/plain/plain/jdsim need=plain
./build.sh $need || exit 2
export JDSIM_TWIN=$PWD/target/twin/release/jdsim JDSIM_CLI=$PWD/target/cli/debug/jotdown JDSIM_OS=$PWD/target/simos.so
exec $bin replay "$f"
