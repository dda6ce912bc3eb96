#!/bin/bash
# check.sh ID [quick|thorough] [further options of jdsim check]
# Decides one property on /repo's current working tree. Exit 0: held; 1: violation.
cd "$(dirname "$0")" || exit 2
V=$PWD
id=$1
tier=${2:-${VERIF_TIER:-quick}}
shift 2 2>/dev/null || shift $#
need=sim
case $id in
C08) need="sim twin" ;;
C09 | C10 | C11) need="sim cli" ;;
C19) need=plain ;;
esac
# one build at a time
exec 9>"$V/.build.lock"
flock 9
./build.sh $need || exit 2
flock -u 9
exec 9>&-
mkdir -p evidence
[ "$id" = C08 ] && export JDSIM_TWIN=$V/target/twin/release/jdsim
export JDSIM_CLI=$V/target/cli/debug/jotdown JDSIM_OS=$V/target/simos.so
bin=$V/target/sim/release/jdsim
[ "$id" = C19 ] && bin=$V/target/plain/plain/jdsim
exec "$bin" check --prop "$id" --tier "$tier" --dir "$V/evidence" "$@"
