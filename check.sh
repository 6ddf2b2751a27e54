#!/bin/bash
# Builds the simulator against /repo's working tree and runs one property's check.
#   check.sh ID [quick|thorough]
#   check.sh replay FILE          replays a recorded violation (exit 1: it happened again)
cd "$(dirname "$0")" || exit 2
id="$1"
[ "$1" = replay ] && id="$(grep -m1 -o 'C[0-9][0-9]' "$2")"
case "$id" in
    C17) kind=fine bin=sim/target-fine/release/simcheck ;;
    *) kind=plain bin=sim/target/release/simcheck ;;
esac
. ./build.sh "$kind" || exit 2
if [ "$1" = replay ]; then
    exec "$bin" replay "$2"
fi
exec "$bin" check "$1" "${2:-${VERIF_TIER:-quick}}"
