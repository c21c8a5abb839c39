#!/bin/bash
# usage: run.sh PROPERTY [TIER]     decides one property on /repo's current working tree
cd "$(dirname "$0")" || exit 2
profile=release
[ "$1" = C09 ] && profile=assertive
./build.sh $profile || exit 2
exec ./target/sim/$profile/aga8sim run --property "$1" --seed "${VERIF_SEED:-1}" --tier "${2:-${VERIF_TIER:-quick}}" --root "$PWD"
