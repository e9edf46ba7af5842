#!/bin/bash
# check.sh PROPERTY [quick|thorough] — decide one property on /repo's current tree.
here=$(cd "$(dirname "$0")" && pwd)
prop=$1
tier=${2:-${VERIF_TIER:-quick}}
race=
case $prop in B12|C04|C05|H02|M01) race=race ;; esac
log=$("$here/build.sh" $race 2>&1) || { echo "$log"; echo "check.sh: building failed"; exit 3; }
out="${VERIF_BUILD:-$here/.build}"
args=(-prop "$prop" -tier "$tier" -evidence "$here/evidence/$prop.json" -replays "$here/replays" -known "$here/known-findings.txt")
[ -n "$race" ] && args+=(-racebin "$out/mcrun-race")
cd "$here"
exec "$out/mcrun" "${args[@]}" "${@:3}"
