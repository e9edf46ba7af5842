#!/bin/bash
# replay.sh FILE — re-run the recorded execution of a violation on /repo's current tree.
here=$(cd "$(dirname "$0")" && pwd)
race=
grep -q '"race_build": true' "$1" && race=race
"$here/build.sh" $race || exit 3
bin="${VERIF_BUILD:-$here/.build}/mcrun"
[ -n "$race" ] && bin=$bin-race
exec "$bin" -replay "$1"
