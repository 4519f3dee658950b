#!/bin/bash
# Usage: check.sh <property> [vh flags]: builds the drivers from /repo's current
# working tree and runs the check of one property.
set -u
here="$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)"
. "$here/tools/env.sh"
prop="$1"; shift
tier="${VERIF_TIER:-quick}"
variant=sched; bin=vh
case "$prop" in
  P05) variant=os; bin=vhos ;;
  P26|P31) variant="sched cmd" ;;
  P27) variant="sched netns"; bin=vhcmd ;;
esac
bash "$here/tools/build.sh" $variant || exit 2
exec "$here/build/$bin" -prop "$prop" -tier "$tier" -verif "$here" "$@"
