#!/bin/bash
# Builds the instrumented drivers from /repo's current working tree.
# Usage: build.sh [variant...]
#   sched  concurrency, time and randomness under control
#   os     file access as well
#   cmd    the program itself, after sched
#   netns  with access to the command's own functions, after sched
set -u
here="$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)"
. "$here/tools/env.sh"
mkdir -p "$here/build"
(cd "$here/tools" && go build -o "$here/build/instr" ./instr) || exit 2
add="$here/harness/vsched=internal/vsched,$here/harness/vos=internal/vos,$here/harness/vh=internal/vh,$here/harness/export=.,$here/harness/cmdexport=internal/vroutedns"
[ $# -gt 0 ] || set -- sched os cmd netns
for v in "$@"; do
  if [ "$v" = netns ]; then
    (cd /repo && go build -tags vcmd -overlay "$here/build/sched/overlay.json" -o "$here/build/vhcmd" ./internal/vh) || exit 2
    continue
  fi
  if [ "$v" = cmd ]; then
    (cd /repo && go build -overlay "$here/build/sched/overlay.json" -o "$here/build/routedns" ./cmd/routedns) || exit 2
    continue
  fi
  if [ "$v" = os ]; then flags=-os; bin=vhos; else flags=; bin=vh; fi
  "$here/build/instr" $flags -repo /repo -out "$here/build/$v" -add "$add" || exit 2
  (cd /repo && go build -overlay "$here/build/$v/overlay.json" -o "$here/build/$bin" ./internal/vh) || exit 2
done
