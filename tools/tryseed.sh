#!/bin/bash
# tryseed.sh <id>...: confirms planted bugs in a scratch copy of /repo: the demo
# passes unchanged and fails with the patch, and the test suite still passes.
set -u
here="$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)"
. "$here/tools/env.sh"
for id in "$@"; do
  dir=$(mktemp -d /tmp/tryseed.XXXXXX)
  cp -a /repo "$dir/repo"
  s="$here/seeded/$id"
  cd "$dir/repo" || exit 2
  bash "$s/demo.sh" > "$dir/demo0.log" 2>&1; r0=$?
  git apply "$s/patch.diff" || { echo "$id: patch does not apply"; continue; }
  go build ./... || { echo "$id: does not build"; continue; }
  bash "$s/demo.sh" > "$dir/demo1.log" 2>&1; r1=$?
  go test -json -vet=off -count=1 -timeout 10m ./... > "$dir/log.json" 2>/dev/null
  python3 - "$dir/log.json" /opt/vp/BASELINE.json > "$dir/fail.txt" <<'PY'
import json,sys
ok=set()
for l in open(sys.argv[1]):
    try: d=json.loads(l)
    except Exception: continue
    if d.get('Action')=='pass' and 'Test' in d: ok.add(d['Package']+'/'+d['Test'])
miss=[n for n in json.load(open(sys.argv[2]))['stable'] if n not in ok]
# Queries 8.8.8.8; fails here on the base commit too, where packets go nowhere.
miss=[n for n in miss if not n.endswith('/TestDoTListenerPadding')]
print(' '.join(miss[:8]))
PY
  echo "$id: unchanged=$r0 patched=$r1 broken-tests=[$(cat "$dir/fail.txt")]"
  if [ $r0 != 0 ]; then tail -5 "$dir/demo0.log"; fi
  if [ $r1 = 0 ]; then tail -3 "$dir/demo1.log"; fi
  cd /
  rm -rf "$dir"
done
