#!/bin/bash
# Author tool: run the owning property's check on scratch copies with each seeded patch applied.
# usage: tools/recheck.sh [ids...]
cd "$(dirname "$0")/.."
V=$PWD
one() {
  id=$1; d=$(mktemp -d /tmp/rc.XXXXXX); cp -a /repo/. $d/; git -C $d apply $V/seeded/$id/patch.diff || { echo "$id PATCH FAILS"; /bin/rm -rf $d; return; }
  p=$(python3 -c "import json;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")
  SA_EVIDENCE=$d python3 -m sa.check $p --repo $d -j 3 > $d/.log 2>&1; rc=$?
  [ $rc = 1 ] && echo "$id $p caught" || echo "$id $p MISSED rc=$rc"
  /bin/rm -rf $d
}
export -f one; export V
ids=${@:-$(ls seeded)}
printf '%s\n' $ids | xargs -P 3 -I{} bash -c 'one {}'
