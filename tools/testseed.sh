#!/bin/bash
# testseed.sh ID...: works in a private mount namespace on a copy of /repo:
# apply, build, stable tests, demo; then the property's check.
if [ -z "$VP_INNER" ]; then
  mkdir -p /tmp/seed
  c=$(mktemp -d /tmp/seed/repo.XXXXXX)
  cp -a /repo/. "$c"
  VP_INNER=1 unshare -m bash -c 'mount --make-rprivate /; mount --bind "$1" /repo; shift; exec bash "$@"' x "$c" "$0" "$@"
  find "$c" -delete
  exit
fi
for id in "$@"; do
d=/verif/seeded/$id
cd /repo || exit 2
git checkout -q -- .
git apply $d/patch.diff || { echo "$id: patch fails"; continue; }
bash /opt/vp/test.sh /tmp/seed/$id.json >/tmp/seed/$id.log 2>&1
python3 - $id <<'P'
import json,sys
o=json.load(open(f'/tmp/seed/{sys.argv[1]}.json'))
print(sys.argv[1],'passed',len(o['passed']),'failed',o['failed'])
P
bash $d/demo.sh >/tmp/seed/$id.demo 2>&1; echo "$id demo rc=$? $(tail -1 /tmp/seed/$id.demo)"
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
[ -n "$NOCHECK" ] || { VERIF_TIER=quick VERIF_SEED=1 python3 /verif/check.py $p >/tmp/seed/$id.check 2>&1; echo "$id check $p rc=$? $(grep -c VIOLATION /tmp/seed/$id.check)"; }
git checkout -q -- .
done
