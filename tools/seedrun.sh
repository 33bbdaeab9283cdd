#!/bin/bash
# seedrun.sh ID [PROP...] : run the checks against a planted change (applied to /repo, undone after)
id=$1; shift
d=/verif/seeded/$id
P=${*:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
git -C /repo diff --quiet || { echo "/repo not clean"; exit 1; }
git -C /repo apply $d/patch.diff || exit 1
trap 'git -C /repo checkout -q -- .' EXIT
for p in $P; do echo "== $id $p"; /verif/check.sh $p quick 2>&1 | grep -v "^  path" | cut -c1-${W:-220} | tail -${N:-6}; done
