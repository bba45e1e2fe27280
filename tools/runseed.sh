#!/bin/bash
# runseed.sh ID [PROP…]: applies the seeded change to /repo, runs the checks, undoes it.
id=$1; shift; S=/verif/seeded/$id
props=${*:-$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")}
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 9; }
git -C /repo apply $S/patch.diff || exit 9
for p in $props; do echo "== $id $p"; (cd /verif; timeout 900 python3 check.py $p 2>&1 | cut -c1-300; echo "exit ${PIPESTATUS[0]}"); done
git -C /repo checkout -q -- .
