#!/bin/bash
# runseed.sh ID [PROP]  apply a planted bug to /repo, run its property's check, undo
d=/verif/seeded/$1; p=${2:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
cd /verif; git -C /repo apply $d/patch.diff || exit 9
VERIF_SEED=${SEED:-1} python3 bin/check.py $p > /tmp/runseed.out 2>&1; rc=$?
git -C /repo checkout -q -- .
echo "$1 $p rc=$rc $(tail -2 /tmp/runseed.out | head -1 | cut -c1-${W:-160})"
