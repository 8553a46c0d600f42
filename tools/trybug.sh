#!/bin/bash
# trybug.sh <seed> [property...]: run checks (default: its property) against a planted bug
S=/verif/seeded/$1; shift
P="${*:-$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")}"
git -C /repo apply $S/patch.diff || exit 3
for p in $P; do timeout 900 bash /verif/check.sh $p quick 2>&1 | cut -c1-300 | tail -4; done
git -C /repo checkout -q -- .
