#!/bin/bash
# runs the quick checks of the given properties (default: all claimed), one after another
cd "$(dirname "$0")/.." || exit 2
ids=${*:-$(python3 -c "import json;print(*[c['property'] for c in json.load(open('MANIFEST.json'))['checks']])")}
for i in $ids; do
	s=$(date +%s)
	out=$(VERIF_SEED=1 VERIF_TIER=quick bash check.sh $i quick 2>&1); rc=$?
	echo "$i rc=$rc $(($(date +%s)-s))s $(echo "$out" | tail -${LINES_OUT:-1})"
done
