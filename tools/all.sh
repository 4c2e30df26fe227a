#!/bin/bash
# run every registered check (quick tier by default), four at a time; print the ones that are not quiet
cd "$(dirname "$0")/.." || exit 2
mkdir -p .cache/all
python3 - <<'P' | xargs -P "${JOBS:-4}" -I{} sh -c 'bin/check {} '"${TIERARG}"' > .cache/all/{}.log 2>&1; echo "{} rc=$? $(grep -c VIOLATION .cache/all/{}.log) violations"'
import json
for c in json.load(open('MANIFEST.json'))['checks']: print(c['property'] if 'property' in c else c['id'])
P
