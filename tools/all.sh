#!/bin/bash
# all.sh: every registered check on /repo, in parallel; prints exit code and summary line
cd "$(dirname "$0")/.."
ids=$(python3 -c "import json;print(' '.join(c['property'] for c in json.load(open('MANIFEST.json'))['checks']))" 2>/dev/null || ls evidence | grep -o '^C[0-9]*' | sort -u)
for p in $ids; do echo $p; done | xargs -P 6 -I{} bash -c 'o=$(timeout 900 python3 analysis/check.py {} quick 2>&1); echo "{} $? $(echo "$o" | head -1 | cut -c1-150) $(echo "$o" | sed -n 2p | cut -c1-200)"' | sort
