#!/bin/bash
# every registered check, in order; prints id, exit code, seconds
cd /verif; for p in $(python3 -c "import json;print(' '.join(c['property'] for c in json.load(open('MANIFEST.json'))['checks']))" 2>/dev/null || python3 -c "import rules;print(' '.join(rules.PROPS))"); do [[ -n "$1" && ! $p =~ $1 ]] && continue; s=$(date +%s); python3 check.py $p --tier ${TIER:-quick} > /tmp/chk_$p.log 2>&1; echo "$p rc=$? $(( $(date +%s) - s ))s"; done
