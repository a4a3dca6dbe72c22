#!/bin/bash
# try.sh ID [PROP...] : runs the checks on a stored planted bug
ID=$1; shift; P=${*:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$ID/meta.json'))['property'])")}
cd /repo && git apply /verif/seeded/$ID/patch.diff || exit 1
cd /verif; for p in $P; do python3 check.py $p > /tmp/seed/try.$ID.$p.log 2>&1; echo "$ID $p rc=$? $(grep -c ^VIOLATION /tmp/seed/try.$ID.$p.log) $(tail -1 /tmp/seed/try.$ID.$p.log | grep -o 'wall.*')"; done
git -C /repo checkout -- .
