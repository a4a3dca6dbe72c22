#!/bin/bash
# mk.sh ID PROP : /repo holds the planted change (uncommitted); demo.cpp, meta.json come from /tmp/seed/ID. Confirms and stores.
ID=$1; S=/tmp/seed/$ID; O=/verif/seeded/$ID
cd /repo; git diff > $S/patch.diff; [ -s $S/patch.diff ] || { echo "no change"; exit 1; }
bash /opt/vp/build.sh > /tmp/seed/build.log 2>&1; bash /opt/vp/test.sh /tmp/seed/t.json >/dev/null 2>&1; T=$(cat /tmp/seed/t.json)
cp /verif/tools/common.hpp /verif/tools/demo.sh $S/
bash $S/demo.sh > $S/with.log 2>&1; A=$?
git checkout -- .
bash $S/demo.sh > $S/without.log 2>&1; B=$?
echo "$ID tests: $T  demo with=$A without=$B $(tail -1 $S/with.log)"
case "$T" in *'"failed": []'*) ;; *) echo "TESTS FAIL"; exit 1;; esac
[ $A -ne 0 ] && [ $B -eq 0 ] || { echo "DEMO WRONG"; exit 1; }
mkdir -p $O; cp $S/patch.diff $S/demo.sh $S/demo.cpp $S/common.hpp $S/meta.json $O/; [ -f $S/flags ] && cp $S/flags $O/; true
