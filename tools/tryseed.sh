#!/bin/bash
# tryseed.sh ID [PROPERTY] : run the check for a planted bug against /repo with the bug applied
ID=$1; P=${2:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$ID/meta.json'))['property'])")}
git -C /repo apply /verif/seeded/$ID/patch.diff || exit 3
python3 /verif/check.py $P $3 > /tmp/try-$ID.log 2>&1; rc=$?
git -C /repo checkout -q -- .
echo "$ID $P rc=$rc $(grep -c VIOLATION /tmp/try-$ID.log) violations"; grep -a 'VIOL\|UNCONF\|not decided' /tmp/try-$ID.log | head -4
