#!/bin/bash
# runseed.sh ID [PID...]: run checks against a planted bug; restores /repo.
id=$1; shift
p=/verif/seeded/$id
pids=${@:-$(python3 -c "import json;print(json.load(open('$p/meta.json'))['property'])")}
git -C /repo apply $p/patch.diff || exit 9
for x in $pids; do (cd /verif && python3 check.py $x | tail -4); echo "$id $x exit ${PIPESTATUS[0]}"; done
git -C /repo checkout -- .
