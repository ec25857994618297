#!/bin/bash
# trybug.sh ID [CHECK...]: run checks against a planted change applied to /repo, then undo it
ID=$1; shift
P=/verif/seeded/$ID/patch.diff
CH="$@"; [ -z "$CH" ] && CH=$(python3 -c "import json;print(json.load(open('/verif/seeded/$ID/meta.json'))['property'])")
git -C /repo apply $P || exit 3
for c in $CH; do echo "== $ID $c"; python3-vt /verif/check.py $c | cut -c1-260 | head -${LINES_MAX:-6}; done
git -C /repo checkout -- .
