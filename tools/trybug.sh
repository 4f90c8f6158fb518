#!/bin/bash
# trybug.sh ID [PROP]: run the check of a planted bug's property with the bug applied to /repo, then undo it
d=/verif/seeded/$1; p=${2:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is dirty"; exit 2; }
git -C /repo apply "$d/patch.diff" || exit 2
cd /verif; ./check $p > /tmp/sd/$1.$p.out 2>&1; rc=$?
git -C /repo checkout -- .
echo "== $1 $p rc=$rc"; grep -E "VIOLATION|failed obligation|lost:|level=" /tmp/sd/$1.$p.out | cut -c1-220
