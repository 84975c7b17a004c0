#!/bin/bash
# Development tool: trybug.sh ID [PROPERTY...]: run checks against a copy of /repo with a seeded bug.
id=$1; shift
here=$(cd "$(dirname "$0")/.." && pwd)
props=${*:-$(python3 -c "import json;print(json.load(open('$here/seeded/$id/meta.json'))['property'])")}
w=/tmp/trybug/$id
mkdir -p $w && rsync -a --delete --exclude target --exclude .git /repo/ $w/ && (cd $w && rm -rf .git && git init -q . && git apply $here/seeded/$id/patch.diff) || echo "patch does not apply"
for p in $props; do (cd $here && VERIF_REPO=$w python3 check.py $p > /tmp/trybug/$id.$p.log 2>&1; echo "$id $p exit $? $(grep -c ^VIOLATION /tmp/trybug/$id.$p.log) $(grep '^VIOLATION' /tmp/trybug/$id.$p.log | head -1) | $(tail -1 /tmp/trybug/$id.$p.log)"); done
rm -rf $w
