#!/bin/bash
# trybug.sh seedid [checks...]: run checks against a scratch copy of /repo with the seed applied
id=$1; shift
p=${@:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")}
d=/tmp/trybug.$$; mkdir -p $d; cp -a /repo/src $d/src
(cd $d && patch -s -p1 < /verif/seeded/$id/patch.diff) || exit 3
for c in $p; do (cd /verif; VERIF_REPO=$d python3-vt check.py $c 2>&1 | cut -c1-${W:-250} | head -${N:-3}); done
rm -rf "$d"
