#!/bin/bash
# catch.sh ID [PROPERTY...]: runs the checks of the given properties (default: the one the seed names) on a scratch copy of /repo with the seed applied
id=$1; shift
d=/verif/seeded/$id
ps="$*"; [ -n "$ps" ] || ps=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
c=$(mktemp -d /tmp/catch_XXXXXX)
cp -a /repo/. $c/
git -C $c apply $d/patch.diff || { echo "$id: patch does not apply"; rm -rf "$c"; exit 8; }
for p in $ps; do
  o=$(VP_REPO=$c python3 /verif/mc/run.py $p --maxviol 1 2>&1); r=$?
  echo "$id $p exit=$r $(echo "$o" | grep -v -e counters -e quick: | head -1 | cut -c1-220)"
done
rm -rf "$c"
