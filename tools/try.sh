#!/bin/bash
# usage: try.sh ID [tier] [check...]: run the quick check of the planted change's property (or those named) with it applied, then undo it.
id=$1; tier=${2:-quick}; shift 2 2>/dev/null || shift $#
d=/verif/seeded/$id
checks=${@:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
git -C /repo apply $d/patch.diff || exit 3
trap 'git -C /repo checkout -q -- .' EXIT
for c in $checks; do
  timeout 900 python3 /verif/check.py $c --tier $tier > /tmp/try.$id.$c.out 2>&1; rc=$?
  echo "$id $c rc=$rc $(grep -m1 '^VIOLATION' /tmp/try.$id.$c.out | cut -c1-160) $(grep -m1 -i 'clause' /tmp/try.$id.$c.out | cut -c1-200)"
done
