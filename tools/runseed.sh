#!/bin/bash
# tools/runseed.sh ID...: run the property's quick check against each seeded bug
for id in "$@"; do
  s=/verif/seeded/$id
  p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
  git -C /repo apply "$s/patch.diff" || continue
  /verif/bin/check "$p" > /tmp/runseed.out 2>&1
  rc=$?
  git -C /repo checkout -q -- .
  echo "$id rc=$rc $(grep -c VIOLATION /tmp/runseed.out) $(grep VIOLATION /tmp/runseed.out | head -1) $(grep wall= /tmp/runseed.out | sed 's/.*wall/wall/')"
done
