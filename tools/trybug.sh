#!/bin/bash
# trybug.sh <id>...: applies a planted bug to /repo, runs the check of its property, restores /repo.  Not used by any check.
cd /verif
for i in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$i/patch.diff || continue
  s=$(date +%s); timeout 900 python3-vt vc/run.py $p > /tmp/trybug.$i.log 2>&1; c=$?
  git -C /repo checkout -- .
  echo "$i $p exit=$c $(( $(date +%s) - s ))s $(grep -m1 -E '^VIOLATION' /tmp/trybug.$i.log)"
  grep -E '^failed obligation|^failing input|undecided|BOUNDED' /tmp/trybug.$i.log | cut -c1-220 | head -5
done
