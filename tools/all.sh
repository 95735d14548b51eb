#!/bin/bash
# re-verify every registered spec
cd /verif
for s in $(python3 -c "import json;print(*sorted({x[:-3] for v in json.load(open('/verif/specs/specs.json')).values() for x in v['specs']}))"); do
  echo "$s: $(LINES_MAX=400 tools/v.sh $s | grep -E 'verification results|^error' | sort | uniq -c | tr '\n' ' ')"
done
