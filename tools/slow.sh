#!/bin/bash
# slow.sh NAME: slowest functions of an extracted contract file
unset RUSTUP_TOOLCHAIN
verus /tmp/o/$1.rs --num-threads 8 --output-json --time-expanded 2>/dev/null | python3 -c "
import json,sys
d=json.load(sys.stdin)
r=[(f['time-micros']/1e6,f['function']) for m in d['times-ms']['smt']['smt-run-module-times'] for f in m['function-breakdown']]
for t,f in sorted(r)[::-1][:8]: print('%.2f'%t,f)
print(sum(x[0] for x in r))"
