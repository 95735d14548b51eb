#!/bin/bash
# h.sh ID [harness args]: build and run the bounded harness for one property
cd /verif
RUSTUP_TOOLCHAIN=nightly CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=/verif/target/h cargo build --offline --manifest-path harness/Cargo.toml 2>&1 | grep -E "^error" -A9 | head -${LINES_MAX:-60}
[ "${PIPESTATUS[0]}" = 0 ] || exit 1
for id in $(echo $1 | tr , ' '); do
timeout 600 target/h/debug/harness $id "${@:2}" > /tmp/h.json || { echo "exit $?"; continue; }
python3 - <<'P'
import json
d=json.load(open('/tmp/h.json'))
print(d['id'],d['total'],'cases',d['failed'],'failed')
if d['failed']:
    print(' sections',d['cases'])
seen={}
for f in d['fails']:
  seen[f['section']]=seen.get(f['section'],0)+1
  if seen[f['section']]<=3: print('  FAIL',f['section'],'|',f['case'],'|',f['message'])
for f in d['known']: print('  known',f)
P
done
