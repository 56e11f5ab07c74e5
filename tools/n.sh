#!/bin/bash
# n.sh PROP [ms] [seed]: native campaign, short table
cd /verif/contracts
cargo build --offline --bin narrow-contracts --target-dir /verif/target/native 2>&1 | grep -E '^error' -A12 | head -${LINES_:-60}
timeout 300 /verif/target/native/debug/narrow-contracts run $1 ${3:-1} ${2:-2000} > /tmp/n.out 2>/tmp/n.err; echo "rc=$?"; tail -3 /tmp/n.err
python3 -c "
import sys,json
for l in open('/tmp/n.out'):
  d=json.loads(l); print(d['name'],d['cases'],d['judged'],[f['msg'][:300] for f in d['fails'][:1]])"
