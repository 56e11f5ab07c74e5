#!/bin/bash
# k.sh cNN [harness-timeout] : run the verifier on one module, print a table
cd /verif/contracts
t=${2:-120}
F=$1; [ -n "$DEEP" ] && F=$1,deep
CARGO_NET_OFFLINE=true timeout 1500 cargo kani --lib --no-default-features --target-dir /verif/target/kani --features $F -j 8 --output-format=terse -Z unstable-options -Z stubbing --harness-timeout ${t}s "${@:3}" > /tmp/$1.log 2>&1
grep -E '^error' -A8 /tmp/$1.log | head -40
python3 - $1 <<'P'
import sys; sys.path.insert(0,'/verif')
import check
for n,r in sorted(check.parse_kani(open('/tmp/%s.log'%sys.argv[1]).read()).items()): print(n,r['status'],round(r['secs'],1),r['cover'],r['msgs'][:5],r['where'][:3])
P
grep Complete /tmp/$1.log
