#!/bin/bash
# selftest.sh DUMPDIR SEED...: runs every check with decisions by normal form switched off, so that only valuations decide.
# On a tree where the properties hold no check may report a violation; this looks for false alarms of the fallback.
d=$1; shift
one() { VERIF_SEED=$1 SG_NONF=1 SG_NOEV=1 timeout 850 python3 /verif/check.py $2 $3 2>&1 | grep '^VIOLATION\|^violated\|Error' | sed "s/^/seed $1 $2: /"; }
export -f one
for s in "$@"; do for i in $(seq -w 1 46); do [ $i = 43 ] || echo "$s C$i $d"; done; done | xargs -P 6 -L 1 bash -c 'one $0 $1 $2'
