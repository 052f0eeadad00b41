#!/bin/bash
# r.sh MODULE "units" SECS : run the units in parallel, print short summaries
m=$1; t=${3:-200}; mkdir -p /tmp/pv
for u in $2; do (timeout $((t+20)) python3-vt /verif/tools/runu.py $m $u -t $t > /tmp/pv/${m}_$u.log 2>&1) & done; wait
for u in $2; do echo "== $u"; grep -v '^  File\|^    [a-z].*(.*$\|\^\^' /tmp/pv/${m}_$u.log | cut -c1-${4:-260} | tail -${5:-14}; done | head -c ${6:-6000}
