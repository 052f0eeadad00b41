#!/bin/bash
# all claimed checks, quick tier
cd /verif
for c in ${@:-$(ls contracts/c*.py | sed 's/.*c\([0-9]*\)\.py/C\1/')}; do timeout 900 python3-vt check.py $c quick 2>&1 | tail -2 | cut -c1-250; done
