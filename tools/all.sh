#!/bin/bash
# tools/all.sh SEED...: every check at its quick size; names the ones that are not quiet
cd /verif
for c in $(ls checks | grep -o 'c[0-9][0-9]' | tr c C); do python3 -m py_compile checks/${c,,}.py || exit; done
for s in "$@"; do for c in $(ls checks | grep -o 'c[0-9][0-9]' | tr c C); do
 ./run.py $c --noevidence --seed $s > /tmp/o.$c.$s 2>&1 || { echo "$c $s"; grep -m1 VIOLATION /tmp/o.$c.$s | cut -c1-300; n=$((n+1)); [ "$n" -gt 8 ] && exit; }
done; done; echo done
