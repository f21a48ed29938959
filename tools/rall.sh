#!/bin/bash
# run a check and show the compact trace of each violation found
c=$1; shift
cd $(dirname $0)/..; ./run.py $c --noevidence "$@" 2>&1 > /tmp/rall.$c
cut -c1-300 /tmp/rall.$c | grep -A1 "^violation"| while read l; do case "$l" in VIOL*) f=${l##*replay=}; tools/rp.sh $c $f "${RX:-IN|OUT|REQ|CB|viol|stall|sched}" 2>&1 | cut -c1-170 | tail -${TL:-16};; *) echo "== $l" | cut -c1-220;; esac; done
tail -4 /tmp/rall.$c | grep -v ^VIOL | cut -c1-500
