#!/bin/bash
# show a replay's trace for the calls involved
$(dirname $0)/../run.py $1 --replay $2 | cut -c1-170 | grep -av "^replay\|RADIUS" | grep -aE "${3:-.}"
