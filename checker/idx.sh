#!/bin/sh
# every index client
cd "$(dirname "$0")" || exit 2
for c in $(sed -n 's/^func \([A-Z][A-Za-z0-9]*\)() {$/\1/p' clients/index/index.go); do
  timeout 300 ./t.sh -run index.$c "$@" 2>&1 | grep -v "^  obligations\|^  unknown: \[\]"
done
