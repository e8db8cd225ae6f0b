cd /verif/checker
L=$(grep -ho "^func [A-Z][A-Za-z]*()" clients/kv/*.go | sed 's/func \(.*\)()/kv.\1/' | paste -sd,)
timeout 600 ./t.sh -run $L -max 1000000 "$@" 2>&1 | cut -c1-250 | grep -v "^  obl\|unknown: \[\]"
