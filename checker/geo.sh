cd /verif/checker
L=$(grep -hoE '^func [A-Z][A-Za-z0-9]*\(\)' clients/geodata/*.go | sed 's/func //;s/()//' | sort | sed 's/^/geodata./' | paste -sd,)
./t.sh -run $L "$@" 2>&1 | grep -v "obligations\|unknown: \[\]" | cut -c1-300
