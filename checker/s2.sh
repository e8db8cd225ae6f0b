cd /verif/checker
L=$(grep -hoE '^func [A-Z][A-Za-z0-9]*\(\)' clients/s2tools/*.go | sed 's/func //;s/()//' | sort | sed 's/^/s2tools./' | paste -sd,)
./t.sh -run $L "$@" 2>&1 | grep -v "unknown: \[\]\|^  obl" | cut -c1-300
