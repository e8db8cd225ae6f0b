#!/bin/bash
# ts.sh SEED args... : run t.sh on a scratch copy with a planted bug
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
cp -a /repo $d/repo; git -C $d/repo apply /verif/seeded/$1/patch.diff || exit 1
shift
"$(dirname "$0")/t.sh" -repo $d/repo "$@"
