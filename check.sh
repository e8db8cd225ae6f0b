#!/bin/bash
# check.sh <property>: decides one property on /repo's working tree.
cd "$(dirname "$0")" || exit 2
ROOT=$PWD
REPO=${REPO:-/repo}
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off
export PATH=/opt/veriftools/bin:/usr/local/bin:$PATH
if [ ! -x checker/bin/vc ] || [ -n "$(find checker -maxdepth 1 -name '*.go' -newer checker/bin/vc -print -quit)" ]; then
	(cd checker && go build -o bin/vc .) || exit 2
fi
mkdir -p evidence
cd checker && exec ./bin/vc -check "$1" -repo "$REPO" -clients clients -required required.txt -known ../known_findings.txt -evidence "$ROOT/evidence/$1.json"
