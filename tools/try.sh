#!/bin/bash
# debugging aid: run proof functions, trimmed output (V, R: other copies of /verif and /repo)
. /verif/tools/env.sh
export GOVC_SPECS=${V:-/verif}/specs GOVC_REPO=${R:-/repo}
cd ${V:-/verif}/govc && go build -o /tmp/govc . || exit 1
GOVC_ABBREV=${AB-1} timeout ${T:-150} /tmp/govc try "$@" > /tmp/o.txt 2>&1
cut -c1-${W:-220} /tmp/o.txt | grep -v '^  path\|^DUMP' | head -${N:-60}
