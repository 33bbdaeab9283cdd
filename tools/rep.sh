#!/bin/bash
# rep.sh pkg Run files... : run one replay driver
. /verif/tools/env.sh
pkg=$1; run=$2; shift 2
d=$(mktemp -d /tmp/rep.XXXXXX); mkdir $d/work
DIR=${DIR:-$pkg}
{ echo '{"Replace":{'; s=; for f in "$@"; do echo "$s\"${R:-/repo}/$pkg/zz_replay_${f}_test.go\":\"${V:-/verif}/replay/$DIR/zz_replay_${f}_test.go\""; s=,; done; echo '}}'; } > $d/o.json
(cd ${R:-/repo} && go test -c -vet=off -overlay $d/o.json -o $d/t ./$pkg) && (cd $d/work && time VERIF_REPO=${R:-/repo} TMPDIR=$d/work HOME=$d/work VERIF_SEED=1 VERIF_TIER=${T:-quick} ../t -test.run "^$run\$" -test.v ) 2>&1 | cut -c1-600 | tail -${N:-25}
/bin/rm -rf "$d"
