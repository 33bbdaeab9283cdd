#!/bin/bash
# check.sh <property> [quick|thorough]
. /verif/tools/env.sh
cd /verif
if [ ! -x /verif/bin/govc ] || [ -n "$(find /verif/govc -name '*.go' -newer /verif/bin/govc | head -1)" ]; then
  mkdir -p /verif/bin && (cd /verif/govc && go build -o /verif/bin/govc.$$ . && mv /verif/bin/govc.$$ /verif/bin/govc) || { echo "cannot build the verifier"; exit 2; }
fi
exec /verif/bin/govc check "$1" "${2:-quick}"
