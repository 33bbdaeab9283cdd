#!/bin/bash
# builds the verifier from the committed sources, offline
. /verif/tools/env.sh
set -e
mkdir -p /verif/bin /verif/evidence
cd /verif/govc && go build -o /verif/bin/govc .
# warm the build cache for the replay drivers
cd /repo && go build ./... >/dev/null 2>&1 || true
