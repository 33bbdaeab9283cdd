#!/bin/bash
# plant.sh ID : the change made in /tmp/pl/repo becomes seeded/ID/patch.diff once it is confirmed
# (plant.sh new: start a fresh scratch copy)
. /verif/tools/env.sh
if [ "$1" = new ]; then rm -rf /tmp/pl; mkdir -p /tmp/pl; cp -a /repo /tmp/pl/repo; exit; fi
id=$1; d=${SEEDDIR:-/verif/seeded}/$id; R=/tmp/pl/repo
cd $R || exit 1
git diff > $d/patch.diff
[ -s $d/patch.diff ] || { echo "no change"; exit 1; }
git diff --stat | tail -3
chmod +x $d/demo.sh
fail() { echo "NOT CONFIRMED: $*"; exit 1; }
go build -buildvcs=false ./... || fail build
go test -vet=off -count=1 ./... 2>&1 | grep -v "no test files" | tail -5
go test -vet=off -count=1 ./... >/dev/null 2>&1 || fail tests
go build -buildvcs=false -o /tmp/pl/sigtool ./src
timeout 300 bash ./tests.sh bin=/tmp/pl/sigtool tmpdir=/tmp/pl/rt </dev/null >/tmp/pl/rt.log 2>&1 || fail tests.sh
rm -rf /tmp/pl/rt
git status --short | grep -v '^ M' | head
bash $d/demo.sh > /tmp/pl/demo1.log 2>&1 && { tail -5 /tmp/pl/demo1.log; fail "demo passes with the change"; }
tail -4 /tmp/pl/demo1.log
git stash -q
bash $d/demo.sh > /tmp/pl/demo0.log 2>&1 || { tail -20 /tmp/pl/demo0.log; git stash pop -q; fail "demo fails without the change"; }
git stash drop -q
git status --short | head
echo CONFIRMED $id
