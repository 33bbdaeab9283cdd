#!/usr/bin/env python3
"""mkseed.py FILE: FILE is a python snippet defining id, prop, needs, breaks, edits [(file, old, new)], demo (Go test body file text), pkg."""
import sys, os, json, subprocess
ns = {}
exec(open(sys.argv[1]).read(), ns)
R = '/tmp/pl/repo'
subprocess.check_call(['/verif/tools/plant.sh', 'new'])
for f, o, n in ns['edits']:
    s = open(f'{R}/{f}').read()
    assert s.count(o) == 1, (f, o, s.count(o))
    open(f'{R}/{f}', 'w').write(s.replace(o, n))
d = os.environ.get("SEEDDIR", "/verif/seeded") + "/" + ns["id"]
os.makedirs(d, exist_ok=True)
pkg = ns.get('pkg', 'sign')
files = ['demo']
open(f'{d}/demo_test.go', 'w').write(ns['demo'])
if ns.get('ref'):
    open(f'{d}/ref_test.go', 'w').write(open('/verif/replay/sign/zz_replay_ref_test.go').read())
    files.append('ref')
sh = ns.get('demosh') or '''#!/bin/bash
# runs demo_test.go inside package %s by way of an overlay; all files it makes are in a scratch directory
d="$(cd "$(dirname "$0")" && pwd)"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
t=$(mktemp -d) || exit 1
trap 'rm -rf "$t"' EXIT
cat > "$t/o.json" <<X
{"Replace":{%s}}
X
go test -vet=off -count=1 -timeout 280s -overlay "$t/o.json" -run '^TestDemo$' ./%s
''' % (pkg, ','.join('"$PWD/%s/zz_%s_test.go":"$d/%s_test.go"' % (pkg, f, f) for f in files), pkg)
open(f'{d}/demo.sh', 'w').write(sh)
json.dump({"property": ns['prop'], "needs": ns['needs'], "what_it_breaks": ns['breaks']}, open(f'{d}/meta.json', 'w'), indent=1)
sys.exit(subprocess.call(['/verif/tools/plant.sh', ns['id']]))
