#!/bin/bash
grep -A${2:-5} "failed=true\|paths\|repo/sign\|unsup" /tmp/o.txt | grep -v failed=false | cut -c1-${3:-300}| head -${1:-40}
