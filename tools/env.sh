export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GONOSUMDB=* GONOSUMCHECK=1 GOFLAGS=-mod=mod GONOSUMDB='*' GOSUMDB=off
export GOCACHE=${GOCACHE:-/root/.cache/go-build} GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} HOME=/root
