export HOME=/root
export PATH=/opt/veriftools/go1.25.14/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GONOSUMDB='*' GONOSUMCHECK=1 GOFLAGS=-mod=mod
export GOPATH=/root/go GOCACHE=${GOCACHE:-/root/.cache/go-build}
