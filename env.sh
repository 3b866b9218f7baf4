export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOFLAGS=-mod=mod GOTOOLCHAIN=local GOPROXY=off GOWORK=off CGO_ENABLED=0
export HOME=${HOME:-/root} GOCACHE=${GOCACHE:-/verif/build/gocache}
