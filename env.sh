export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=0 GOMEMLIMIT=20GiB
export PATH=$PATH:/usr/local/go/bin
