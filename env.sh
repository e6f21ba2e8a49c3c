export HOME=${HOME:-/root} GO111MODULE=on GOTOOLCHAIN=local GOWORK=off GOPROXY=off GOFLAGS=-mod=mod
