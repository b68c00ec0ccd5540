#!/bin/bash
# builds the verifier (offline) into /verif/.build
cd "$(dirname "$0")/govc" || exit 2
mkdir -p ../.build
exec env PATH=/usr/local/go/bin:$PATH GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOTOOLCHAIN=local go build -o ../.build/govc .
