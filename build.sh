#!/bin/bash
# builds the verifier
cd "$(dirname "$0")/govc" && GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOTOOLCHAIN=local go build -o "${1:-/tmp/govc}" .
