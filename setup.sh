#!/bin/bash
# builds the verifier from the committed sources (offline)
set -e
cd "$(dirname "$0")/govc"
export PATH=/opt/veriftools/go1.26.10/bin:$PATH GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off
go build -o govc .
