#!/bin/bash
# dev helper: govc on a spec
( export PATH=/opt/veriftools/go1.26.10/bin:$PATH GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local; cd /verif/govc && go build -o govc . ) || exit 1
. /opt/vp/env.sh; export GOFLAGS=-mod=mod
s=$1; shift
cd /verif/contracts && /verif/govc/govc -spec $s.spec "$@" 2>&1 | cut -c1-${COLS:-260} | head -${ROWS:-14}
