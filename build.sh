#!/bin/bash
# Builds the verifier from the committed sources (offline).
set -e
cd "$(dirname "$0")/govc"
export PATH=/opt/veriftools/go1.26.10/bin:$PATH GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off HOME=/root
mkdir -p ../bin
go build -o ../bin/govc .
