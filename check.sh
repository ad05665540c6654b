#!/bin/bash
# check.sh <property>: decides one property on /repo's current working tree.
here="$(cd "$(dirname "$0")" && pwd)"
export HOME=/root
"$here/build.sh" || { echo "the verifier does not build"; exit 2; }
export PATH=/opt/veriftools/go1.23.12/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod
exec "$here/bin/govc" -check "$1" -verif "$here" -repo /repo
