#!/bin/bash
# bash /verif/check.sh ID [quick|thorough]   decide one property
# bash /verif/check.sh replay FILE           replay a counterexample
# bash /verif/check.sh build                 build the verifier
export HOME=/root
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
export GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
ulimit -v unlimited 2>/dev/null
dir=/verif/.build
mkdir -p "$dir" /verif/evidence
( cd /verif/govc && go build -o "$dir/govc" . ) || { echo "cannot build the verifier"; exit 3; }
case "$1" in
build) exit 0 ;;
replay) exec "$dir/govc" replay "$2" ;;
native|dev) shift; exec "$dir/govc" "$@" ;;
*) exec timeout -k 5 860 "$dir/govc" check "$@" ;;
esac
