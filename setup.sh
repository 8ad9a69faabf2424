#!/bin/bash
# Builds the verifier once, so that the build cache is warm; the checks build it again themselves.
set -e
cd "$(dirname "$0")/gov"
unset GOROOT
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off go1.26 build -o "$t/gov" .
cd /repo
. /opt/vp/env.sh 2>/dev/null || true
GOFLAGS=-mod=mod GOPROXY=off go1.23 build ./... 2>/dev/null || true
echo ok
