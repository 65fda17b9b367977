#!/bin/bash
# Builds bin/govc from the committed sources (vendored, offline).
cd "$(dirname "$0")" || exit 2
export HOME="${HOME:-/root}"
need=1
if [ -x bin/govc ]; then
  need=0
  [ -n "$(find govc -newer bin/govc -name '*.go' -print -quit)" ] && need=1
fi
if [ $need = 1 ]; then
  mkdir -p bin
  (cd govc && GOFLAGS= GOWORK=off CGO_ENABLED=0 go build -mod=vendor -o ../bin/govc.$$ .) && mv bin/govc.$$ bin/govc || exit 2
fi
