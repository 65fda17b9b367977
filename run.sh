#!/bin/bash
# Builds the verifier if needed and checks one property against /repo's working tree.
# usage: run.sh PROPERTY
cd "$(dirname "$0")" || exit 2
./build.sh || exit 2
exec bin/govc check "$@"
