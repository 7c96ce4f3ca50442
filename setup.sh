#!/bin/bash
# Builds the symbolic executor once (this fills the build cache) and checks
# that the harnesses and the native replay program compile.
cd "$(dirname "$0")" || exit 2
. /opt/vp/env.sh
export GOFLAGS=-mod=vendor
cd symex && go build -o /dev/null . && go vet . >/dev/null 2>&1; true
