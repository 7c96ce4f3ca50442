#!/bin/bash
# check.sh PROPERTY [quick|thorough] [extra symex flags]: decide one property
# for the current tree of /repo. Exit 0: held on everything explored; exit 1
# with a VIOLATION line: broken.
cd "$(dirname "$0")" || exit 2
. /opt/vp/env.sh
export GOFLAGS=-mod=vendor
prop=$1; tier=${2:-${VERIF_TIER:-quick}}; shift; shift
bin=$(mktemp -d) || exit 2
trap 'rm -rf "$bin"' EXIT
(cd symex && go build -o "$bin/symex" .) || exit 2
export GOFLAGS=-mod=readonly
"$bin/symex" -property "$prop" -tier "$tier" -repo /repo -verif "$PWD" "$@"
