#!/bin/bash
# check.sh ID [--thorough ...]: rebuilds the checker against /repo's current tree and runs one property.
. /verif/env.sh
id=$1; shift
bin=$(mktemp -d /tmp/gosym.XXXXXX)
trap '/bin/rm -rf "$bin"' EXIT
(cd /verif/gosym && go build -o "$bin/gosym" ./cmd/gosym) || { echo "build failed" >&2; exit 2; }
"$bin/gosym" check "$@" "$id"
