#!/bin/bash
# Warms the Go build cache; every check rebuilds from /repo's current tree itself.
. /verif/env.sh
cd /verif/gosym && d=$(mktemp -d /tmp/gosym.XXXXXX) && go build -o "$d/gosym" ./cmd/gosym; rc=$?
/bin/rm -rf "$d"
exit $rc
