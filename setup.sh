#!/bin/sh
# setup.sh: check that the model checker builds (every check builds it again).
cd "$(dirname "$0")/mc" || exit 2
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
GOFLAGS= CGO_ENABLED=0 go vet . && GOFLAGS= CGO_ENABLED=0 go build -trimpath -o /dev/null .
