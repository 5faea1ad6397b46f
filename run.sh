#!/bin/sh
# run.sh <property> [quick|thorough]: build the model checker and run one check.
cd "$(dirname "$0")" || exit 2
VERIF_DIR=$(pwd); export VERIF_DIR
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
unset GOFLAGS
t=$(mktemp -d /tmp/vmcbin.XXXXXX) || exit 2
trap 'rm -rf "$t"' EXIT
(cd mc && GOFLAGS= CGO_ENABLED=0 go build -trimpath -o "$t/mc" .) || exit 2
"$t/mc" "$1" "${2:-${VERIF_TIER:-quick}}"
