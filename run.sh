#!/bin/bash
# run.sh PROPERTY TIER: build the harness against /repo's working tree and run one check
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export VP_VERIF="$here" VP_REPO="${VP_REPO:-/repo}"
. "$here/build.sh" || exit 2
exec "$VP_BIN" "$@"
