#!/bin/bash
# usage: run.sh <property> [quick|thorough]   -- decides one property from /repo's current source.
here="$(cd "$(dirname "$0")" && pwd)"
. "$here/env.sh"
"$here/setup.sh" >/dev/null || { echo "analyzer does not build"; exit 3; }
exec "$here/bin/ginkgoverif" -property "$1" -tier "${2:-${VERIF_TIER:-quick}}" -repo "${VERIF_REPO:-/repo}" -verif "$here"
