#!/bin/bash
# check.sh <property> [tier]  - decide one property against /repo's working tree
cd "$(dirname "$0")" || exit 1
V=$(pwd)
. "$V/env.sh"
[ -x "$V/bin/govc" ] || bash "$V/setup.sh" >&2
tier=${2:-${VERIF_TIER:-quick}}
export VERIF_TIER=$tier VERIF_SEED=${VERIF_SEED:-1}
exec "$V/bin/govc" -check -prop "$1" -tier "$tier" -verif "$V" -repo "${VERIF_REPO:-/repo}"
