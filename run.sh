#!/bin/bash
# run.sh <property|all> <quick|thorough>: analyse /repo's current source
. "$(dirname "$0")/env.sh"
id=$1; tier=${2:-${VERIF_TIER:-quick}}
if ! build_an; then
	echo "the analyzer does not build" >&2
	exit 2
fi
export PATH=/opt/veriftools/go1.23.12/bin:/usr/local/bin:/usr/bin:/bin
exec "$V/analyzer/bin/an" -repo /repo -root "$V" -modfile "$V/analyzer/arpc.mod" -check "$id" -tier "$tier" -seed "${VERIF_SEED:-1}"
