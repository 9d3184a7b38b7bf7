#!/bin/bash
# run.sh PROPERTY[,PROPERTY...]: analyses the current tree of /repo. Exit 0: every obligation is discharged,
# 1: VIOLATION, anything else: the analysis itself failed
D=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
if [ ! -x "$D/bin/az" ] || [ -n "$(find "$D/analyzer" -name '*.go' -newer "$D/bin/az" -print -quit)" ]; then
	bash "$D/setup.sh" || exit 3
fi
export GOFLAGS=-mod=readonly GOWORK=off
exec "$D/bin/az" -verif "$D" -repo "${VERIF_REPO:-/repo}" -prop "$1"
