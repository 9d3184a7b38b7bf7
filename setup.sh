#!/bin/bash
# builds the analyzer from the vendored sources, offline
set -e
cd "$(dirname "$0")/analyzer"
. /opt/vp/env.sh
export GOFLAGS=-mod=vendor GOWORK=off CGO_ENABLED=0
mkdir -p ../bin
go build -o ../bin/az.$$ .
mv -f ../bin/az.$$ ../bin/az
