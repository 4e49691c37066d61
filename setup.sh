#!/bin/bash
# Builds the analyzer from the committed sources, offline.
set -e
cd "$(dirname "$0")"
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOSUMDB=off CGO_ENABLED=0 GOFLAGS=
[ -d /opt/veriftools/go1.27.3/bin ] && PATH=/opt/veriftools/go1.27.3/bin:$PATH
mkdir -p bin evidence
(cd analyzer && go build -mod=vendor -o ../bin/verify.new .)
mv -f bin/verify.new bin/verify
