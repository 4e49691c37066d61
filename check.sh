#!/bin/bash
# Usage: check.sh PROPERTY. Decides one property on the sources in /repo.
cd "$(dirname "$0")" || exit 2
[ -d /opt/veriftools/go1.27.3/bin ] && PATH=/opt/veriftools/go1.27.3/bin:$PATH
[ -x bin/verify ] || bash setup.sh || exit 2
exec bin/verify -repo "${VERIF_REPO:-/repo}" -verif "$PWD" "$1"
