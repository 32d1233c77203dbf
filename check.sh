#!/bin/bash
# check.sh <property> | check.sh replay <file>
D=$(cd "$(dirname "$0")" && pwd)
export HOME="${HOME:-/root}" PATH="/opt/veriftools/go1.27.3/bin:$PATH"
export GOTOOLCHAIN=local GOPROXY=off VERIF_HOME="$D"
[ -x "$D/bin/gov" ] || bash "$D/setup.sh" || exit 3
case "$1" in
replay) exec "$D/bin/gov" replay "$2" ;;
*) exec "$D/bin/gov" check "$1" ;;
esac
