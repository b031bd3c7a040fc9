#!/bin/bash
# check.sh <property> [--replay FILE] [--secs N]: builds the verifier and decides one property.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
export VERIF_DIR="$here" VERIF_REPO="${VERIF_REPO:-/repo}" GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
mkdir -p "$here/.cache/bin"
tool="$here/.cache/bin/vtool.$$"
(cd "$here/src/vtool" && go build -o "$tool" .) || exit 2
"$tool" "$@"
rc=$?
rm -f "$tool"
exit $rc
