#!/bin/bash
# Builds the verifier once, to see that it builds; every check builds what it needs itself.
set -e
here="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
mkdir -p "$here/.cache/bin" "$here/evidence" "$here/replays"
cd "$here/src/vtool" && go build -o "$here/.cache/bin/vtool.setup" . && rm -f "$here/.cache/bin/vtool.setup"
cd "$here/src/vsim" && go vet ./rt ./dec
