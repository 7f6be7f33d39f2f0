#!/bin/bash
# Usage: check.sh <property-id|all> [tier]   -- decides the property on /repo's current source.
# The checker is (re)built from /verif/checker with the Go tool chain of the sandbox; the build
# cache makes this a fraction of a second after setup_cmd.
here="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOWORK=off GOTOOLCHAIN=local
export VERIF_DIR="$here" VERIF_CHECKER="$here/checker" VERIF_REPO="${VERIF_REPO:-/repo}"
bin="$here/.bin/checker"
mkdir -p "$here/.bin" "$here/evidence"
if ! (cd "$here/checker" && go build -o "$bin.$$" . && mv "$bin.$$" "$bin"); then
  if [ ! -x "$bin" ]; then echo "the checker does not build"; exit 3; fi
fi
exec "$bin" "$@"
