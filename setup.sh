#!/usr/bin/env bash
# Warms the build cache; the checks do not depend on it.
set -eu
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
. /opt/vp/env.sh
export GOFLAGS="-mod=mod -buildvcs=false" GOTOOLCHAIN=local GOPROXY=off CGO_ENABLED=1
out="$(mktemp -d "${TMPDIR:-/tmp}/vhsetup.XXXXXX")"
trap 'rm -rf "$out"' EXIT
(cd "$here/harness" && go build -tags=fts5 -o "$out/vh" .)
