#!/usr/bin/env bash
# usage: run.sh <PROPERTY> <quick|thorough> [case]
# Builds the harness against /repo's current working tree and runs one check.
set -u
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
prop="$1"; tier="${2:-quick}"; only="${3:-}"
seed="${VERIF_SEED:-1}"
. /opt/vp/env.sh
export GOFLAGS="-mod=mod -buildvcs=false" GOTOOLCHAIN=local GOPROXY=off CGO_ENABLED=1
build="$(mktemp -d "${TMPDIR:-/tmp}/vhbuild.XXXXXX")" || exit 3
trap 'rm -rf "$build"' EXIT
race=""
case "$prop" in
  X01) race="-race" ;;
esac
if ! (cd "$here/harness" && go build $race -tags=fts5 -o "$build/vh" .) >"$build/build.log" 2>&1; then
  cat "$build/build.log" >&2
  echo "the harness does not build against /repo" >&2
  exit 3
fi
if [ "$prop" = X05 ]; then
  if ! (cd /repo && GOFLAGS="-mod=readonly -buildvcs=false" go build -tags=fts5 -o "$build/sqddl" .) >"$build/build.log" 2>&1; then
    cat "$build/build.log" >&2
    echo "sqddl does not build" >&2
    exit 3
  fi
  export VERIF_CLI="$build/sqddl"
fi
args=(check -prop "$prop" -tier "$tier" -seed "$seed" -root "$here")
if [ -n "$only" ]; then args+=(-case "$only"); fi
"$build/vh" "${args[@]}"
rc=$?
exit $rc
