#!/bin/bash
# Warms the build cache; every check builds what it needs by itself.
set -u
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
tmp=$(mktemp -d /tmp/verif-build.XXXXXX) || exit 2
trap '/bin/rm -rf "$tmp"' EXIT
cp "$here/harness/go.mod" "$here/harness/go.sum" "$tmp/"
printf '{"Replace": {"/repo/go.mod": "%s"}}\n' "$here/harness/freetype.mod" > "$tmp/overlay.json"
export GOFLAGS="-modfile=$tmp/go.mod -overlay=$tmp/overlay.json -buildvcs=false"
cd "$here/harness" || exit 2
go build -o "$tmp/check" ./cmd/check || exit 2
CGO_ENABLED=1 go build -race -o "$tmp/check" ./cmd/check || exit 2
mkdir -p "$here/evidence"
exit 0
