#!/bin/bash
# check.sh PROPERTY [flags of the check binary]
# Builds the harness against the working tree of /repo (or of $REPO) and runs
# the check of one property.
set -u
here=$(cd "$(dirname "$0")" && pwd)
id=${1:?usage: check.sh PROPERTY [flags]}
shift
. /opt/vp/env.sh
REPO=${REPO:-/repo}
export VERIF_DIR=${VERIF_DIR:-$here}
tmp=$(mktemp -d /tmp/verif-build.XXXXXX) || exit 2
trap '/bin/rm -rf "$tmp"' EXIT
sed "s|=> /repo|=> $REPO|" "$here/harness/go.mod" > "$tmp/go.mod"
cp "$here/harness/go.sum" "$tmp/go.sum"
printf '{"Replace": {"%s/go.mod": "%s"}}\n' "$REPO" "$here/harness/freetype.mod" > "$tmp/overlay.json"
export GOFLAGS="-modfile=$tmp/go.mod -overlay=$tmp/overlay.json -buildvcs=false"
# A tree that its own checks cannot be built against is no verdict: exit 2.
if [ "$id" = C03 ]; then
	export CGO_ENABLED=1
	race=-race
else
	race=
fi
(cd "$here/harness" && go build $race ${COVER:-} -o "$tmp/check" ./cmd/check) || exit 2
VERIF_REPO=$REPO "$tmp/check" -check "$id" "$@"
code=$?
exit $code
