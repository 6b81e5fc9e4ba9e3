#!/bin/bash
# trybug.sh ID [PROPERTY...]: confirms the planted bug seeded/ID (applies,
# builds, passes the tests, demo 0 without and non-zero with it) and shows
# which checks catch it (by default the one of its property). All of it uses a
# scratch copy of /repo, laid over /repo in a private mount namespace.
set -u
id=$1; shift
d=/verif/seeded/$id
props=${*:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
w=$(mktemp -d /tmp/trybug.XXXXXX)
trap '/bin/rm -rf "$w"' EXIT
git clone -q /repo "$w/repo" || exit 2
cat > "$w/confirm.sh" <<C
cd /repo
bash "$d/demo.sh" >$w/demo.out 2>&1 || { echo "$id: DEMO FAILS ON UNCHANGED"; tail -5 $w/demo.out; exit 1; }
git apply "$d/patch.diff" || exit 1
bash /opt/vp/build.sh >$w/build.out 2>&1 || { echo "$id: BUILD FAILS"; tail -5 $w/build.out; exit 1; }
bash /opt/vp/test.sh $w/t.json | grep -q "10 passed, 0 failed" || { echo "$id: TESTS FAIL"; exit 1; }
bash "$d/demo.sh" >$w/demo.out 2>&1 && { echo "$id: DEMO PASSES WITH BUG"; exit 1; }
tail -2 $w/demo.out | head -1
C
unshare -Ur -m bash -c "mount --bind $w/repo /repo && bash $w/confirm.sh" || exit 1
mkdir "$w/ev"
for p in $props; do
	out=$(REPO=$w/repo VERIF_DIR=$w/ev bash /verif/check.sh $p 2>&1); c=$?
	echo "$id: $p exit $c: $(echo "$out" | grep -m1 -A1 VIOLATION | head -2 | cut -c1-200)"
done
