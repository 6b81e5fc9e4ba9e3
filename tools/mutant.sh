#!/bin/bash
# mutant.sh FILE N PROPERTY... : runs checks against one mutation that
# campaign.py numbers (development only).
f=$1; n=$2; shift 2
w=$(mktemp -d /tmp/mutant.XXXXXX); trap '/bin/rm -rf "$w"' EXIT
git clone -q /repo "$w/repo"; /tmp/mutate /repo/$f.go $n > "$w/repo/$f.go"; git -C "$w/repo" diff -U0 | tail -n +5
mkdir "$w/ev"
for p in $*; do out=$(REPO=$w/repo VERIF_DIR=$w/ev bash /verif/check.sh $p $FLAGS 2>&1); echo "$p exit $?: $(echo "$out" | grep -m1 -A1 VIOLATION | tail -1 | cut -c1-200)"; done
