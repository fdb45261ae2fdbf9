#!/bin/bash
# planting helper: bug.sh new ID | finish ID | try ID CHECK...
#   new: scratch copy /tmp/bw/ID of /repo to edit      finish: diff, build, tests, demo with and without
#   try: run checks against the planted bug
set -u
B=/tmp/bw/$2; S=/verif/seeded/$2
case $1 in
new) mkdir -p /tmp/bw $S; [ -d "$B" ] || cp -a /repo "$B"; cp -n /verif/tools/d.h /verif/tools/demo.sh $S/;;
finish)
	git -C "$B" diff > $S/patch.diff
	[ -s $S/patch.diff ] || { echo "no change"; exit 1; }
	(cd /repo && bash $S/demo.sh) || { echo "DEMO FAILS ON THE UNCHANGED TREE"; exit 1; }
	unshare -m bash -c "mount --bind $B /repo && cd /repo && bash /opt/vp/build.sh >/dev/null 2>&1 && bash $S/demo.sh" && { echo "DEMO PASSES WITH THE PATCH"; exit 1; }
	unshare -m bash -c "mount --bind $B /repo && bash /opt/vp/test.sh /tmp/bw/$2.json" 2>&1 | tail -1
	rm -f /tmp/bw/$2.json;;
try)
	[ -d "$B" ] || { cp -a /repo "$B"; git -C "$B" checkout -q -- .; git -C "$B" apply $S/patch.diff || exit 2; }
	shift 2
	for c; do VERIF_REPO=$B VERIF_EVIDENCE=/tmp/bw/ev python3 /verif/check.py $c | tail -4; done;;
drop) find "$B" -delete;;
esac
