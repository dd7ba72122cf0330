#!/bin/bash
# try a mutation: mut.sh "<check ids>" <file under src> <perl substitution>
# e.g. mut.sh "B01 B02" core/buffer.c 's/a/b/'
d=$(mktemp -d /tmp/mut.XXXXXX)
cp -a /repo/src $d/src
perl -0pi -e "$3" $d/src/$2
if cmp -s /repo/src/$2 $d/src/$2; then echo "NO CHANGE"; exit 9; fi
for i in $1; do
	echo "== $i: $3"; VERIF_REPO=$d timeout 900 python3 $(dirname $0)/../check.py $i quick | grep -v '^note' | head -${LINES_MAX:-4}
done
rm -rf "$d"
